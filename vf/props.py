"""Per-property build and budget settings. quick/thorough = (cases, seconds)."""
import os
L5 = "-I" + os.path.dirname(os.path.abspath(__file__)) + "/harness/live555"   # stand-in for live555
STUB = ["stub_pipeline.cc"]
PROPS = {
    "C01": dict(harness="c01_framequeue.cc", stubs=STUB, threads=True, quick=(40000, 25), thorough=(2000000, 400)),
    "C02": dict(harness="c02_sliced.cc", stubs=STUB, threads=True, quick=(60000, 20), thorough=(3000000, 300)),
    "C03": dict(harness="c03_circular.cc", stubs=STUB, threads=True, quick=(20000, 25), thorough=(2000000, 400)),
    "C04": dict(harness="c04_reader.cc", stubs=STUB, threads=True, quick=(200000, 20), thorough=(4000000, 300)),
    "C05": dict(harness="c05_graph.cc", stubs=STUB, quick=(200000, 25), thorough=(4000000, 400)),
    "C06": dict(harness="c06_timing.cc", stubs=STUB, quick=(200000, 25), thorough=(4000000, 400)),
    "C28": dict(harness="c28_stats.cc", threads=True, extra=["src/PipelineManager.cpp"], extraflags=["-DPBT_NO_MAIN", "-include", "fakefilters.hh"], quick=(200000, 20), thorough=(4000000, 300)),
    "C07": dict(sched=True, harness="c07_pool.cc", stubs=STUB, threads=True, quick=(100000, 25), thorough=(2000000, 400)),
    "C08": dict(harness="c08_events.cc", stubs=STUB, quick=(200000, 20), thorough=(4000000, 300)),
    "C09": dict(harness="c09_amix.cc", stubs=STUB, first=[999999], thorough_case_limit=300, quick=(20000, 25), thorough=(1000000, 400)),
    "C10": dict(harness="c10_vmix.cc", stubs=STUB, quick=(100000, 25), thorough=(4000000, 400)),
    "C11": dict(harness="c11_split.cc", stubs=STUB, quick=(200000, 20), thorough=(4000000, 300)),
    "C12": dict(harness="c12_resample.cc", stubs=STUB, quick=(100000, 20), thorough=(4000000, 300)),
    "C13": dict(harness="c13_shm.cc", stubs=STUB, threads=True, quick=(20000, 20), thorough=(1000000, 300)),
    "C14": dict(harness="c14_dashvideo.cc", stubs=STUB, plain=["src/VideoFrame.cpp"], quick=(100000, 20), thorough=(4000000, 300)),
    "C15": dict(harness="c15_dashaudio.cc", stubs=STUB, quick=(100000, 20), thorough=(4000000, 300)),
    "C16": dict(harness="c16_init.cc", stubs=STUB, plain=["src/VideoFrame.cpp"], quick=(100000, 20), thorough=(4000000, 300)),
    "C17": dict(harness="c17_mpd.cc", stubs=STUB, quick=(100000, 20), thorough=(4000000, 300)),
    "C18": dict(harness="c18_dasher.cc", stubs=STUB, plain=["src/VideoFrame.cpp"], quick=(20000, 25), thorough=(1000000, 300)),
    "C20": dict(harness="c20_jzon.cc", only=["src/Jzon.cpp"], quick=(1000000, 20), thorough=(20000000, 300)),
    "C23": dict(sched=True, harness="c23_pipeman.cc", threads=True, extra=["src/PipelineManager.cpp"], extraflags=["-DPBT_NO_MAIN", "-include", "fakefilters.hh"], quick=(20000, 25), thorough=(2000000, 400)),
    "C26": dict(plain=["src/VideoFrame.cpp"], harness="c26_control.cc", threads=True, extra=["src/PipelineManager.cpp"], extraflags=["-DPBT_NO_MAIN", "-include", "fakefilters.hh"], quick=(100000, 25), thorough=(2000000, 400)),
    "C25": dict(sched=True, harness="c25_pipeline.cc", stubs=STUB, threads=True, quick=(100000, 25), thorough=(4000000, 400)),
    "C21": dict(harness="c21_names.cc", stubs=STUB, quick=(200000, 15), thorough=(4000000, 120)),
    "C24": dict(harness="c24_frames.cc", stubs=STUB, quick=(200000, 20), thorough=(4000000, 300)),
    "C22": dict(harness="c22_sps.cc", stubs=STUB, extra=["src/modules/transmitter/H264VideoStreamSampler.cpp"], extraflags=[L5], hflags=[L5], quick=(1000000, 20), thorough=(4000000, 300)),
    "C27": dict(harness="c27_adapters.cc", stubs=STUB, extra=["src/modules/transmitter/%s.cpp" % x for x in ("QueueSource", "H264or5QueueSource", "H264or5StartCodeInjector", "ADTSStreamParser", "H264VideoStreamSampler", "UltraGridVideoRTPSink", "UltraGridAudioRTPSink", "CustomMPEG4GenericRTPSink")] + ["src/modules/receiver/QueueSink.cpp", "src/modules/receiver/H264VideoSdpParser.cpp"], extraflags=[L5, "-D_SINK_MANAGER_HH"], hflags=[L5], quick=(1000000, 20), thorough=(4000000, 300)),
    "C19": dict(harness="c19_encode.cc", stubs=STUB, quick=(100000, 25), thorough=(4000000, 400)),
}
