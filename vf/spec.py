"""Single source for properties.jsonl and MANIFEST.json (written by vf/gen.py)."""


def P(id, title, statement, over, text, why, files, mech, observe=(), note="", technique="", state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe),
                note=note, technique=technique, state=list(state))


SPEC = [
 P("C01", "Frame queues are bounded FIFOs that lose nothing silently",
   "Frames written to a filter-to-filter queue come out once each, in the order written, with payload, length, presentation/decode/origin time and sequence number untouched, and never more than the declared capacity are held. A full queue refuses a write; a forced write discards exactly the newest queued frame and counts one loss; the last consumed frame can be re-read until the next one is consumed. This also holds when one thread writes while another reads.",
   ["histories", "schedules", "inputs"], "every history of writes, forced writes, reads and re-reads on queues of every capacity, for audio, raw and coded video, sequential and two-threaded",
   "the queue unit tests use one short scripted history per queue; wrap-around, overflow after wrap, and two-thread transfer are not reached",
   ["src/AVFramedQueue.cpp", "src/AVFramedQueue.hh", "src/FrameQueue.hh"],
   [("ring buffer front/rear indices", "src/AVFramedQueue.cpp"), ("forced read/write", "src/AVFramedQueue.cpp")],
   ["AVFramedQueue::getRear/addFrame/getFront/removeFrame/forceGetRear/forceGetFront"]),
 P("C02", "Coded-video queues deliver the slices of an access unit intact and in order",
   "Every slice a producer hands to a sliced (H.264/H.265) video queue is delivered as its own frame, in slice order, with its exact bytes and the timestamps, sequence number and picture size of its access unit. An access unit of up to 16 slices is taken; a seventeenth is refused without disturbing the others. When the queue overflows, slices already queued stay readable in order and every discarded one is counted.",
   ["histories", "inputs"], "every sequence of access units of 0..17+ slices of any size within the queue's maximum, interleaved with reads, at every capacity",
   "the unit test writes one access unit into an empty queue",
   ["src/SlicedVideoFrameQueue.cpp", "src/SlicedVideoFrameQueue.hh", "src/VideoFrame.cpp"],
   [("inner slice frame copied out slice by slice on addFrame", "src/SlicedVideoFrameQueue.cpp")],
   ["SlicedVideoFrameQueue::getRear/addFrame/getFront/removeFrame"]),
 P("C03", "The audio circular buffer preserves the sample stream and its timing",
   "Samples written to a planar audio buffer are read back in order, per channel, in blocks of the configured size whose timestamps advance by the block duration. A timing gap in the input is filled with silence of the gap's length (jitter within the deviation threshold is ignored), and data older than what is buffered is discarded, so reader timestamps always match the samples delivered. Overflow discards whole input frames, never parts of them.",
   ["histories", "inputs"], "every sequence of input blocks of any size, timestamp jitter, gaps and overlaps, mixed with reads and output block size changes, for every planar format and channel count",
   "unit tests write a handful of equally sized blocks with contiguous timestamps",
   ["src/AudioCircularBuffer.cpp", "src/AudioCircularBuffer.hh"],
   [("byte ring per channel", "src/AudioCircularBuffer.cpp"), ("timestamp deviation handling", "src/AudioCircularBuffer.cpp")],
   ["AudioCircularBuffer::getRear/addFrame/getFront/removeFrame"]),
 P("C04", "A shared queue delivers every frame to every consumer exactly once",
   "When several consumers share one producer's queue, each consumer present sees every frame exactly once and in order, a frame is released only after all of them have taken it, and the producer is told to run again exactly when it is released. A consumer that leaves at any point never makes the others miss, repeat or wait forever for a frame.",
   ["histories", "schedules"], "every interleaving of consumer reads, consumer releases, joins and leaves over any number of consumers",
   "unit tests share one reader between two filters in one fixed order and never disconnect with a frame outstanding",
   ["src/IOInterface.cpp", "src/IOInterface.hh"],
   [("per-filter read/removed bookkeeping", "src/IOInterface.cpp")],
   ["Reader::getFrame/removeFrame/addReader/disconnect"]),
 P("C05", "Connecting and disconnecting filters keeps the graph consistent",
   "A connection succeeds exactly when both ends are free, exist and are compatible, and a refused one changes nothing. After any history of connects, shared connects and disconnects, each frame a producer publishes reaches exactly the consumers currently connected to that writer, each writer or reader is reported connected exactly while a link exists, and freed ends can be reused.",
   ["histories"], "every history of connect (one-to-one, one-to-many, many-to-one, many-to-many, shared), disconnect and frame passing over several filters of every role",
   "unit tests connect one or two filter pairs once, and check return values only",
   ["src/Filter.cpp", "src/IOInterface.cpp", "src/Filter.hh"],
   [("writers/readers maps and connection data", "src/Filter.cpp")],
   ["BaseFilter::connectOneToOne/connectOneToMany/connectManyToOne/connectManyToMany/shareReader/disconnectWriter/disconnectReader"]),
 P("C06", "Filters consume, stamp and publish frames by the declared timing rules",
   "Each run of a filter hands its processing step only frames not processed before, in order for each input, publishes output only if processing produced it, and asks to run again exactly the consumers of the outputs it published (and itself, when periodic). Fan-out filters pass on the input's origin time and sequence number; the outputs of head and many-input filters are numbered 0,1,2,... A synchronised many-input filter processes a frame only in the frame-time window it belongs to; frames wholly behind the window are dropped, not processed.",
   ["histories", "inputs", "configurations"], "every arrival pattern of timestamped frames over 1..n inputs, filter roles, frame-time settings and consumption patterns",
   "unit tests step a mock filter through a few fixed arrivals",
   ["src/Filter.cpp", "src/Filter.hh", "src/IOInterface.cpp"],
   [("demandOriginFrames / demandDestinationFrames / addFrames / removeFrames", "src/Filter.cpp")],
   ["BaseFilter::processFrame return value, frames seen by doProcessFrame and by connected readers"]),
 P("C07", "The worker pool runs every enabled task, never twice at once",
   "A task added to the pool runs once immediately and afterwards only when asked; every filter id a run returns causes that task to run again after the request, requests made while a task is running are not lost, and a task never runs on two workers at the same time. Delayed or not-ready tasks run when ready. After a task is removed it never runs again, removal waits until no worker is inside it, and stopping the pool ends all workers.",
   ["schedules", "histories"], "every interleaving of runs, re-enables, additions and removals over any number of tasks and workers, with the harness deciding when each run ends",
   "unit tests add a few trivial tasks and wait; they cannot control which run overlaps which request",
   ["src/WorkersPool.cpp", "src/WorkersPool.hh", "src/Runnable.cpp"],
   [("task queue, running flags, re-queue list", "src/WorkersPool.cpp")],
   ["Runnable::processFrame invocations"]),
 P("C08", "Filter events run once, in time order, not before they are due",
   "Every event pushed to a filter is executed exactly once, when the filter next runs at or after the event's due time (sources and sinks execute it as it is pushed), and no other event holds it back; events that are due are executed in order of due time. An event naming an unknown action changes nothing, and the parameters the action receives are those that were pushed.",
   ["histories", "inputs"], "every sequence of pushes with arbitrary delays, including equal and past ones, interleaved with filter runs",
   "unit tests push one or two immediate events",
   ["src/Event.cpp", "src/Event.hh", "src/Filter.cpp"],
   [("event priority queue keyed by due time", "src/Filter.cpp"), ("event comparison", "src/Event.cpp")],
   ["BaseFilter::pushEvent, processEvent"]),
 P("C09", "The audio mixer outputs the gain-weighted sum of its inputs",
   "Each mixed output block equals, sample by sample, the sum of all active inputs at that time multiplied by their channel gain and the master gain, limited as each channel is added: below the limiter threshold the mix is the exact sum whatever the order of the inputs, above it never exceeds full scale. Muted channels and channels excluded by a solo contribute nothing. Input frames are placed by timestamp (frames too old or beyond the mixing window are dropped whole or restart the window), and output blocks are contiguous in time.",
   ["inputs", "histories", "configurations"], "any number of channels with arbitrary sample data, timestamps, gains, solo and mute settings changed at any time",
   "the functional test mixes one or two fixed channels and checks frame counts, never the mixed samples",
   ["src/modules/audioMixer/AudioMixer.cpp", "src/modules/audioMixer/AudioMixer.hh"],
   [("per-channel mix buffers, gains and limiter", "src/modules/audioMixer/AudioMixer.cpp")],
   ["AudioMixer filter input and output frames, getState"]),
 P("C10", "The video mixer composes its inputs as configured",
   "Every output picture equals the enabled channels drawn over black, each scaled to its configured width and height, placed at its configured position, cropped at the picture edge, blended with its opacity, lower layers under higher ones and channels of a layer in id order; disabled channels are not drawn. Configuration requests with values outside their documented range are refused and change nothing.",
   ["inputs", "configurations", "histories"], "any channel count, picture sizes, contents and sequences of valid or invalid channel configurations",
   "the functional test compares one layout with a stored picture",
   ["src/modules/videoMixer/VideoMixer.cpp", "src/modules/videoMixer/VideoMixer.hh"],
   [("layer ordering, resize, crop and blend", "src/modules/videoMixer/VideoMixer.cpp")],
   ["VideoMixer output frames, configChannel, getState"]),
 P("C11", "The video splitter outputs exactly the configured crops",
   "Each configured output shows exactly the rectangle of the source picture its position and size select, with correct dimensions, length, timestamps and sequence number; an output that is not configured, or whose rectangle is not inside the current source picture, produces nothing while the others go on. Invalid configurations are refused and change nothing. (A configured rotation is stored and reported, not applied.)",
   ["inputs", "configurations", "histories"], "any source size and content, crop rectangles including edges and invalid ones, and changes of source size and configuration over time",
   "the unit test checks one configuration call and one crop",
   ["src/modules/videoSplitter/VideoSplitter.cpp", "src/modules/videoSplitter/VideoSplitter.hh"],
   [("crop rectangle from fractions", "src/modules/videoSplitter/VideoSplitter.cpp")],
   ["VideoSplitter outputs, configCrop"]),
 P("C12", "The video resampler scales, converts and thins as configured",
   "Each output picture has the configured pixel format (RGB24 until set) and size (the source's where 0), shows the source picture scaled to it, carries its timestamps and sequence number, and has exactly the length its format and size imply; a picture too large for the output frame is not produced and nothing is written past the frame. With an output rate configured, pictures behind the current frame-time window are dropped. Invalid configurations are refused and change nothing; source size, format and configuration may change between any two frames.",
   ["inputs", "configurations", "histories"], "any source and output size, pixel formats, output rates and mid-stream changes",
   "the functional test runs one conversion and checks the size only",
   ["src/modules/videoResampler/VideoResampler.cpp", "src/modules/videoResampler/VideoResampler.hh"],
   [("scaler context rebuilt on change", "src/modules/videoResampler/VideoResampler.cpp")],
   ["VideoResampler outputs, configure"]),
 P("C13", "Shared-memory export publishes whole frames under its hand-off protocol",
   "The shared segment is written only while the reader has handed it over; what a reader finds after the writer signals is one complete picture or delimited H.264 access unit (each once, in order), with header fields (sequence, size, codec, pixel format, timestamp, length) that describe exactly those bytes. Frames pass through the filter unchanged, and frames that do not fit are neither signalled nor written outside the segment. A key already in use or an unsupported codec is refused.",
   ["inputs", "histories"], "any sequence of raw pictures or coded NAL units of any size, with the reader handing over at any time",
   "the unit test shares one frame per codec with an always-ready reader",
   ["src/modules/sharedMemory/SharedMemory.cpp", "src/modules/sharedMemory/SharedMemory.hh"],
   [("header sync byte", "src/modules/sharedMemory/SharedMemory.cpp"), ("access unit assembly", "src/modules/sharedMemory/SharedMemory.cpp")],
   ["the System V segment contents, filter output"]),
 P("C14", "DASH video segments contain exactly the encoded pictures, in time",
   "Concatenating the media segments generated for an H.264 or H.265 stream gives valid ISO-BMFF movie fragments whose samples are exactly the access units fed in, in order and length-prefixed, whose decode times and durations follow the input timestamps without gap or overlap across segments, and whose key-frame flags are right. Every segment starts with a key frame and is cut at the first key frame at which it has lasted the configured duration (a picture less is tolerated). Pictures that do not fit are refused, malformed NAL units are ignored, and a segmenter gives back all its memory.",
   ["inputs", "histories", "configurations"], "any sequence of NAL units, slicing, timestamps, frame types, segment duration and time base, including parameter-set changes and forced splits",
   "tests compare one or two recorded segments byte by byte",
   ["src/modules/dasher/DashVideoSegmenter.cpp", "src/modules/dasher/DashVideoSegmenterAVC.cpp", "src/modules/dasher/DashVideoSegmenterHEVC.cpp", "src/modules/dasher/i2libdash.c", "src/modules/dasher/i2libisoff.c"],
   [("sample table accumulation", "src/modules/dasher/i2libdash.c"), ("box writers", "src/modules/dasher/i2libisoff.c"), ("NAL parsing", "src/modules/dasher/DashVideoSegmenterAVC.cpp")],
   ["bytes of generated segments"]),
 P("C15", "DASH audio segments contain exactly the encoded audio frames, in time",
   "The audio media segments are valid movie fragments whose samples are exactly the AAC frames fed in without their ADTS headers, in order, with durations and decode times following the input timestamps without gap or overlap across segments; each segment but a flushed one lasts at least the configured duration.",
   ["inputs", "histories", "configurations"], "any sequence of AAC frames of legal sizes, timestamps, sample rates and segment durations",
   "tests compare one recorded segment byte by byte",
   ["src/modules/dasher/DashAudioSegmenter.cpp", "src/modules/dasher/i2libdash.c", "src/modules/dasher/i2libisoff.c"],
   [("ADTS header removal", "src/modules/dasher/DashAudioSegmenter.cpp"), ("audio sample table", "src/modules/dasher/i2libdash.c")],
   ["bytes of generated segments"]),
 P("C16", "DASH init segments describe the stream they belong to",
   "An initialisation segment is a valid movie header (every box well nested and of its declared size) that carries the stream's time scale, picture size or channel count and sample rate, and exactly the parameter sets last received or the audio configuration in the ADTS headers. A video one is produced once for every complete group of parameter sets that the stream carries (VPS, SPS and PPS for HEVC, SPS and PPS for AVC; an H264 SPS shorter than four bytes is ignored), and an audio one at least whenever the audio configuration has changed. (The profile fields the HEVC record hard-codes are not claimed.)",
   ["inputs", "configurations"], "any parameter-set contents, order and changes, picture sizes, audio configurations",
   "tests compare one recorded init segment per codec",
   ["src/modules/dasher/i2libisoff.c", "src/modules/dasher/i2libdash.c", "src/modules/dasher/DashVideoSegmenterAVC.cpp", "src/modules/dasher/DashVideoSegmenterHEVC.cpp", "src/modules/dasher/DashAudioSegmenter.cpp"],
   [("init box writers", "src/modules/dasher/i2libisoff.c"), ("codec configuration records", "src/modules/dasher/DashVideoSegmenterAVC.cpp")],
   ["bytes of generated init segments"]),
 P("C17", "The DASH manifest always reflects the current segment window",
   "After any history of updates, the manifest is well-formed and lists, per adaptation set, exactly the registered representations with the attributes last given and exactly the most recent segments' start times and durations, oldest first, never more than the configured window. Adding a timestamp returns exactly the start times that leave the window, so their files can be deleted.",
   ["histories", "inputs"], "every history of adaptation-set and representation updates, removals, timestamps and window changes",
   "tests make a few calls and look for one element",
   ["src/modules/dasher/MpdManager.cpp", "src/modules/dasher/MpdManager.hh"],
   [("adaptation-set timelines", "src/modules/dasher/MpdManager.cpp")],
   ["MpdManager::writeToDisk output, updateAdaptationSetTimestamp return value"]),
 P("C18", "The dasher's files and manifest stay consistent end to end",
   "At every moment each segment the published manifest names exists on disk as a complete file with its representation's content, together with the init segment; segments that left the window are deleted, and nothing outside the configured folder and base name is touched. Segments carry their stream's units in order without loss, start at the time the manifest gives, and every completed segment is published. Representations added or removed while running keep this true, except for the one segment during which an audio stream joins.",
   ["histories", "inputs", "configurations"], "every history of frames on several audio and video representations, window sizes, segment durations and representation changes",
   "tests configure the dasher and generate a single segment",
   ["src/modules/dasher/Dasher.cpp", "src/modules/dasher/Dasher.hh", "src/modules/dasher/MpdManager.cpp"],
   [("segment write, manifest update, file deletion", "src/modules/dasher/Dasher.cpp")],
   ["the output folder after every processed frame"]),
 P("C19", "Encoded video decodes to the input pictures with the input timing",
   "For every configuration the H.264 and H.265 encoders accept, the emitted stream is decodable by an independent decoder, from any key frame on, into the input pictures (up to coding loss, same size and pixel format), one per input and in order, each carrying the presentation time, sequence number and size of its input picture and a decode time that never decreases, never exceeds the presentation time and lies within the stream; parameter sets come with the key frames or beside the stream, key frames appear at least as often as configured and at every gop-time period, no more consecutive B pictures than configured are used, and a forced key frame is produced on request.",
   ["inputs", "configurations", "histories"], "any picture size and content, timestamps, and encoder configuration including changes while running",
   "the tests encode one file and count frames",
   ["src/modules/videoEncoder/VideoEncoderX264or5.cpp", "src/modules/videoEncoder/VideoEncoderX264.cpp", "src/modules/videoEncoder/VideoEncoderX265.cpp"],
   [("pts/dts bookkeeping through the encoder", "src/modules/videoEncoder/VideoEncoderX264or5.cpp")],
   ["slices on the encoder's output"]),
 P("C20", "Control messages parse to what they say, or are rejected cleanly",
   "Writing any JSON value, in any layout, and parsing it back gives an equal value; text written by hand with any legal whitespace, escapes and comments parses to what it says; truncated text, unbalanced brackets and bare words are refused with an error; parsing arbitrary bytes either yields a value or reports an error, without reading outside the text, crashing or hanging, and does not disturb what is parsed next.",
   ["inputs"], "any JSON document the library can represent, any byte string of bounded size, any reformatting",
   "no test exercises the JSON library",
   ["src/Jzon.cpp", "src/Jzon.h"],
   [("recursive-descent parser and writer", "src/Jzon.cpp")],
   ["Jzon::Parser, Jzon::Writer"]),
 P("C21", "Names and values of codecs, formats and roles convert consistently",
   "Converting any audio or video codec, sample format, filter type, filter role or transmission format to its name and back gives the same value, strings that are not such a name give the 'none' value, and distinct values (of pixel formats too) have distinct names. Names given by the demuxing library map to their codec or to none, bytes per sample agree with the sample format, and a stream description owns a copy of its codec data and reports its codec, rate and format.",
   ["inputs"], "every enumeration value, any string, every format and geometry",
   "tests try a few values",
   ["src/Utils.cpp", "src/Utils.hh", "src/Types.hh"],
   [("string tables", "src/Utils.cpp")],
   ["utils:: conversion functions"]),
 P("C22", "Picture size is recovered from any valid H.264 parameter set",
   "Parsing a sequence parameter set written with any legal combination of syntax elements gives back exactly those elements, and the stream sampler reports the picture size after cropping (for every chroma format, progressive or interlaced) and the frame rate, while passing the NAL units of each picture through unmodified; any byte string at all is handled without reading or writing outside its buffers.",
   ["inputs"], "any legal parameter-set syntax values, any byte string",
   "no test feeds the parser more than a recorded parameter set",
   ["src/modules/transmitter/SPSparser/h264_stream.c", "src/modules/transmitter/SPSparser/h264_stream.h", "src/modules/transmitter/SPSparser/bs.h", "src/modules/transmitter/H264VideoStreamSampler.cpp"],
   [("exp-Golomb bit reader", "src/modules/transmitter/SPSparser/bs.h"), ("SPS reader", "src/modules/transmitter/SPSparser/h264_stream.c")],
   ["nal_to_rbsp, read_seq_parameter_set_rbsp, H264VideoStreamSampler over a stand-in for live555"]),
 P("C23", "Pipeline control keeps filters and paths consistent",
   "After any history of create-filter, create-path, remove-path, remove-filter, stop and reconfiguration requests, valid or not, the pipeline holds exactly the filters and paths that successful requests imply: ids are unique, a filter in use by a path cannot be removed, removing a path frees its endpoints for reuse and removes those of its filters no other path uses, a refused request changes nothing, and stopping releases everything. Requests may arrive while the pipeline runs: frames go on flowing along every existing path, each exactly once, in order and unmodified, and nothing crashes or stalls.",
   ["histories", "inputs", "schedules"], "every history of pipeline requests over a small id space, including repeated, invalid and conflicting ones, while worker threads run",
   "the pipeline manager is not built by the existing tests",
   ["src/PipelineManager.cpp", "src/PipelineManager.hh", "src/Path.cpp", "src/Filter.cpp", "src/IOInterface.cpp"],
   [("filters and paths maps", "src/PipelineManager.cpp")],
   ["PipelineManager public methods and the state event, frames seen by tail filters"]),
 P("C24", "Audio and video frame buffers respect their declared geometry",
   "A frame buffer accepts any content within its declared maximum, reports length, sample count, planes and timestamps as set, and filling or silencing it touches exactly its own bytes, for every format, channel count and size.",
   ["inputs", "configurations"], "every sample and pixel format, channel count, rate and size",
   "tests construct a few default frames",
   ["src/AudioFrame.cpp", "src/VideoFrame.cpp", "src/Frame.cpp"],
   [("buffer allocation from format and geometry", "src/AudioFrame.cpp")],
   ["frame accessors, memory sanitizer"]),
 P("C25", "A running pipeline delivers every frame, in order, and stops cleanly",
   "With real worker threads, every frame produced by a head filter traverses any chain, merge, fan-out or shared connection of lossless filters to every tail exactly once, in order and unmodified, with no stall while there is work, and the pool can be stopped and the filters torn down at any moment without crash or corruption.",
   ["schedules", "configurations"], "random topologies, worker counts and thread schedules",
   "tests run one fixed topology for a moment",
   ["src/WorkersPool.cpp", "src/Filter.cpp", "src/IOInterface.cpp", "src/AVFramedQueue.cpp"],
   [("task wake-ups returned by filters", "src/Filter.cpp"), ("worker pool", "src/WorkersPool.cpp")],
   ["frames received by tail filters"]),
 P("C26", "The control protocol answers every request and does what it says",
   "Every request a client sends to the control socket gets exactly one well-formed JSON reply and its connection is closed; an accepted configuration message leaves the addressed filter reporting exactly the configured values and changes nothing else; a message that is malformed, incomplete, out of range or addressed to nothing changes nothing; and no bytes a client sends, nor a client that leaves early, end the process or leak a connection.",
   ["inputs", "histories", "fault_sequences"], "every sequence of requests, arbitrary bytes, vanishing clients",
   "the controller is not built by the existing tests",
   ["src/Controller.cpp", "src/PipelineManager.cpp", "src/Event.cpp", "src/Filter.cpp", "src/modules/videoMixer/VideoMixer.cpp", "src/modules/audioMixer/AudioMixer.cpp", "src/modules/videoSplitter/VideoSplitter.cpp", "src/modules/videoEncoder/VideoEncoderX264or5.cpp", "src/modules/dasher/Dasher.cpp"],
   [("request and reply handling", "src/Controller.cpp"), ("event to filter dispatch", "src/PipelineManager.cpp")],
   ["control socket replies and the reported filter states"]),
 P("C27", "Media crosses the border to RTP and back unchanged",
   "Frames handed to the sources that feed the RTP library come out once each, in order, with their bytes (without start code), presentation time and any truncation reported, whenever the reader asks, stops or comes back and however many sources lived before; parameter sets and AAC configurations announced are those in the stream; the filters and packetisers (start codes, ADTS, UltraGrid, MPEG-4 generic) change nothing but what their format asks for and their packets reassemble to the frame; received frames are stored in the pipeline complete, in order and with their time, from the moment a reader is connected; the parameter sets of a session description are put before the stream.",
   ["inputs", "histories"], "every order of frames, requests, stops and reconnections; every frame, buffer and packet size; every parameter set length",
   "no test compiles these modules (live555 is not installed)",
   ["src/modules/transmitter/QueueSource.cpp", "src/modules/transmitter/H264or5QueueSource.cpp", "src/modules/transmitter/H264or5StartCodeInjector.cpp", "src/modules/transmitter/ADTSStreamParser.cpp", "src/modules/transmitter/UltraGridVideoRTPSink.cpp", "src/modules/transmitter/UltraGridAudioRTPSink.cpp", "src/modules/transmitter/CustomMPEG4GenericRTPSink.cpp", "src/modules/receiver/QueueSink.cpp", "src/modules/receiver/H264VideoSdpParser.cpp"],
   [("frame hand-over to the RTP library", "src/modules/transmitter/QueueSource.cpp"), ("received frames into the queue", "src/modules/receiver/QueueSink.cpp"), ("UltraGrid packets", "src/modules/transmitter/UltraGridVideoRTPSink.cpp")],
   ["frames and packets on both sides of the adapters"]),
 P("C28", "Delay and loss statistics say what happened to the frames",
   "Sources stamp frames with the time they are made and number them per output; every filter passes the origin time and number of a frame on to what it makes of it. The delay a filter reports for an input is the mean of the delays from origin to release (by the last filter sharing the input) of the frames released since the previous mean, renewed by the first frame whose media time is a window later, 0 before that and -1 for an input that does not exist; the losses reported are exactly the frames its queue discarded, and a path reports its last input's delay and the sum of the losses on its inputs.",
   ["histories", "inputs", "configurations"], "every topology of sources, processing filters and sinks with separate and shared queues, every media time and clock history, queue capacity and averaging window",
   "tests do not look at the statistics",
   ["src/IOInterface.cpp", "src/IOInterface.hh", "src/Filter.cpp", "src/PipelineManager.cpp"],
   [("windowed delay average", "src/IOInterface.cpp"), ("stamping of outputs", "src/Filter.cpp"), ("path statistics", "src/PipelineManager.cpp")],
   ["BaseFilter::getAvgReaderDelay, getLostBlocs, getState answers"]),
]

NOT_APPLICABLE = [
 ("C30", "RTSP/RTP reception and transmission deliver the negotiated streams",
  "Media received over RTSP or RTP enters the pipeline complete and in order, and media transmitted can be received by a standard client as negotiated.",
  ["inputs", "fault_sequences"], "any peer behaviour and packet loss pattern", "needs network peers",
  ["src/modules/receiver/SourceManager.cpp", "src/modules/transmitter/SinkManager.cpp"],
  "the live555 library is not installed: its RTSP client and server, RTP sessions, sockets and jitter handling, which decide this property, cannot be compiled or run here, and a stand-in for them would decide nothing. What liveMediaStreamer itself does to the media on that border is C22 and C27"),
 ("C31", "libav-based decoding and audio encoding are faithful",
  "Compressed audio and video decode to the pictures and samples they encode, with their timing, and encoded audio decodes back to its input.",
  ["inputs", "configurations"], "any stream and configuration", "needs streams of each codec",
  ["src/modules/videoDecoder/VideoDecoderLibav.cpp", "src/modules/audioDecoder/AudioDecoderLibav.cpp", "src/modules/audioEncoder/AudioEncoderLibav.cpp", "src/modules/headDemuxer/HeadDemuxerLibav.cpp"],
  "these modules use FFmpeg APIs removed from the installed FFmpeg and are excluded from the offline build; they cannot be compiled, so generated inputs cannot be run against them"),
 ("C32", "Video capture devices are configured and read correctly",
  "A capture filter delivers each picture the device produces in the negotiated format, and reports device errors.",
  ["inputs", "fault_sequences"], "any device behaviour", "needs a device",
  ["src/modules/V4LCapture/V4LCapture.cpp"],
  "there is no V4L2 device (and /dev cannot be extended) in the sandbox or where checks run; the module talks to the kernel driver through ioctl directly"),
]
