O={
'C01':('a deque of (payload seed, length, pts, dts, origin time, sequence). Every return value, every field and every byte of what comes out is compared; counters of lost blocks and element counts are compared after each step. In the two-thread cases the consumer must see a subsequence-free (complete) ordered stream, with the producer retrying refused writes; with forced writes (and log lines that take any time to write) what is read must increase, intact, and read + lost = written.','Capacities 1..64; frame sizes up to some kB. SPSC use only, as the library does.'),
'C02':('a deque of slices: bytes, times, sequence, size, codec, in order; overflow rules and loss counters modelled. After an overflow what was queued must still come out in order. Two-thread cases as in C01.','`VideoFrame.cpp` is compiled without sanitizers for speed where only its huge allocations matter (C14, C16, C18, C26), not here.'),
'C03':('a sample-exact model stream: each written sample has a content computed from its index, silence where the model says a gap was filled, discarded where overlapping; each block read is compared sample by sample and its timestamp to the microsecond (rounding of one sample allowed).','Two-thread cases: contiguous input, the reader must get the exact stream. One long-run case starts past 2^32 samples.'),
'C04':('per-consumer expected sequence (frames published after it joined, until it left), the set of consumers still owing a release, and the wake-up the last release must return.','Threaded cases put the producer and every consumer on a thread; consumers leave at any moment.'),
'C05':('a graph model: links with two sides, the queue content of each, consumers of each shared reader and what each has outstanding; return values of every connect/disconnect, `isWConnected`/`isRConnected`, number of living queues, and the exact frames each consumer sees.','False alarm corrected: connecting a writer whose readers have all left now succeeds (our repair 338bb68, made for C23); the model first lacked that rule. It was the property ("both ends are free") that decided.'),
'C06':('a model of each role: which inputs are offered as new, consumed, dropped or kept by the frame-time window, output stamping, the multiset of filter ids a run returns and the wait it asks for. Virtual clock.',''),
'C07':('the harness holds every run of every task open at a gate and ends them in a generated order; a model of requests says which tasks must run again. Liveness is judged with a generous real-time limit (10 s) that quiet machines never approach.','Delays are real but short.'),
'C08':('a multimap of pending events by due time under the virtual clock; what ran, in what order, with which parameters (serialised) must match. Equal due times: any order.',''),
'C09':('an independent mixer: placement by timestamp in the mixing window, double-precision sums with tolerance 1e-4 below the limiter threshold, bound 1.0 above it (with the documented per-channel limiter order when it matters), solo/mute/gain rules, contiguity of output blocks.','A case beyond 2^32 samples runs first in the thorough tier.'),
'C10':('an independent composition with OpenCV primitives applied in the model (resize with the same interpolation, float blending with tolerance of 1-2 levels), layer and id order, crop; refused configurations change neither state nor picture.','Pictures up to some 100 pixels wide.'),
'C11':('an independent crop of the recorded source, byte by byte, plus fields of the output frame; outputs not possible must publish nothing.','Finding recorded: the declared length of the output is width*height, not *3 (existing unit test asserts it). All else about those frames is compared.'),
'C12':('a fresh libswscale conversion of the same picture with the same flags (differential), a table of picture lengths, flat grey pictures as an absolute anchor; the sanitizer and the checked frame length for overruns.','Contents compared only for sizes ≥ 16x4 and exactly for even sizes (libswscale itself is not deterministic between contexts below that).'),
'C13':('a model of the hand-off byte: when the filter may write, what the segment must contain when signalled (header fields and bytes), guard pages after the segment (a replaced shmat maps it in front of unreadable memory), unchanged pass-through. Threaded cases: a concurrent reader must only ever see whole frames, in order.',''),
'C14':('an independent MP4 parser (`harness/mp4.hh`): box nesting and sizes, sequence numbers, decode times, sample durations, sizes, flags, and the mdat compared byte by byte with the access units fed in; cutting rule; heap growth.','Composition offset constant per stream; cut tolerance of one picture (the dasher itself cuts at the first key frame seen).'),
'C15':('as C14 for AAC: sample sizes and bytes without ADTS header, durations, base decode time, cutting by duration or force, refusal when full.','Rates up to 48 kHz; a stream time base can be days long.'),
'C16':('an independent parser of moov/trak/avcC/hvcC/esds: dimensions, time scale, rates, channels, parameter sets bytes; each complete group of parameter sets gives exactly one init segment.','Finding recorded: avcC profile bytes are taken one byte early (existing golden-file test asserts it).'),
'C17':('a model of adaptation sets (window of start/duration pairs, representations with attributes), compared with the manifest re-parsed by an independent XML reader (`harness/xml.hh`) after each write; the returned list of deletable start times is exact.','maxWidth/maxHeight of a set are checked to be at least those of each representation (they are not lowered on removal).'),
'C18':('after every processed frame the output folder is scanned: each segment named by the manifest must exist, parse as a complete MP4 fragment with the start time the manifest gives and the bytes of the units fed in, init segments present, files out of the window gone, nothing else in the folder touched (marker files).','Limits: key frames aligned between video streams; streams join/leave at key frames with key distance = segment duration; files of a removed representation may remain; a segment is written in place (non-atomically), so "at every moment" is judged between processed frames.'),
'C19':('libavcodec decodes what comes out, with a decoder opened anew at every key frame (in-band parameter sets, or those announced beside the stream), and each decoded picture is compared plane by plane with the input its time names (mean difference < 14; different pictures differ by far more); a model says which inputs are encoded, which must be key frames, and how far apart key frames may be.','Sizes 16..112 (H.264) or 64..112 (H.265), even; bit rates high enough for the content; presets ultrafast..medium; timestamps increase. libx265 refuses lookahead ≤ B frames, 4:2:2 and negative B frame counts: modelled as not accepted. Pictures under way when the encoder is reopened are lost: recorded finding; how many may be lost is bounded by the configured delay.'),
'C20':('three oracles: round trip (any value through either format and a hand-written random layout with comments, escapes, exponents), rejection of generated truncations/unbalanced texts, and memory safety/termination plus parser reusability on arbitrary and mutated bytes (exact-size heap copies).','Not claimed: `\\u` escapes, missing separators, whitespace inside bare words; strings given as VT_STRING values.'),
'C21':('tables written independently in the harness (from the header enumerations), arbitrary strings, distinctness of names.','Pixel formats: only distinct names (the reverse function uses V4L names on purpose).'),
'C22':('an SPS writer (independent exp-Golomb encoder with emulation prevention, all profile-dependent syntax, VUI, HRD, scaling lists) whose elements must be read back exactly; the size formula of the standard; the sampler over the live555 stand-in must deliver each NAL unit unmodified; arbitrary bytes in exact-size heap buffers for memory safety.','Not claimed: presentation time taken from the delimiter, separate storage of the two HRD blocks, fallback rule of absent scaling lists.'),
'C23':('a model of filters and paths (what each request must answer and what getState must list), and content-tagged frames flowing while requests arrive: at each tail of each path exactly-once, in order, unmodified. Teardown must release all fakes and queues.','Mids are one-to-one filters; ring topologies skipped; sendEvent’s unsynchronised map access and two-sided simultaneous disconnects are not claimed. Reverting f32057d and 4d43082 was not detected (windows of a few instructions).'),
'C24':('several frames side by side, each with a model of every accessor and a byte model of its whole buffer; after each operation all of them are compared, so a write that leaks into another frame or outside what it should touch shows; maximum sizes from independent tables; sanitizers for the rest.','Frame sizes ≥ bits per pixel for planar formats, exact for packed ones.'),
'C25':('every head numbers and tags its frames; every tail must receive each frame of each route exactly once, in order, unmodified, within a generous time limit; stopping at any moment must end all workers, and everything is freed.','Frames under way are bounded per route so that no queue overflows (overflow is C01’s subject). A false alarm was corrected here: the bound was kept over all routes together, so one slow route could overflow.'),
'C26':('a client over real loopback sockets: each request gets exactly one well-formed reply and EOF; a model of each filter’s reported state says what an accepted event leaves behind and that a refused one changes nothing; descriptors are counted; raw bytes, partial requests, early leavers.','Requests up to 16 kB in one read (the controller reads once); a silent client blocks the others by design; sharedMemory and V4L filters excluded.'),
'C27':('live555 is not installed: a stand-in for the few classes these modules use (`harness/live555/`: sources, sinks, the scheduler with its 32 event triggers, the packet buffer of MultiFramedRTPSink) runs the real adapters. Models: what each source must hand over on each request, the parameter sets of generated extradata, the ADTS header fields; packets must reassemble byte by byte to the frame, with offset, length, rate, size, marker and time as the format says.','The stand-in follows live555 as documented, it is not live555; buffers of readers ≥ 5 bytes; even packet sizes for 16-bit audio; a frame that arrives between connecting and the first run may be lost; the MPEG-4 sink passes whole ADTS frames on (what a receiver makes of that is not claimed); frame bodies contain no start codes.'),
'C28':('the harness owns the clock (a replaced clock_gettime) and steps the filters one by one; a model of each queue (frames, capacity, who has released what) and of the windowed mean gives, after every step, the delay and loss figures of every input, and the origin time and number each filter must see. A share of the cases runs paths under the real manager and workers in real time: once everything has come to rest, frames made = frames delivered + losses reported for every input, and getState must add them up over each path.','The window rule (a mean is renewed by the first frame whose media time is a window on; frames with the same media time as the one before are not counted) is the one the code documents by doing it; trees only. Building this check found the queue race repaired by 456a5c4 (C01, C02).'),
}
CAUGHT={}
