// Stand-ins for the filters whose headers need live555 or an FFmpeg 2.x: the
// pipeline manager only needs their kind (source, one-to-one, sink).  Forced
// into PipelineManager.cpp in place of the real headers.
#ifndef VF_FAKEFILTERS_HH
#define VF_FAKEFILTERS_HH
#include <stdint.h>
#define _SOURCE_MANAGER_HH
#define _SINK_MANAGER_HH
#define _HEAD_DEMUXER_LIBAV_HH
#define _VIDEO_DECODER_LIBAV_HH
#define _AUDIO_DECODER_LIBAV_HH
#define _AUDIO_ENCODER_LIBAV_HH
#include "mockfilters.hh"
#include "AudioCircularBuffer.hh"
namespace fake {
// what a filter received, shared with the harness and outliving the filter
struct Rec { std::mutex m; std::map<int, std::vector<uint64_t>> got; std::atomic<uint64_t> bursts{0}; std::map<int, uint64_t> sent; std::atomic<bool> live{false}; std::atomic<int> alive{1}; std::atomic<int> inside{0}; };
extern std::vector<std::shared_ptr<Rec>> g_created;   // in creation order
extern bool g_realQueues;  // decoders hand out the queues real mixers and splitters accept
extern std::atomic<uint64_t> g_next; extern std::atomic<int> g_alive; extern std::atomic<int> g_work;
inline std::shared_ptr<Rec> born() { std::shared_ptr<Rec> r(new Rec()); g_created.push_back(r); g_alive++; return r; }
inline void spin() { for (volatile int i = 0; i < g_work; i++) {} }
inline uint64_t read(Frame *f) { spin(); return mock::idOf(f); }
template <class B> struct Source : public B { std::shared_ptr<Rec> r; Source(int w, FilterType t) : B(w), r(born()) { this->fType = t; std::shared_ptr<Rec> q = r;
    this->fn = [q](std::map<int, Frame *> &d, int &ret) { ret = 300; bool any = false; for (auto &p : d) { bool burst; { std::lock_guard<std::mutex> g(q->m); uint64_t &s = q->sent[p.first]; burst = s < q->bursts; if (burst) s++; } if (!burst && !q->live) continue; uint64_t id = g_next++; spin(); mock::put(p.second, id, (long)id); p.second->setConsumed(true); any = true; } return any; }; }
    ~Source() { r->alive = 0; g_alive--; } };
template <class B> struct Pass : public B { std::shared_ptr<Rec> r; Pass(FilterType t) : r(born()) { this->fType = t; this->fn = [](Frame *o, Frame *d) { uint64_t id = read(o); mock::put(d, id, (long)id); d->setConsumed(true); return true; }; } ~Pass() { r->alive = 0; g_alive--; } };
template <class B> struct Fan : public B { std::shared_ptr<Rec> r; Fan(int w, FilterType t) : B(w), r(born()) { this->fType = t; this->fn = [](Frame *o, std::map<int, Frame *> &ds) { uint64_t id = read(o); for (auto &d : ds) { mock::put(d.second, id, (long)id); d.second->setConsumed(true); } return true; }; } ~Fan() { r->alive = 0; g_alive--; } };
template <class B> struct Sink : public B { std::shared_ptr<Rec> r; Sink(int n, bool sync, FilterType t) : B(n, sync), r(born()) { this->fType = t; std::shared_ptr<Rec> q = r; this->fn = [q](std::map<int, Frame *> &o, std::vector<int> n, int &) { for (int id : n) { uint64_t v = read(o[id]); std::lock_guard<std::mutex> g(q->m); q->got[id].push_back(v); } return true; }; } ~Sink() { r->alive = 0; g_alive--; } };
}
struct SourceManager : public fake::Source<mock::Head> { SourceManager() : fake::Source<mock::Head>(3, RECEIVER) {} };
struct HeadDemuxerLibav : public fake::Source<mock::Head> { HeadDemuxerLibav() : fake::Source<mock::Head>(1, DEMUXER) {} };
struct SinkManager : public fake::Sink<mock::Tail> { SinkManager() : fake::Sink<mock::Tail>(4, false, TRANSMITTER) {} static SinkManager *createNew() { return new SinkManager(); } };
struct VideoDecoderLibav : public fake::Pass<mock::One> { VideoDecoderLibav() : fake::Pass<mock::One>(VIDEO_DECODER) { if (fake::g_realQueues) maker = [](ConnectionData cd) { static StreamInfo *si = NULL; if (!si) { si = new StreamInfo(VIDEO); si->video.codec = RAW; si->video.pixelFormat = RGB24; } return (FrameQueue *)VideoFrameQueue::createNew(cd, si, 4); }; } };
struct AudioDecoderLibav : public fake::Pass<mock::One> { AudioDecoderLibav() : fake::Pass<mock::One>(AUDIO_DECODER) { if (fake::g_realQueues) maker = [](ConnectionData cd) { return (FrameQueue *)AudioCircularBuffer::createNew(cd, 2, 48000, 4096, S16P); }; } };
struct AudioEncoderLibav : public fake::Pass<mock::One> { AudioEncoderLibav() : fake::Pass<mock::One>(AUDIO_ENCODER) {} };
struct FakeSplitter : public fake::Fan<mock::OneMany> { FakeSplitter(int w) : fake::Fan<mock::OneMany>(w, VIDEO_SPLITTER) {} };
struct SmallSink : public fake::Sink<mock::Tail> { SmallSink() : fake::Sink<mock::Tail>(1, true, TRANSMITTER) {} };
#endif
