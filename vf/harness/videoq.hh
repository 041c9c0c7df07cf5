// Small raw-picture queues and end filters for the picture-processing harnesses.
#ifndef VF_VIDEOQ_HH
#define VF_VIDEOQ_HH
#include "mockfilters.hh"
#include "VideoFrame.hh"
namespace vid {
inline StreamInfo mk(PixType f) { StreamInfo s(VIDEO); s.video.codec = RAW; s.video.pixelFormat = f; return s; }
inline const StreamInfo *info(PixType f) { static std::map<int, StreamInfo *> m; if (!m.count(f)) m[f] = new StreamInfo(mk(f)); return m[f]; }
struct VQ : public VideoFrameQueue {
    VQ(ConnectionData cd, PixType f, int w, int h, unsigned n) : VideoFrameQueue(cd, info(f), n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, w, h, f); }
};
#define VF_VID_COMMON \
    void doGetState(Jzon::Object &) {} bool specificReaderConfig(int, FrameQueue *) { return true; } bool specificReaderDelete(int) { return true; } \
    bool specificWriterConfig(int) { return true; } bool specificWriterDelete(int) { return true; }
struct Src : public HeadFilter {
    std::function<bool(VideoFrame *)> fn; PixType fmt; int w, h; unsigned n;
    Src(PixType f, int w_, int h_, unsigned n_ = 8) : HeadFilter(1, REGULAR, true), fmt(f), w(w_), h(h_), n(n_) { fType = RECEIVER; }
    FrameQueue *allocQueue(ConnectionData cd) { return new VQ(cd, fmt, w, h, n); }
    bool doProcessFrame(std::map<int, Frame *> &d, int &) { if (d.empty()) return false; bool r = fn(dynamic_cast<VideoFrame *>(d.begin()->second)); d.begin()->second->setConsumed(r); return r; }
    VF_VID_COMMON
};
struct Pic { int w = 0, h = 0; long pts = 0, dts = 0; size_t seq = 0; unsigned len = 0; PixType fmt = P_NONE; std::vector<unsigned char> d; std::chrono::system_clock::time_point org; };
inline Pic grab(Frame *f, size_t bytes) { VideoFrame *v = dynamic_cast<VideoFrame *>(f); Pic p; p.w = v->getWidth(); p.h = v->getHeight(); p.pts = v->getPresentationTime().count(); p.dts = v->getDecodeTime().count(); p.seq = v->getSequenceNumber(); p.len = v->getLength(); p.fmt = v->getPixelFormat(); p.org = v->getOriginTime();
    if (bytes == (size_t)-1) bytes = p.len; if (bytes > v->getMaxLength()) bytes = v->getMaxLength(); p.d.assign(v->getDataBuf(), v->getDataBuf() + bytes); return p; }
}
#endif
