// Filters and queues used by the graph harnesses: real base classes, recording processing steps.
#ifndef VF_MOCKFILTERS_HH
#define VF_MOCKFILTERS_HH
#include "common.hh"
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include <atomic>
#include <memory>
namespace mock {
extern std::atomic<int> g_queues;
extern const StreamInfo g_si;
struct Q : public AudioFrameQueue {
    Q(ConnectionData cd, unsigned n) : AudioFrameQueue(cd, &g_si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(1, 8000, 20, PCM, U8); g_queues++; }
    ~Q() { g_queues--; }
};
inline void put(Frame *f, uint64_t id, long pts) { f->setPresentationTime(us(pts)); f->setDecodeTime(NO_DTS); f->setLength(8); memcpy(f->getDataBuf(), &id, 8); }
inline uint64_t idOf(Frame *f) { uint64_t v; if (!f || f->getLength() != 8) return UINT64_MAX; memcpy(&v, f->getDataBuf(), 8); return v; }

// per-filter behaviour shared by all roles
struct Common {
    unsigned cap = 64; bool refuseReader = false, refuseWriter = false, failAlloc = false;
    std::multiset<int> rConf, wConf;      // ids currently configured
    std::vector<std::string> events;
    bool rc(int id) { if (refuseReader) return false; rConf.insert(id); return true; }
    bool rd(int id) { auto i = rConf.find(id); if (i != rConf.end()) rConf.erase(i); return true; }
    bool wc(int id) { if (refuseWriter) return false; wConf.insert(id); return true; }
    bool wd(int id) { auto i = wConf.find(id); if (i != wConf.end()) wConf.erase(i); return true; }
    std::function<FrameQueue *(ConnectionData)> maker;
    FrameQueue *alloc(ConnectionData cd) { return failAlloc ? NULL : maker ? maker(cd) : new Q(cd, cap); }
};
#define VF_MOCK_COMMON \
    void addEvent(const std::string &n, std::function<bool(Jzon::Node *)> f) { eventMap[n] = f; } \
    protected: \
    void doGetState(Jzon::Object &) {} \
    bool specificReaderConfig(int id, FrameQueue *) { return rc(id); } \
    bool specificReaderDelete(int id) { return rd(id); } \
    bool specificWriterConfig(int id) { return wc(id); } \
    bool specificWriterDelete(int id) { return wd(id); } \
    public:
#define VF_MOCK_ALLOC private: FrameQueue *allocQueue(ConnectionData cd) { return alloc(cd); } public:

struct Head : public HeadFilter, public Common {
    std::function<bool(std::map<int, Frame *> &, int &)> fn;
    Head(unsigned w, FilterRole r = REGULAR, bool p = true) : HeadFilter(w, r, p) { fType = RECEIVER; }
    VF_MOCK_COMMON VF_MOCK_ALLOC
    bool doProcessFrame(std::map<int, Frame *> &d, int &ret) { return fn ? fn(d, ret) : false; }
};
struct Tail : public TailFilter, public Common {
    std::function<bool(std::map<int, Frame *> &, std::vector<int>, int &)> fn;
    Tail(unsigned r, bool sync, FilterRole ro = REGULAR, bool p = false) : TailFilter(r, ro, p) { setSync(sync); fType = TRANSMITTER; }
    VF_MOCK_COMMON
    bool doProcessFrame(std::map<int, Frame *> &o, std::vector<int> n, int &ret) { return fn ? fn(o, n, ret) : false; }
};
struct One : public OneToOneFilter, public Common {
    std::function<bool(Frame *, Frame *)> fn;
    One(FilterRole r = REGULAR, bool p = false) : OneToOneFilter(r, p) { fType = VIDEO_RESAMPLER; }
    VF_MOCK_COMMON VF_MOCK_ALLOC
    bool doProcessFrame(Frame *o, Frame *d) { return fn ? fn(o, d) : false; }
};
struct OneMany : public OneToManyFilter, public Common {
    std::function<bool(Frame *, std::map<int, Frame *> &)> fn;
    OneMany(unsigned w, FilterRole r = REGULAR, bool p = false) : OneToManyFilter(w, r, p) { fType = VIDEO_SPLITTER; }
    VF_MOCK_COMMON VF_MOCK_ALLOC
    bool doProcessFrame(Frame *o, std::map<int, Frame *> &d) { return fn ? fn(o, d) : false; }
};
struct ManyOne : public ManyToOneFilter, public Common {
    std::function<bool(std::map<int, Frame *> &, Frame *, std::vector<int>)> fn;
    ManyOne(unsigned r, bool sync = false, FilterRole ro = REGULAR, bool p = false) : ManyToOneFilter(r, ro, p) { setSync(sync); fType = AUDIO_MIXER; }
    VF_MOCK_COMMON VF_MOCK_ALLOC
    bool doProcessFrame(std::map<int, Frame *> &o, Frame *d, std::vector<int> n) { return fn ? fn(o, d, n) : false; }
};
} // namespace mock
#ifdef VF_MOCK_DEFINE
namespace mock { std::atomic<int> g_queues(0); static StreamInfo mkSi() { StreamInfo s(AUDIO); s.audio.codec = PCM; s.audio.sampleFormat = U8; s.audio.channels = 1; s.audio.sampleRate = 8000; return s; } const StreamInfo g_si = mkSi(); }
#endif
#endif
