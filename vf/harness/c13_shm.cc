// C13: the real shared-memory filter between a source and a sink, with a reader of the segment; the segment is attached with guard pages after it.
#define VF_MOCK_DEFINE
#include "videoq.hh"
#include "modules/sharedMemory/SharedMemory.hh"
#include <sys/syscall.h>
#include <thread>
using namespace pbt;
const char *pbt::RULE = "sequences of raw pictures (any size around and beyond the segment's) or H.264 access units (0..6 NAL units of every type after a delimiter, both start codes, malformed ones in between), with the reader "
    "handing the segment over at any time, or from a thread of its own. Non-trivial: at least two frames were published and at least one could not be, or a concurrent reader took at least three";
static const size_t SEG = SHMSIZE, HDR = HEADER_SIZE;
// shmat into a reserved area: anything written past the segment's last page faults
extern "C" void *shmat(int id, const void *addr, int flg) throw() {
    if (addr) return (void *)syscall(SYS_shmat, id, addr, flg);
    struct shmid_ds ds; if (shmctl(id, IPC_STAT, &ds)) return (void *)-1;
    size_t n = (ds.shm_segsz + 4095) & ~4095ul; char *a = (char *)mmap(NULL, n + (16 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) return (void *)-1;
    void *p = (void *)syscall(SYS_shmat, id, a, flg | SHM_REMAP); if (p == (void *)-1) munmap(a, n + (16 << 20)); return p;
}
void pbt::setup() { quietLog(); }
namespace {
struct BQ : public VideoFrameQueue { BQ(ConnectionData cd, const StreamInfo *si, unsigned n, VCodecType c, unsigned maxLen) : VideoFrameQueue(cd, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(c, maxLen); } };
StreamInfo *si(VCodecType c) { static StreamInfo *r = NULL, *h = NULL; if (!r) { r = new StreamInfo(VIDEO); r->video.codec = RAW; r->video.pixelFormat = RGB24; h = new StreamInfo(VIDEO); h->video.codec = H264; h->video.h264or5.annexb = true; } return c == RAW ? r : h; }
struct Shm : public SharedMemory { unsigned maxLen; VCodecType c; Shm(size_t k, VCodecType c_, unsigned m) : SharedMemory(k, c_), maxLen(m), c(c_) {} bool ok() { return isEnabled(); } FrameQueue *allocQueue(ConnectionData cd) { return new BQ(cd, si(c), 2, c, maxLen); } };
struct Hd : public OneToOneFilter { VCodecType c; unsigned maxLen; std::function<void(VideoFrame *)> fn; Hd(VCodecType c_, unsigned m) : OneToOneFilter(), c(c_), maxLen(m) { fType = VIDEO_ENCODER; } FrameQueue *allocQueue(ConnectionData cd) { return new BQ(cd, si(c), 2, c, maxLen); }
    bool doProcessFrame(Frame *, Frame *d) { fn(dynamic_cast<VideoFrame *>(d)); d->setConsumed(true); return true; } VF_VID_COMMON };
struct Hdr { uint16_t seq, pix, codec, h, w; uint32_t sec, usec, len; };
Hdr rd(const unsigned char *s) { Hdr h; memcpy(&h.seq, s + 2, 2); memcpy(&h.pix, s + 4, 2); memcpy(&h.codec, s + 6, 2); memcpy(&h.h, s + 8, 2); memcpy(&h.w, s + 10, 2); memcpy(&h.sec, s + 12, 4); memcpy(&h.usec, s + 16, 4); memcpy(&h.len, s + 20, 4); return h; }
const PixType FM[] = {RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P};
struct Au { size_t seq, seqEnd; long pts; int w, h; std::vector<unsigned char> d; size_t idx; };
struct Seg { int id; unsigned char *p; Seg(int i) : id(i) { p = (unsigned char *)syscall(SYS_shmat, id, NULL, 0); PBT_CHECK(p != (void *)-1, "the segment %d cannot be attached", id); shmctl(id, IPC_RMID, 0); } ~Seg() { shmdt(p); } };
struct Keeper { int id = -1; ~Keeper() { if (id >= 0) shmctl(id, IPC_RMID, 0); } };
}
void pbt::property(Gen &g) {
    static unsigned nth = 0; size_t key = 0x10000000u + ((size_t)(getpid() & 0xfffff) << 7) + (nth++ & 127);
    bool raw = g.chance(50); bool big = g.chance(raw ? 6 : 4); unsigned maxLen = big ? 9000000 : raw ? 20000 : 3000; bool conc = g.chance(8) && !big;
    if (g.chance(5)) { VCodecType bad = g.pick({VC_NONE, H265, VP8, MJPEG}); PBT_CHECK(!SharedMemory::createNew(key, bad), "codec %d was accepted", bad); }
    Shm sh(key, raw ? RAW : H264, maxLen * (raw ? 1 : 1)); PBT_CHECK(sh.ok(), "segment for key %zu refused", key); sh.setId(100);
    { SharedMemory *dup = SharedMemory::createNew(key, raw ? RAW : H264); PBT_CHECK(!dup, "the key of an existing segment was accepted"); }
    Seg seg(sh.getSharedMemoryID()); volatile unsigned char *sync = seg.p;
    { struct shmid_ds ds; PBT_CHECK(!shmctl(seg.id, IPC_STAT, &ds) && ds.shm_segsz == SEG, "segment size"); PBT_CHECK(*sync == '0', "a new segment is not in the writer's hands"); }
    { Jzon::Object st; sh.getState(st); PBT_CHECK(st.Get("memoryId").ToInt() == seg.id && st.Get("key").ToInt() == (int)key && st.Get("codec").ToString() == utils::getVideoCodecAsString(raw ? RAW : H264), "state"); }
    Hd head(raw ? RAW : H264, maxLen); head.setId(1); mock::Head tick(1); tick.setId(3); long tk = 0; tick.fn = [&](std::map<int, Frame *> &d, int &) { d.begin()->second->setPresentationTime(us(++tk)); d.begin()->second->setConsumed(true); return true; }; mock::Tail tail(1, false); tail.setId(2); std::vector<vid::Pic> got; tail.fn = [&](std::map<int, Frame *> &f, std::vector<int> n, int &) { for (int k : n) got.push_back(vid::grab(f[k], -1)); return true; };
    PBT_CHECK(tick.connectOneToOne(&head) && head.connectOneToOne(&sh) && sh.connectOneToOne(&tail), "connection refused");
    int pubs = 0, blocked = 0; int r; size_t fed = 0; std::vector<unsigned char> before;
    auto feed = [&](const std::vector<unsigned char> &d, int w, int h, PixType pf, long pts, size_t sq) {
        head.fn = [&](VideoFrame *f) { if (!d.empty()) memcpy(f->getDataBuf(), &d[0], d.size()); f->setLength((unsigned)d.size()); f->setSize(w, h); f->setPixelFormat(pf); f->setPresentationTime(us(pts)); f->setDecodeTime(us(pts + 7)); f->setSequenceNumber(sq); f->setOriginTime(std::chrono::system_clock::time_point(us(pts + 13))); };
        tick.processFrame(r); head.processFrame(r); got.clear(); before.assign(seg.p, seg.p + HDR + (big ? 4096 : maxLen + 256));
        sh.processFrame(r); for (int q = 0; q < 2; q++) tail.processFrame(r);
        PBT_CHECK(got.size() == 1, "%zu frames passed through for one", got.size()); vid::Pic &p = got[0];
        PBT_CHECK(p.d == d && p.w == w && p.h == h && p.fmt == pf && p.pts == pts && p.dts == pts + 7 && p.seq == sq && p.org == std::chrono::system_clock::time_point(us(pts + 13)), "frame %zu was changed passing through", fed); fed++;
    };
    auto unchanged = [&](const char *why) { PBT_CHECK(!memcmp(&before[0], seg.p, before.size()), "the segment was written although %s", why); };
    auto slack = [&]() { for (size_t i = SEG; i < ((SEG + 4095) & ~4095ul); i++) PBT_CHECK(!seg.p[i], "byte %zu after the segment was written", i - SEG); };
    long pts = (long)g.range(0, 5000000) * (g.chance(20) ? 1000 : 1);
    if (conc && raw) {
        // a reader in a thread of its own: pictures whose every byte follows from the sequence number
        int n = (int)g.range(10, 80); std::atomic<bool> stop(false); std::string err; int taken = 0; long last = -1; int pause = (int)g.range(0, 40);
        std::thread rt([&]() { while (!stop) { if (*sync != '1') { std::this_thread::yield(); continue; } std::atomic_thread_fence(std::memory_order_acquire); Hdr h = rd(seg.p); if (h.len != 100u + h.seq * 37u % 9000u) err = fmt("picture #%u declares %u bytes", h.seq, h.len); for (unsigned i = 0; i < h.len && i < 20000; i++) if (seg.p[HDR + i] != (unsigned char)(h.seq * 31 + i)) { err = fmt("picture #%u: byte %u of %u is of another picture", h.seq, i, h.len); break; } if ((long)h.seq <= last) err = fmt("picture #%u after #%ld", h.seq, last); last = h.seq; taken++; if (!err.empty()) { stop = true; return; } for (volatile int z = 0; z < pause * 50; z++); std::atomic_thread_fence(std::memory_order_release); *sync = '0'; } });
        for (int i = 0; i < n && !stop; i++) { unsigned len = 100u + (unsigned)(i % 65536) * 37u % 9000u; head.fn = [&](VideoFrame *f) { for (unsigned k = 0; k < len; k++) f->getDataBuf()[k] = (unsigned char)(i * 31 + k); f->setLength(len); f->setSize(10, 10); f->setPixelFormat(RGB24); f->setPresentationTime(us(i)); f->setSequenceNumber(i); }; tick.processFrame(r); head.processFrame(r); sh.processFrame(r); tail.processFrame(r); if (i % 3 == 0) std::this_thread::yield(); }
        double t0 = now(); while (*sync == '1' && !stop && now() - t0 < 5) std::this_thread::yield(); stop = true; rt.join(); PBT_CHECK(err.empty(), "%s", err.c_str()); PBT_CHECK(taken >= 1, "nothing was published to a willing reader"); g.log() << "reader thread took " << taken << " of " << n; g.label("reader thread"); if (taken >= 3) g.nontrivial(); return;
    }
    size_t seq0 = g.chance(20) ? 65536 * (size_t)g.range(1, 3) - (size_t)g.range(0, 10) : (size_t)g.range(0, 3); bool perNal = g.chance(30); int ops = big ? (int)g.range(2, 8) : (int)g.range(4, 60); g.log() << (raw ? "raw" : "h264") << (big ? " big:" : ":");
    if (raw) {
        for (int k = 0; k < ops; k++) {
            if (*sync == '1' && g.chance(45)) { *sync = '0'; g.log() << " handover"; }
            size_t len = big ? (g.chance(60) ? SEG - HDR + (size_t)g.range(0, 12) - 6 : g.chance(50) ? 8294400 : (size_t)g.range(1, maxLen)) : (size_t)g.edge(0, maxLen); int w = (int)g.edge(1, 3000), h = (int)g.edge(1, 3000); PixType pf = FM[g.range(0, 6)]; pts += (long)g.range(0, 3000000); std::vector<unsigned char> d = g.bytes(len);
            bool writable = *sync == '0', fits = len <= SEG - HDR; g.log() << " " << len; size_t sq = seq0 + fed; feed(d, w, h, pf, pts, sq); slack();
            if (!writable) { unchanged("the reader had not handed it over"); blocked++; continue; }
            if (!fits) { PBT_CHECK(*sync == '0', "a picture of %zu bytes, more than the segment holds, was signalled", len); blocked++; continue; }
            PBT_CHECK(*sync == '1', "a picture was not signalled to the reader"); Hdr hd = rd(seg.p);
            PBT_CHECK(hd.seq == (uint16_t)sq && hd.pix == (uint16_t)(pf == RGB24 ? 1 : pf == RGB32 ? 2 : pf == YUV420P ? 3 : pf == YUV422P ? 4 : pf == YUV444P ? 5 : pf == YUYV422 ? 6 : 7) && hd.codec == 4 && hd.w == w && hd.h == h, "header #%u format %u codec %u %ux%u for #%zu %dx%d format %d", hd.seq, hd.pix, hd.codec, hd.w, hd.h, sq, w, h, pf);
            PBT_CHECK(hd.sec == (uint32_t)(pts / 1000000) && hd.usec == (uint32_t)(pts % 1000000), "header time %u.%06u for %ld", hd.sec, hd.usec, pts); PBT_CHECK(hd.len == len, "header length %u for %zu bytes", hd.len, len);
            PBT_CHECK(!len || !memcmp(seg.p + HDR, &d[0], len), "the published bytes are not the picture's"); pubs++;
        }
    } else {
        std::vector<Au> done; Au cur; bool have = false; size_t published = 0; bool sawHand = false; (void)sawHand; int w = 100, h = 50;
        auto taken = [&](bool writable) { // after each NAL unit
            slack(); if (!writable) { unchanged("the reader had not handed it over"); return; } if (*sync == '0') return; PBT_CHECK(*sync == '1', "sync byte %d", *sync);
            PBT_CHECK(!done.empty() && done.back().idx >= published, "an access unit was published %s", done.empty() ? "before one was complete" : "twice"); Au &a = done.back(); Hdr hd = rd(seg.p); published = a.idx + 1; pubs++;
            PBT_CHECK(a.d.size() <= SEG - HDR, "an access unit of %zu bytes, more than the segment holds, was signalled", a.d.size());
            PBT_CHECK(hd.len == a.d.size() && !memcmp(seg.p + HDR, &a.d[0], a.d.size()), "the published %u bytes are not the last complete access unit's %zu", hd.len, a.d.size());
            PBT_CHECK(hd.codec == 1 && hd.w == a.w && hd.h == a.h, "header codec %u %ux%u for %dx%d", hd.codec, hd.w, hd.h, a.w, a.h);
            PBT_CHECK(hd.sec == (uint32_t)(a.pts / 1000000) && hd.usec == (uint32_t)(a.pts % 1000000), "header time %u.%06u, the published access unit's is %ld", hd.sec, hd.usec, a.pts);
            bool okSeq = false; for (size_t q = a.seq; q <= a.seqEnd; q++) okSeq |= hd.seq == (uint16_t)q; PBT_CHECK(okSeq, "header sequence number %u, the published access unit's is %zu", hd.seq, a.seq);
        };
        size_t idx = 0; bool aborted = false;
        for (int k = 0; k < ops && !aborted; k++) {
            // one access unit: delimiter, then NAL units; the sequence number is the first NAL unit's or the last's
            int nn = (int)g.range(0, 6); pts += (long)g.range(1, 100000); Au a; a.pts = pts; a.w = w; a.h = h; bool progress = false; bool first = true; bool free0 = false; std::vector<std::pair<size_t, size_t>> seqs; size_t firstSeq = fed;
            if (g.chance(10)) { w = (int)g.range(1, 2000); h = (int)g.range(1, 2000); a.w = w; a.h = h; }
            for (int j = -1; j < nn; j++) {
                if (*sync == '1' && g.chance(20)) { *sync = '0'; g.log() << " handover"; }
                int type = j < 0 ? 9 : (int)g.pick({7, 8, 6, 5, 1, 1, 1, 1, 2, 12, 14}); bool shrt = g.chance(40); size_t n = j < 0 ? 2 : big && g.chance(40) ? (size_t)g.range(2000000, 8000000) : (size_t)g.edge(1, 2900);
                std::vector<unsigned char> d; if (!shrt) d.push_back(0); d.push_back(0); d.push_back(0); d.push_back(1); size_t off = d.size(); std::vector<unsigned char> pl = g.bytes(n); pl[0] = (unsigned char)((pl[0] & 0x60) | type); d.insert(d.end(), pl.begin(), pl.end());
                bool malformed = j >= 0 && g.chance(4); if (malformed) { if (g.chance(60)) d.resize((size_t)g.range(0, (int64_t)off)); else { d[off - 1] = 2; } }
                bool writable = *sync == '0'; if (j < 0) { free0 = writable; if (have && !cur.d.empty()) { done.push_back(cur); if (done.size() > 2) done.erase(done.begin()); } g.log() << " |"; } else if (!writable) free0 = false;
                g.log() << fmt(" %s%d:%zu", malformed ? "!" : "", type, d.size());
                size_t s = seq0 + (perNal ? fed : idx + 1); a.seqEnd = s; if (j < 0) a.seq = s; feed(d, w, h, RGB24, pts, s); bool real = !malformed && (type == 7 || type == 8 || type == 6 || type == 5 || type == 1);
                if (real) { static const unsigned char sc[4] = {0, 0, 0, 1}; a.d.insert(a.d.end(), sc, sc + 4); a.d.insert(a.d.end(), pl.begin(), pl.end()); }
                taken(writable);
                if (real && first) { first = false; if (free0 && !done.empty() && done.back().idx >= published && done.back().idx + 1 == idx && done.back().d.size() <= SEG - HDR) PBT_CHECK(*sync == '1', "the complete access unit was not published to a waiting reader"); progress = true; if (!free0) blocked++; }
            }
            (void)progress; (void)firstSeq; a.idx = idx++; cur = a; have = true;
            if (a.d.empty()) { // nothing but a delimiter: the previous access unit stays the last complete one
                have = false; }
        }
    }
    if (pubs >= 2 && blocked >= 1) g.nontrivial();
}
