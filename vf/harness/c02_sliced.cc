// C02: sliced (H.264/H.265) video queue against a deque-of-slices model.
#include "common.hh"
#include "SlicedVideoFrameQueue.hh"
#include <deque>
#include <memory>
#include <thread>
#include <atomic>
using namespace pbt;
const char *pbt::RULE = "histories of access units (0..20 slices each, sizes 0..maximum, own timestamps and picture size) written to a sliced queue "
    "of generated capacity and slice limit, mixed with reads and forced writes, against a deque of slices; 2 % of the cases read and write in two threads. Non-trivial: some access unit had at "
    "least 3 slices and the queue both wrapped and overflowed";
void pbt::setup() { quietLog(); }
namespace {
struct S { std::vector<unsigned char> b; long pts, dts; size_t seq; int w, h; long org; };
std::string cmp(Frame *f, const S &s, VCodecType codec) {
    VideoFrame *v = dynamic_cast<VideoFrame *>(f);
    if (!v) return "not a video frame";
    if (f->getLength() != s.b.size()) return fmt("length %u, slice has %zu", f->getLength(), s.b.size());
    if (s.b.size() && memcmp(f->getDataBuf(), &s.b[0], s.b.size())) return "slice bytes differ";
    if (f->getPresentationTime().count() != s.pts) return fmt("pts %ld expected %ld", (long)f->getPresentationTime().count(), s.pts);
    if (f->getDecodeTime().count() != s.dts) return "decode time differs";
    if (f->getSequenceNumber() != s.seq) return fmt("sequence %zu expected %zu", f->getSequenceNumber(), s.seq);
    if (f->getOriginTime() != std::chrono::system_clock::time_point(us(s.org))) return "origin time differs";
    if (v->getWidth() != s.w || v->getHeight() != s.h) return fmt("size %dx%d expected %dx%d", v->getWidth(), v->getHeight(), s.w, s.h);
    if (v->getCodec() != codec) return "codec differs";
    return "";
}
// one thread reads slices as fast as it can, the other never waits for room; writing the log takes a while
void forced(Gen &g, SlicedVideoFrameQueue *q) {
    unsigned max = q->getMaxFrames(), total = (unsigned)g.range(100, 700); int slow = (int)g.edge(0, 300), hold = (int)g.edge(0, 40), burst = (int)g.edge(1, 40), pause = (int)g.edge(0, 300), per = (int)g.range(1, MAX_SLICES);
    g.label("threads, forced writes"); g.log() << "threads, cap=" << max << " units=" << total << " of up to " << per << " slices, log takes " << slow << "us, reader holds " << hold << "us, writer pauses " << pause << "us every " << burst;
    auto spin = [](int u) { if (!u) return; double t = now() + u * 1e-6; while (now() < t) {} };
    std::atomic<bool> done(false), stop(false); std::string err; uint64_t last = 0, got = 0, made = 0; LogHook hook([&] { spin(slow); });
    std::thread r([&] {
        for (;;) {
            bool over = done; std::atomic_thread_fence(std::memory_order_seq_cst); Frame *f = q->getFront(); if (!f) { if (over || stop) return; std::this_thread::yield(); continue; } std::atomic_thread_fence(std::memory_order_seq_cst);
            spin(hold); uint64_t id = 0; if (f->getLength() != 16) { err = fmt("a slice of %u bytes after slice %llu", f->getLength(), (unsigned long long)last); stop = true; return; } memcpy(&id, f->getDataBuf(), 8); uint64_t w = 0; memcpy(&w, f->getDataBuf() + 8, 8);
            if (id <= last || w != id * 31 + 7) { err = fmt("slice %llu came after slice %llu", (unsigned long long)id, (unsigned long long)last); stop = true; return; } if (f->getSequenceNumber() != id / 100 || f->getPresentationTime().count() != (long)(id / 100 * 40)) { err = fmt("slice %llu does not carry the times of its access unit", (unsigned long long)id); stop = true; return; }
            last = id; got++; std::atomic_thread_fence(std::memory_order_seq_cst); q->removeFrame();
        }
    });
    for (uint64_t u = 1; u <= total && !stop; u++) {
        Frame *f = q->getRear(); if (!f) f = q->forceGetRear(); SlicedVideoFrame *sf = dynamic_cast<SlicedVideoFrame *>(f); if (!sf) { err = "forced write got nothing"; stop = true; break; } uint64_t mem[MAX_SLICES][2]; int n = 1 + (int)(u * 7 % per);
        for (int k = 0; k < n; k++) { mem[k][0] = u * 100 + k; mem[k][1] = mem[k][0] * 31 + 7; sf->setSlice((unsigned char *)mem[k], 16); made++; } sf->setSequenceNumber(u); sf->setPresentationTime(us(u * 40)); std::atomic_thread_fence(std::memory_order_seq_cst); q->addFrame(); if (u % burst == 0) spin(pause); }
    done = true; r.join(); PBT_CHECK(err.empty(), "%s", err.c_str()); size_t lost = q->getLostBlocs();
    PBT_CHECK(got + lost == made, "%llu slices were written, %llu read, %zu counted as lost", (unsigned long long)made, (unsigned long long)got, lost); PBT_CHECK(q->getElements() == 0 && q->getFront() == NULL, "slices left after all were consumed"); if (lost && got > 2 * max) g.nontrivial();
}
}
void pbt::property(Gen &g) {
    ConnectionData cd; cd.wFilterId = (int)g.range(1, 99); cd.writerId = 1; std::vector<int> rids;
    int nr = (int)g.range(1, 3); for (int i = 0; i < nr; i++) { ReaderData r; r.rFilterId = 100 + i; r.readerId = 1; cd.readers.push_back(r); rids.push_back(100 + i); }
    StreamInfo si(VIDEO); si.video.codec = g.pick({H264, H265});
    unsigned cap = (unsigned)g.edge(2, 40), maxSlice = (unsigned)g.edge(1, 3000);
    std::unique_ptr<SlicedVideoFrameQueue> q(SlicedVideoFrameQueue::createNew(cd, &si, cap, maxSlice));
    PBT_CHECK(q.get() != NULL, "queue refused");
    size_t max = q->getMaxFrames();
    if (max >= 3 && maxSlice >= 16 && g.chance(2)) { forced(g, q.get()); return; }
    std::deque<S> model; size_t lost = 0, written = 0; bool big = false; S last; bool haveLast = false, over = false;
    int ops = (int)g.range(1, 60), bias = (int)g.range(20, 85);
    g.log() << "cap=" << cap << " maxSlice=" << maxSlice;
    for (int i = 0; i < ops; i++) {
        if (g.chance(bias)) {
            bool force = g.chance(40); bool full = model.size() == max - 1;
            Frame *f = q->getRear();
            PBT_CHECK((f == NULL) == full, "room reported %s with %zu of %zu queued", f ? "yes" : "no", model.size(), max);
            if (!f) { if (!force) continue; f = q->forceGetRear(); PBT_CHECK(f != NULL, "forced write got nothing"); }
            SlicedVideoFrame *sf = dynamic_cast<SlicedVideoFrame *>(f); PBT_CHECK(sf != NULL, "input frame is not sliced");
            PBT_CHECK(sf->getSliceNum() == 0, "slices of an earlier access unit are still in the input frame");
            int n = g.chance(15) ? (int)g.range(14, 20) : (int)g.range(0, 6);
            S base; base.pts = (long)g.edge(0, 1L << 40); base.dts = base.pts - (long)g.range(0, 1000); base.seq = (size_t)g.edge(0, 1 << 30);
            base.w = (int)g.edge(0, 4096); base.h = (int)g.edge(0, 4096); base.org = base.pts + 5;
            std::vector<std::vector<unsigned char>> bufs(n);
            std::vector<S> got;
            for (int k = 0; k < n; k++) {
                size_t sz = (size_t)g.edge(0, maxSlice);
                bool oversize = g.chance(2); if (oversize) sz = maxSlice + (size_t)g.edge(1, 5000);
                bufs[k] = g.bytes(sz); if (bufs[k].empty()) bufs[k].resize(1);
                bool ok = sf->setSlice(&bufs[k][0], (unsigned)sz);
                PBT_CHECK(ok == (k < MAX_SLICES), "slice %d %s", k + 1, ok ? "accepted" : "refused");
                if (ok && !oversize) { S s = base; s.b.assign(bufs[k].begin(), bufs[k].begin() + sz); got.push_back(s); }
                else if (ok) { lost++; g.label("slice larger than the limit"); }
            }
            PBT_CHECK(sf->getSliceNum() == std::min(n, (int)MAX_SLICES), "slice count %d after %d", sf->getSliceNum(), n);
            sf->setPresentationTime(us(base.pts)); sf->setDecodeTime(us(base.dts)); sf->setSequenceNumber(base.seq); sf->setSize(base.w, base.h);
            sf->setOriginTime(std::chrono::system_clock::time_point(us(base.org)));
            std::vector<int> r = q->addFrame(); PBT_CHECK(r == rids, "the consumers to wake are not the connected ones");
            for (auto &s : got) { if (model.size() == max - 1) { model.pop_back(); lost++; over = true; } model.push_back(s); written++; }
            // the slices' memory belongs to the producer again
            for (auto &b : bufs) memset(&b[0], 0xEE, b.size());
            if (n >= 3) big = true;
            g.log() << " au" << n << (full ? "!" : "");
        } else {
            Frame *f = q->getFront();
            PBT_CHECK((f == NULL) == model.empty(), "front %s with %zu slices queued", f ? "there" : "missing", model.size());
            if (!f) { if (haveLast) { std::string d = cmp(q->forceGetFront(), last, si.video.codec); PBT_CHECK(d.empty(), "last consumed slice: %s", d.c_str()); } continue; }
            std::string d = cmp(f, model.front(), si.video.codec); PBT_CHECK(d.empty(), "front slice: %s", d.c_str());
            int r = q->removeFrame(); PBT_CHECK(r == cd.wFilterId, "producer to wake %d", r);
            last = model.front(); haveLast = true; model.pop_front(); g.log() << " r";
        }
        PBT_CHECK(q->getElements() == model.size(), "queue says %u slices, model %zu", q->getElements(), model.size());
        PBT_CHECK(q->getLostBlocs() == lost, "queue counted %zu lost slices, model %zu", q->getLostBlocs(), lost);
    }
    while (!model.empty()) {
        Frame *f = q->getFront(); PBT_CHECK(f != NULL, "%zu slices missing", model.size());
        std::string d = cmp(f, model.front(), si.video.codec); PBT_CHECK(d.empty(), "drain: %s", d.c_str());
        q->removeFrame(); model.pop_front();
    }
    PBT_CHECK(q->getFront() == NULL, "slices from nowhere");
    if (over) g.label("overflow");
    if (big && over && written > max) g.nontrivial();
}
