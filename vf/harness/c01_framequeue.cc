// C01: bounded FIFO semantics of the framed queues against a deque model.
#include "common.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include <deque>
#include <thread>
#include <atomic>
#include <memory>
using namespace pbt;

const char *pbt::RULE = "operation histories (write, forced write, read, remove, re-read of the last consumed frame) on an audio, raw "
    "video or coded video queue of generated capacity, executed on the real queue and on a deque model; a share of the cases moves frames "
    "between two threads. Non-trivial: the history filled the queue, discarded at least one frame and wrapped the ring, or (threads) moved "
    "more frames than twice the capacity";
void pbt::setup() { quietLog(); }

namespace {
struct M { uint64_t id; long pts; size_t seq; long dts; unsigned len; };

void put(Frame *f, const M &m) {
    unsigned char *b = f->isPlanar() ? f->getPlanarDataBuf()[0] : f->getDataBuf();
    uint64_t s = m.id * 0x9e3779b97f4a7c15ULL + 1;
    for (unsigned i = 0; i < m.len; i++) { if (i % 8 == 0) splitmix(s); b[i] = (unsigned char)(s >> (8 * (i % 8))); }
    f->setLength(m.len); f->setPresentationTime(us(m.pts)); f->setDecodeTime(us(m.dts)); f->setSequenceNumber(m.seq);
    f->setOriginTime(std::chrono::system_clock::time_point(us(m.pts * 3 + 7)));
}
std::string diff(Frame *f, const M &m) {
    unsigned char *b = f->isPlanar() ? f->getPlanarDataBuf()[0] : f->getDataBuf();
    if (f->getLength() != m.len) return fmt("length %u, written %u (frame #%llu)", f->getLength(), m.len, (unsigned long long)m.id);
    if (f->getSequenceNumber() != m.seq) return fmt("sequence %zu, expected %zu", f->getSequenceNumber(), m.seq);
    if (f->getPresentationTime().count() != m.pts) return fmt("pts %ld, expected %ld", (long)f->getPresentationTime().count(), m.pts);
    if (f->getDecodeTime().count() != m.dts) return "decode time differs";
    if (f->getOriginTime() != std::chrono::system_clock::time_point(us(m.pts * 3 + 7))) return "origin time differs";
    uint64_t s = m.id * 0x9e3779b97f4a7c15ULL + 1;
    for (unsigned i = 0; i < m.len; i++) { if (i % 8 == 0) splitmix(s); if (b[i] != (unsigned char)(s >> (8 * (i % 8)))) return fmt("payload byte %u differs", i); }
    return "";
}
// one thread reads as fast as it can, the other never waits for room; writing the log takes a while
void forced(Gen &g, AVFramedQueue *q, unsigned maxPayload) {
    unsigned max = q->getMaxFrames(), total = (unsigned)g.range(200, 2000); int slow = (int)g.edge(0, 300), hold = (int)g.edge(0, 60), burst = (int)g.edge(1, 60), pause = (int)g.edge(0, 200);
    g.label("threads, forced writes"); g.log() << "threads, forced writes, cap=" << max << " frames=" << total << " log takes " << slow << "us, reader holds " << hold << "us, writer pauses " << pause << "us every " << burst;
    auto spin = [](int u) { if (!u) return; double t = now() + u * 1e-6; while (now() < t) {} };
    std::atomic<bool> done(false), stop(false); std::string err; uint64_t last = 0, got = 0; LogHook hook([&] { spin(slow); });
    auto mk = [&](uint64_t id) { M m = {id, (long)id * 40, (size_t)id, (long)id * 40 - 1, (unsigned)(1 + id % std::min(maxPayload, 64u))}; return m; };
    std::thread r([&] {
        for (;;) {
            bool over = done; std::atomic_thread_fence(std::memory_order_seq_cst); Frame *f = q->getFront(); if (!f) { if (over || stop) return; std::this_thread::yield(); continue; } std::atomic_thread_fence(std::memory_order_seq_cst);
            uint64_t id = f->getSequenceNumber(); spin(hold); if (id <= last || id > total) { err = fmt("frame %llu came after frame %llu", (unsigned long long)id, (unsigned long long)last); stop = true; return; }
            std::string d = diff(f, mk(id)); if (!d.empty()) { err = fmt("frame %llu: ", (unsigned long long)id) + d; stop = true; return; } last = id; got++; std::atomic_thread_fence(std::memory_order_seq_cst); q->removeFrame();
        }
    });
    for (uint64_t id = 1; id <= total && !stop; id++) { Frame *f = q->getRear(); if (!f) f = q->forceGetRear(); if (!f) { err = "forced write got no frame"; stop = true; break; } put(f, mk(id)); std::atomic_thread_fence(std::memory_order_seq_cst); q->addFrame(); if (id % burst == 0) spin(pause); }
    done = true; r.join(); PBT_CHECK(err.empty(), "%s", err.c_str()); size_t lost = q->getLostBlocs();
    PBT_CHECK(got + lost == total, "%u frames were written, %llu read, %zu counted as lost", total, (unsigned long long)got, lost); PBT_CHECK(q->getElements() == 0 && q->getFront() == NULL, "frames left after all were consumed"); if (lost && got > 2 * max) g.nontrivial();
}
}

void pbt::property(Gen &g) {
    ConnectionData cd; cd.wFilterId = (int)g.range(0, 1000); cd.writerId = 1;
    int nReaders = (int)g.range(1, 4); std::vector<int> rids;
    for (int i = 0; i < nReaders; i++) { ReaderData r; r.rFilterId = 10 + i * 3; r.readerId = i; cd.readers.push_back(r); rids.push_back(r.rFilterId); }
    int kind = (int)g.range(0, 9);
    unsigned cap; std::unique_ptr<StreamInfo> si; std::unique_ptr<AVFramedQueue> q; unsigned maxPayload;
    if (kind < 8) {
        cap = g.chance(3) ? (unsigned)g.range(240, 260) : (unsigned)g.edge(2, 40);
        si.reset(new StreamInfo(AUDIO));
        si->audio.codec = g.pick({PCM, PCMU, OPUS, AAC, MP3, G711});
        bool planar = (si->audio.codec == PCM || si->audio.codec == PCMU) && g.chance(50);
        si->audio.sampleFormat = planar ? g.pick({U8P, S16P, FLTP}) : g.pick({U8, S16, FLT});
        si->audio.channels = (unsigned)g.range(1, 2); si->audio.sampleRate = g.pick({8000u, 11025u, 16000u});
        q.reset(AudioFrameQueue::createNew(cd, si.get(), cap)); maxPayload = 300; g.label("kind:audio");
    } else {
        cap = (unsigned)g.range(2, kind == 8 ? 6 : 3);
        si.reset(new StreamInfo(VIDEO));
        if (kind == 8) { si->video.codec = VP8; }
        else { si->video.codec = RAW; si->video.pixelFormat = g.pick({RGB24, RGB32, YUV420P, YUYV422}); }
        q.reset(VideoFrameQueue::createNew(cd, si.get(), cap)); maxPayload = 1000; g.label(kind == 8 ? "kind:coded video" : "kind:raw video");
    }
    PBT_CHECK(q.get() != NULL, "queue could not be created");
    unsigned max = q->getMaxFrames();
    PBT_CHECK(max == std::min<unsigned>(cap, MAX_FRAMES), "capacity %u, asked for %u", max, cap);

    if (g.chance(4)) {      // two threads, one producing, one consuming
        if (max >= 3 && g.chance(50)) { forced(g, q.get(), maxPayload); return; }
        unsigned total = (unsigned)g.range(200, 3000); int wy = (int)g.range(0, 3), ry = (int)g.range(0, 3);
        g.label("threads"); g.log() << "threads cap=" << max << " frames=" << total;
        std::atomic<bool> stop(false); std::string err;
        std::thread w([&] {
            uint64_t id = 1;
            while (id <= total && !stop) {
                Frame *f = q->getRear();
                if (!f) { std::this_thread::yield(); continue; }
                M m = {id, (long)id * 40, (size_t)id, (long)id * 40 - 1, (unsigned)(1 + id % maxPayload)};
                put(f, m); std::atomic_thread_fence(std::memory_order_seq_cst); q->addFrame(); id++;
                if (wy && id % (wy * 7) == 0) std::this_thread::yield();
            }
        });
        uint64_t id = 1; double t0 = now();
        while (id <= total) {
            Frame *f = q->getFront();
            if (!f) { if (now() - t0 > 30) { err = "consumer starved"; break; } std::this_thread::yield(); continue; }
            std::atomic_thread_fence(std::memory_order_seq_cst);
            M m = {id, (long)id * 40, (size_t)id, (long)id * 40 - 1, (unsigned)(1 + id % maxPayload)};
            err = diff(f, m); if (!err.empty()) { err = fmt("frame %llu: ", (unsigned long long)id) + err; break; }
            q->removeFrame(); id++;
            if (ry && id % (ry * 5) == 0) std::this_thread::yield();
        }
        stop = true; w.join();
        if (err == "consumer starved") throw Discard();
        PBT_CHECK(err.empty(), "%s", err.c_str());
        PBT_CHECK(q->getFront() == NULL && q->getElements() == 0, "frames left after all were consumed");
        PBT_CHECK(q->getLostBlocs() == 0, "losses were counted without an overflow");
        if (total > 2 * max) g.nontrivial();
        return;
    }

    std::deque<M> model; M last = {0, 0, 0, 0, 0}; bool haveLast = false; uint64_t nextId = 1; size_t lost = 0;
    uint64_t writes = 0; bool wasFull = false;
    int ops = (int)g.range(1, max > 100 ? 700 : 120); int bias = (int)g.range(20, 80);
    g.log() << "cap=" << max << " readers=" << nReaders << " ops:";
    for (int i = 0; i < ops; i++) {
        int op = g.chance(bias) ? (int)g.range(0, 2) : (int)g.range(3, 6);
        M m = {nextId, (long)g.edge(0, 1L << 40), (size_t)g.edge(0, 1 << 30), 0, (unsigned)g.edge(0, maxPayload)}; m.dts = m.pts - (long)g.range(0, 5);
        switch (op) {
            case 0: case 1: {
                Frame *f = q->getRear();
                PBT_CHECK((f == NULL) == (model.size() == max - 1), "room reported %s with %zu of %u frames queued", f ? "yes" : "no", model.size(), max);
                if (!f) { g.log() << " full"; wasFull = true;
                    std::vector<int> r = q->addFrame();      // a writer that insists changes nothing
                    PBT_CHECK(q->getElements() == model.size(), "adding to a full queue changed it");
                    break; }
                put(f, m); std::vector<int> r = q->addFrame();
                PBT_CHECK(r == rids, "the consumers to wake are not the connected ones");
                model.push_back(m); nextId++; writes++; g.log() << " w" << m.id; break; }
            case 2: {
                bool full = model.size() == max - 1;
                Frame *f = q->forceGetRear(); PBT_CHECK(f != NULL, "forced write got no frame");
                if (full) { wasFull = true; lost++; model.pop_back(); g.log() << " drop"; }
                put(f, m); std::vector<int> r = q->addFrame(); PBT_CHECK(r == rids, "the consumers to wake are not the connected ones");
                model.push_back(m); nextId++; writes++; g.log() << " fw" << m.id; break; }
            case 3: case 4: {
                Frame *f = q->getFront();
                PBT_CHECK((f == NULL) == model.empty(), "front is %s with %zu frames queued", f ? "there" : "missing", model.size());
                if (!f) { int r = q->removeFrame(); PBT_CHECK(r == -1, "removing from an empty queue returned %d", r); g.log() << " empty"; break; }
                std::string d = diff(f, model.front()); PBT_CHECK(d.empty(), "front: %s", d.c_str());
                int r = q->removeFrame(); PBT_CHECK(r == cd.wFilterId, "removing returned %d, the producer is %d", r, cd.wFilterId);
                last = model.front(); haveLast = true; model.pop_front(); g.log() << " r" << last.id; break; }
            case 5: { // reading twice without removing gives the same frame
                Frame *f = q->getFront(); Frame *f2 = q->getFront(); PBT_CHECK(f == f2, "two reads of the front differ");
                if (f) { std::string d = diff(f, model.front()); PBT_CHECK(d.empty(), "front: %s", d.c_str()); } break; }
            case 6: if (haveLast) {
                Frame *f = q->forceGetFront(); PBT_CHECK(f != NULL, "no last consumed frame");
                std::string d = diff(f, last); PBT_CHECK(d.empty(), "last consumed frame: %s", d.c_str()); g.log() << " last"; } break;
        }
        PBT_CHECK(q->getElements() == model.size(), "queue says %u frames, model %zu", q->getElements(), model.size());
        PBT_CHECK(q->getLostBlocs() == lost, "queue counted %zu losses, model %zu", q->getLostBlocs(), lost);
        if (model.size() * 10 != max * 9)    // exactly nine tenths may round either way
            PBT_CHECK(q->isFull() == (model.size() * 10 > max * 9), "isFull wrong with %zu of %u", model.size(), max);
    }
    while (!model.empty()) {
        Frame *f = q->getFront(); PBT_CHECK(f != NULL, "queue lost its tail: %zu frames missing", model.size());
        std::string d = diff(f, model.front()); PBT_CHECK(d.empty(), "drain: %s", d.c_str());
        q->removeFrame(); model.pop_front();
    }
    PBT_CHECK(q->getFront() == NULL, "frames appeared from nowhere");
    if (wasFull) g.label("reached full"); if (lost) g.label("discarded");
    if (lost && wasFull && writes > max) g.nontrivial();
}
