// C04: one producer, one queue, several consumers sharing the reader.
#include "common.hh"
#include "AVFramedQueue.hh"
#include "IOInterface.hh"
#include <deque>
#include <memory>
#include <thread>
#include <mutex>
#include <atomic>
using namespace pbt;
const char *pbt::RULE = "histories of producer writes (plain and forced), consumer reads, re-reads, releases, joins and leaves on one shared reader over a real "
    "queue, against a per-consumer delivery model; a share of the cases runs the producer and every consumer on its own thread. Non-trivial: at least two "
    "consumers at once and a join or leave happened while a frame was out, or (threads) every one of several consumers received all frames";
static int g_queues = 0;
namespace {
struct Q : public AudioFrameQueue {      // a real queue that can be counted
    Q(ConnectionData cd, const StreamInfo *si, unsigned n) : AudioFrameQueue(cd, si, n) {
        for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(1, 8000, 20, PCM, U8);
        g_queues++; }
    ~Q() { g_queues--; }
};
void put(Frame *f, uint64_t id) { f->setSequenceNumber(id); f->setPresentationTime(us(id * 1000)); f->setDecodeTime(us(id * 1000)); f->setLength(8);
    f->setOriginTime(std::chrono::system_clock::now()); memcpy(f->getDataBuf(), &id, 8); }
uint64_t idOf(Frame *f) { uint64_t v; memcpy(&v, f->getDataBuf(), 8); if (f->getSequenceNumber() != v || f->getPresentationTime().count() != (long)v * 1000) return UINT64_MAX; return v; }
}
void pbt::setup() { quietLog(); }
void pbt::property(Gen &g) {
    StreamInfo si(AUDIO); si.audio.codec = PCM; si.audio.sampleFormat = U8; si.audio.channels = 1; si.audio.sampleRate = 8000;
    ConnectionData cd; cd.wFilterId = (int)g.range(0, 50); cd.writerId = 1; ReaderData r0; r0.rFilterId = 100; r0.readerId = 1; cd.readers.push_back(r0);
    unsigned cap = (unsigned)g.edge(2, 12);
    int before = g_queues;
    Q *q = new Q(cd, &si, cap);
    std::unique_ptr<Writer> w(new Writer()); std::shared_ptr<Reader> r(new Reader());
    PBT_CHECK(!w->isConnected() && !r->isConnected(), "connected before connecting");
    w->setQueue(q); PBT_CHECK(w->connect(r), "connect refused"); PBT_CHECK(w->isConnected() && r->isConnected(), "not connected after connecting");
    g.log() << "cap=" << cap;
    if (g.chance(3)) {
        g.label("threads"); int nc = (int)g.range(2, 5), total = (int)g.range(50, 800); g.log() << " threads consumers=" << nc << " frames=" << total;
        for (int i = 1; i < nc; i++) r->addReader(100 + i, 1);
        std::atomic<bool> stop(false); std::mutex em; std::string err; double t0 = now(); std::vector<std::thread> ts;
        std::atomic<int> released(0);
        for (int i = 0; i < nc; i++) ts.push_back(std::thread([&, i] {
            uint64_t want = 1; bool nf;
            while (want <= (uint64_t)total && !stop) {
                nf = false; Frame *f = r->getFrame(100 + i, nf);
                if (!nf) { if (now() - t0 > 30) { std::lock_guard<std::mutex> l(em); if (err.empty()) err = "starved"; stop = true; } std::this_thread::yield(); continue; }
                uint64_t id = idOf(f);
                if (id != want) { std::lock_guard<std::mutex> l(em); if (err.empty()) err = fmt("consumer %d got frame %llu, expected %llu", i, (unsigned long long)id, (unsigned long long)want); stop = true; break; }
                want++; if (r->removeFrame(100 + i) == cd.wFilterId) released++;
            }
        }));
        uint64_t id = 1;
        while (id <= (uint64_t)total && !stop) { Frame *f = w->getFrame(); if (!f) { std::this_thread::yield(); continue; } put(f, id); w->addFrame(); id++; }
        for (auto &t : ts) t.join();
        std::string e = err;
        if (e == "starved") PBT_CHECK(q->getElements() == 0, "consumers starve with %u frames queued", q->getElements());
        else PBT_CHECK(e.empty(), "%s", e.c_str());
        PBT_CHECK(released == total, "%d frames were released, %d were sent", (int)released, total);
        for (int i = 0; i < nc; i++) r->disconnect(100 + i);
        w.reset(); PBT_CHECK(g_queues == before, "the queue was not freed");
        g.nontrivial(); return;
    }
    struct C { bool read = false, removed = false; bool waits = false; bool connected = true; uint64_t lastSeen = 0; };
    std::map<int, C> cs; cs[100].waits = false; int nextC = 101;
    std::deque<uint64_t> queue; uint64_t nextId = 1; bool out = false; size_t lost = 0; bool interesting = false; uint64_t lastReleased = 0;
    // waits: this consumer takes part in the frame currently out and has not released it
    auto release = [&] { out = false; lastReleased = queue.front(); queue.pop_front(); };
    auto ids = [&] { std::multiset<int> s; for (auto &c : cs) s.insert(c.first); return s; };
    int ops = (int)g.range(1, 90);
    for (int i = 0; i < ops && !cs.empty(); i++) {
        int op = (int)g.range(0, 19);
        std::vector<int> keys; for (auto &c : cs) keys.push_back(c.first);
        int id = keys[g.raw(keys.size() - 1)]; C &c = cs[id];
        if (op < 6) {
            bool force = g.chance(25);
            bool full = queue.size() == cap - 1;
            if (force && full && queue.size() == 1 && out) continue;   // would discard the very frame being read: capacity 2 only
            Frame *f = w->getFrame(force);
            PBT_CHECK((f == NULL) == (full && !force), "room reported %s with %zu of %u queued", f ? "yes" : "no", queue.size(), cap);
            if (!f) continue;
            if (full) { queue.pop_back(); lost++; }
            put(f, nextId); std::vector<int> wake = w->addFrame(); queue.push_back(nextId++);
            PBT_CHECK(std::multiset<int>(wake.begin(), wake.end()) == ids(), "a write wakes %zu consumers, %zu are connected", wake.size(), cs.size());
            g.log() << " w";
        } else if (op < 12) {
            bool nf = false; Frame *f = r->getFrame(id, nf);
            if (queue.empty()) { PBT_CHECK(!nf, "consumer %d is given a new frame from an empty queue", id); g.log() << " -" << id; continue; }
            if (!out) { out = true; for (auto &k : cs) { k.second.waits = true; k.second.read = false; } }
            bool expectNew = c.waits && !c.read;
            PBT_CHECK(f != NULL, "no frame with %zu queued", queue.size());
            PBT_CHECK(nf == expectNew, "consumer %d: frame %llu reported as %s", id, (unsigned long long)queue.front(), nf ? "new" : "already seen");
            PBT_CHECK(idOf(f) == queue.front(), "consumer %d sees frame %llu, the oldest unreleased is %llu", id, (unsigned long long)idOf(f), (unsigned long long)queue.front());
            if (nf) { PBT_CHECK(c.lastSeen < queue.front(), "consumer %d gets frame %llu after %llu", id, (unsigned long long)queue.front(), (unsigned long long)c.lastSeen); c.lastSeen = queue.front(); }
            c.read = true; g.log() << (nf ? " g" : " h") << id;
        } else if (op < 17) {
            if (!(c.waits && c.read)) continue;      // filters release only what they were given
            int ret = r->removeFrame(id); c.waits = false; bool all = true; for (auto &k : cs) all = all && !k.second.waits;
            if (all) release();
            PBT_CHECK(ret == (all ? cd.wFilterId : -1), "release by %d returned %d, %s", id, ret, all ? "every consumer is done" : "others still hold the frame");
            g.log() << " r" << id;
        } else if (op == 17) {
            if (cs.size() > 5) continue; int nid = g.chance(15) ? keys[g.raw(keys.size() - 1)] : nextC++; bool dup = cs.count(nid) > 0;
            if (dup) { r->addReader(nid, 2); continue; }     // joining twice changes nothing
            r->addReader(nid, 2); C n; n.lastSeen = out ? queue.front() : 0; cs[nid] = n; if (out) interesting = true; g.log() << " +" << nid << (out ? "!" : "");
        } else {
            if (g.chance(10)) { PBT_CHECK(!r->disconnect(9999), "a stranger could leave"); continue; }
            if (cs.size() == 1 && g.chance(80)) continue;
            bool lastOne = cs.size() == 1; bool ok = r->disconnect(id); PBT_CHECK(ok, "leaving refused"); cs.erase(id); g.log() << " x" << id << (out ? "!" : "");
            if (out && !lastOne) { interesting = true; bool all = true; for (auto &k : cs) all = all && !k.second.waits; if (all) { release(); g.label("leave releases the frame"); } }
            if (cs.empty()) {
                PBT_CHECK(!w->isConnected() && !r->isConnected(), "still connected after the last consumer left"); PBT_CHECK(g_queues == before + 1, "queue freed under the producer");
                if (g.chance(50)) PBT_CHECK(w->disconnect(), "producer cannot disconnect"); else w.reset();
                PBT_CHECK(g_queues == before, "the queue was not freed"); if (w) PBT_CHECK(!w->disconnect(), "disconnected twice");
                break;
            }
        }
        PBT_CHECK(r->getQueueElements() == queue.size(), "reader sees %zu frames, model %zu", r->getQueueElements(), queue.size());
        PBT_CHECK(r->getLostBlocs() == lost, "losses %zu expected %zu", r->getLostBlocs(), lost);
        ConnectionData k = w->getCData(); std::multiset<int> have; for (auto &x : k.readers) have.insert(x.rFilterId);
        PBT_CHECK(have == ids(), "connection data lists %zu consumers, %zu are connected", have.size(), cs.size());
        long t = r->getCurrentTime().count(); long e = queue.empty() ? -1 : (long)queue.front() * 1000;
        PBT_CHECK(t == e, "current time %ld, the next frame is at %ld", t, e);
        if (cs.size() >= 2) g.label("shared steps");
    }
    if (!cs.empty()) {
        // drain: every consumer present must get every queued frame
        size_t guard = 0;
        while (!queue.empty()) {
            PBT_CHECK(++guard < 1000, "%zu frames never come out", queue.size()); bool progress = false;
            if (!out) { for (auto &k : cs) { k.second.waits = true; k.second.read = false; } out = true; progress = true; }
            std::vector<int> keys; for (auto &k : cs) keys.push_back(k.first);
            for (int id : keys) {
                if (!out) break; C &c = cs[id]; bool nf = false; Frame *f = r->getFrame(id, nf);
                PBT_CHECK(nf == (c.waits && !c.read), "drain: consumer %d: frame %llu reported as %s", id, (unsigned long long)queue.front(), nf ? "new" : "already seen");
                PBT_CHECK(f && idOf(f) == queue.front(), "drain: wrong frame"); c.read = true;
                if (c.waits) { int ret = r->removeFrame(id); c.waits = false; progress = true; bool all = true; for (auto &k : cs) all = all && !k.second.waits; if (all) release(); PBT_CHECK(ret == (all ? cd.wFilterId : -1), "drain: release returned %d", ret); }
            }
            PBT_CHECK(progress, "a frame is held back though nobody has it");
        }
        // producer goes first: the queue stays until the reader is gone
        if (g.chance(50)) {
            PBT_CHECK(w->disconnect(), "producer cannot disconnect"); PBT_CHECK(!r->isConnected(), "reader still connected"); PBT_CHECK(g_queues == before + 1, "queue freed under the reader");
            bool nf = true; Frame *f = r->getFrame(cs.begin()->first, nf); PBT_CHECK(f == NULL, "a frame from a disconnected queue");
            size_t left = cs.size(); for (auto &k : cs) { PBT_CHECK(g_queues == before + 1, "queue freed with %zu consumers left", left); r->disconnect(k.first); left--; }
        } else { for (auto &k : cs) r->disconnect(k.first); w.reset(); }
        PBT_CHECK(g_queues == before, "%d queues leaked", g_queues - before);
    }
    if (interesting) g.nontrivial();
}
