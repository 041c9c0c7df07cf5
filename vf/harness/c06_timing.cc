// C06: which frames a run consumes, what it publishes, how outputs are stamped.
#define VF_MOCK_DEFINE
#include "vclock.hh"
#include "mockfilters.hh"
#include <deque>
using namespace pbt;
const char *pbt::RULE = "a filter of generated role (sink with synchronisation, sink without, many-input, many-input with frame time, one-input, fan-out) with 1..4 inputs, "
    "fed generated timestamped frames in generated order and run at generated moments, against a model of input selection, consumption, output stamping and wake-ups; or a source with up to 5 outputs that come and go, of which any subset gets a frame. "
    "Non-trivial: some run had both a ready input and one held back or empty, and at least 5 frames were processed (sources: 5 frames, two outputs in one run)";
void pbt::setup() { quietLog(); }
namespace { struct In { uint64_t id; long pts, dts; }; long ft(const In &i) { return i.dts != -1 && i.dts <= i.pts ? i.dts : i.pts; } }
// a head filter with several outputs, of which any subset gets a frame in a run and which come and go
static void headOutputs(Gen &g) {
    int before = mock::g_queues; bool periodic = g.chance(50); g.label("head outputs"); g.log() << "head outputs";
    std::unique_ptr<mock::Head> h(new mock::Head(5, REGULAR, periodic)); h->setId(1); h->cap = 20; struct Out { std::unique_ptr<mock::Tail> t; size_t seq; uint64_t got; }; std::map<int, Out> outs; std::set<int> mask; uint64_t id = 1; bool ok = true; int wait = 0; std::set<int> offered;
    h->fn = [&](std::map<int, Frame *> &d, int &r) { offered.clear(); for (auto &x : d) { offered.insert(x.first); if (mask.count(x.first)) { mock::put(x.second, id * 100 + x.first, 5); x.second->setConsumed(true); } } r = wait; return ok; };
    int ops = (int)g.range(5, 80), frames = 0; size_t maxOut = 0;
    for (int k = 0; k < ops; k++) {
        g_clockUs += (long long)g.range(1, 100000); int op = (int)g.range(0, 9);
        if (op == 0 || outs.empty()) { int w = (int)g.range(0, 5); if (outs.count(w) || outs.size() == 5) continue; Out &o = outs[w]; o.t.reset(new mock::Tail(1, false)); o.t->setId(100 + w); o.seq = 0; PBT_CHECK(h->connectManyToOne(o.t.get(), w), "connect output"); g.log() << " +" << w; }
        else if (op == 1) { auto it = outs.begin(); std::advance(it, (int)g.range(0, outs.size() - 1)); g.log() << " -" << it->first; PBT_CHECK(h->disconnectWriter(it->first), "disconnect"); outs.erase(it); }
        else {
            mask.clear(); for (auto &o : outs) if (g.chance(60)) mask.insert(o.first); ok = g.chance(90); if (!ok) mask.clear(); wait = (int)g.range(0, 5000); int ret = 0; offered.clear(); std::vector<int> en = h->processFrame(ret); std::multiset<int> want; if (periodic) want.insert(1); for (int w : mask) want.insert(100 + w);
            PBT_CHECK(std::multiset<int>(en.begin(), en.end()) == want, "source wakes %zu filters, expected %zu", en.size(), want.size()); std::set<int> all; for (auto &o : outs) all.insert(o.first); PBT_CHECK(all.empty() || offered == all, "%zu outputs offered of %zu", offered.size(), all.size()); if (!all.empty()) PBT_CHECK(ret == wait, "wait of %d us, the step asked for %d", ret, wait); long long now = g_clockUs; maxOut = std::max(maxOut, mask.size());
            for (auto &o : outs) { int w = o.first; Out &x = o.second; int got = 0; x.t->fn = [&](std::map<int, Frame *> &f, std::vector<int> nf, int &) { for (int k : nf) { got++; PBT_CHECK(mock::idOf(f[k]) == id * 100 + w, "output content differs"); PBT_CHECK(f[k]->getSequenceNumber() == x.seq, "output %d numbered %zu, expected %zu", w, f[k]->getSequenceNumber(), x.seq); PBT_CHECK((long long)std::chrono::duration_cast<us>(f[k]->getOriginTime().time_since_epoch()).count() == now, "origin time is not the time it was made"); } return true; };
                int r2; x.t->processFrame(r2); PBT_CHECK(got == (int)mask.count(w), "output %d delivered %d frames", w, got); if (got) { x.seq++; frames++; } }
            id++; g.log() << " r" << mask.size();
        }
    }
    h.reset(); outs.clear(); PBT_CHECK(mock::g_queues == before, "queues leaked"); if (frames >= 5 && maxOut >= 2) g.nontrivial();
}
void pbt::property(Gen &g) {
    g_clockUs = 1600000000000000LL; if (g.chance(12)) return headOutputs(g);
    int before = mock::g_queues; int kind = (int)g.range(0, 5);   // 0 sink sync, 1 sink, 2 many-to-one, 3 many-to-one frame time, 4 one-to-one, 5 fan-out
    int n = kind >= 4 ? 1 : (int)g.range(1, 4), nOut = kind == 5 ? (int)g.range(1, 3) : kind >= 2 ? 1 : 0;
    static const char *names[] = {"synchronised sink", "sink", "many-to-one", "many-to-one with frame time", "one-to-one", "fan-out"}; g.label(names[kind]);
    long frameTime = kind == 3 || (kind == 4 && g.chance(40)) ? (long)g.range(1, 60) * 1000 : 0;
    unsigned cap; do { cap = (unsigned)g.range(4, 24); } while (cap % 10 == 0);
    bool periodic = g.chance(20), server = kind <= 1 && g.chance(20);
    std::vector<std::unique_ptr<mock::Head>> heads; std::vector<std::unique_ptr<mock::Tail>> sinks; std::unique_ptr<BaseFilter> f; mock::Common *fc;
    const int FID = 50; FilterRole role = server ? SERVER : REGULAR;
    mock::Tail *tail = NULL; mock::ManyOne *many = NULL; mock::One *one = NULL; mock::OneMany *fan = NULL;
    if (kind <= 1) { tail = new mock::Tail(4, kind == 0, role, periodic); f.reset(tail); fc = tail; }
    else if (kind <= 3) { many = new mock::ManyOne(4, false, REGULAR, periodic); f.reset(many); fc = many; }
    else if (kind == 4) { one = new mock::One(REGULAR, periodic); f.reset(one); fc = one; }
    else { fan = new mock::OneMany(4, REGULAR, periodic); f.reset(fan); fc = fan; }
    f->setId(FID); fc->cap = 250; if (frameTime) f->setFrameTime(us(frameTime));
    PBT_CHECK(f->isPeriodic() == periodic && f->getRole() == role, "filter built differently");
    struct Seen { std::map<int, std::pair<uint64_t, bool>> in; std::set<int> fresh; bool ran = false; } seen;
    bool emit = true; std::set<int> emitMask; uint64_t outId = 1000000; int retSet = 0;
    auto record = [&](std::map<int, Frame *> &o) { seen.ran = true; for (auto &x : o) seen.in[x.first] = std::make_pair(x.second ? mock::idOf(x.second) : UINT64_MAX, x.second && x.second->getConsumed()); };
    if (tail) tail->fn = [&](std::map<int, Frame *> &o, std::vector<int> nf, int &r) { record(o); seen.fresh.insert(nf.begin(), nf.end()); r = retSet; return emit; };
    if (many) many->fn = [&](std::map<int, Frame *> &o, Frame *d, std::vector<int> nf) { record(o); seen.fresh.insert(nf.begin(), nf.end()); if (!emit) return false; mock::put(d, outId, 5); d->setConsumed(true); return true; };
    if (one) one->fn = [&](Frame *o, Frame *d) { std::map<int, Frame *> m; m[1] = o; record(m); if (o->getConsumed()) seen.fresh.insert(1); if (!emit) return false; mock::put(d, outId, 5); d->setConsumed(true); return true; };
    if (fan) fan->fn = [&](Frame *o, std::map<int, Frame *> &d) { std::map<int, Frame *> m; m[1] = o; record(m); if (o->getConsumed()) seen.fresh.insert(1); if (!emit) return false;
        for (auto &x : d) if (emitMask.count(x.first)) { mock::put(x.second, outId + x.first, 5); x.second->setConsumed(true); } return true; };
    std::vector<int> rid; bool headPeriodic = g.chance(50);
    In cur; bool send = false; std::vector<size_t> headSeq(n, 0);
    for (int i = 0; i < n; i++) { auto *h = new mock::Head(2, REGULAR, headPeriodic); h->setId(i); h->cap = cap; heads.emplace_back(h);
        h->fn = [&](std::map<int, Frame *> &d, int &) { if (!send) return false; for (auto &x : d) { mock::put(x.second, cur.id, cur.pts); x.second->setDecodeTime(us(cur.dts)); x.second->setConsumed(true); } return true; };
        int r = kind >= 4 ? DEFAULT_ID : i + 1; rid.push_back(r); PBT_CHECK(h->connectOneToMany(f.get(), r), "connect"); }
    std::vector<int> outW;
    for (int i = 0; i < nOut; i++) { auto *t = new mock::Tail(1, false); t->setId(100 + i); sinks.emplace_back(t); int w = kind == 5 ? i + 1 : DEFAULT_ID; PBT_CHECK(f->connectManyToOne(t, w), "connect output"); outW.push_back(w); }
    struct Out { uint64_t id; size_t seq; long long org; }; std::vector<std::vector<Out>> gotOut(nOut);
    for (int i = 0; i < nOut; i++) sinks[i]->fn = [&, i](std::map<int, Frame *> &o, std::vector<int> nf, int &) { for (int k : nf) { Out x = {mock::idOf(o[k]), o[k]->getSequenceNumber(), (long long)std::chrono::duration_cast<us>(o[k]->getOriginTime().time_since_epoch()).count()}; gotOut[i].push_back(x); } return true; };
    struct MIn { In f; size_t seq; long long org; };
    std::vector<std::deque<MIn>> q(n); std::vector<uint64_t> lastConsumed(n, 0); uint64_t nextId = 1; long syncTs = 0; size_t outSeq = 0; int processed = 0; bool mixed = false;
    std::vector<long> clk(n); for (auto &c : clk) c = (long)g.range(0, 30) * 7; std::vector<uint64_t> lastProc(n, 0);
    int ops = (int)g.range(5, 110), bias = (int)g.range(30, 75);
    g.log() << names[kind] << " inputs=" << n << " cap=" << cap << " frameTime=" << frameTime;
    for (int k = 0; k < ops; k++) {
        g_clockUs += (long long)g.range(0, 100000);
        if (g.chance(bias)) {    // an input frame arrives
            int i = (int)g.range(0, n - 1); send = !g.chance(8);
            // times are multiples of 7 us, so that no difference ever is exactly the synchronisation margin
            clk[i] += 7 * (g.chance(10) ? (long)g.range(0, 40000) : (long)g.range(0, 4000)); cur.id = nextId; cur.pts = clk[i]; cur.dts = g.chance(30) ? clk[i] - 7 * (long)g.range(0, 3000) : g.chance(10) ? clk[i] + 7 : -1; if (cur.dts < -1) cur.dts = -1;
            std::vector<int> en; int ret = 0; en = heads[i]->processFrame(ret);
            if (q[i].size() == cap - 1) { q[i].pop_back(); g.label("overflow"); }
            std::multiset<int> want; if (headPeriodic) want.insert(i);
            if (send) { MIn m = {cur, headSeq[i]++, g_clockUs}; q[i].push_back(m); nextId++; want.insert(FID); }
            PBT_CHECK(std::multiset<int>(en.begin(), en.end()) == want, "source wakes %zu filters", en.size());
            g.log() << " a" << i << (send ? "" : "-");
            continue;
        }
        // expected selection
        std::set<int> sel; bool any = false, runs = false; std::set<int> fresh;
        if (kind == 0) {
            long wall = 0; bool empty = false; for (int i = 0; i < n; i++) if (!q[i].empty()) wall = std::max(wall, ft(q[i].front().f));
            std::set<int> pass; bool skip = false;
            for (int i = 0; i < n; i++) { if (q[i].empty()) { empty = true; continue; } if (10 * q[i].size() == 9 * cap) skip = true; if (ft(q[i].front().f) < 0) skip = true; if (10 * q[i].size() > 9 * cap || wall - 40000 > ft(q[i].front().f)) pass.insert(i); }
            if (skip) continue;
            if (empty || !pass.empty()) sel = pass; else for (int i = 0; i < n; i++) sel.insert(i);
        } else for (int i = 0; i < n; i++) sel.insert(i);
        for (int i : sel) if (!q[i].empty()) { fresh.insert(i); any = true; }
        for (int i = 0; i < n; i++) if (any && !fresh.count(i)) mixed = true;
        runs = any;
        if (frameTime && any) {
            bool valid = false, outdated = false; long oos = -1;
            for (int i : fresh) { long t = ft(q[i].front().f); if (t > syncTs + frameTime) oos = oos < 0 ? t : std::min(oos, t); else if (t < syncTs) outdated = true; else valid = true; }
            if (valid) syncTs += frameTime; else { if (oos > syncTs && !outdated) syncTs = oos; runs = !outdated; }
            if (!runs) g.label("outdated dropped");
        }
        if (server && !any) { runs = true; fresh.clear(); }
        emit = g.chance(85); emitMask.clear(); for (int w : outW) if (g.chance(75)) emitMask.insert(w);
        retSet = (int)g.range(0, 5000); seen = Seen(); int ret = 0; g_clockUs += 1; long long tnow = g_clockUs;
        std::vector<int> en = f->processFrame(ret);
        g.log() << " run" << (runs ? "" : "-");
        PBT_CHECK(seen.ran == runs, "the processing step %s with %zu inputs ready", seen.ran ? "ran" : "did not run", fresh.size());
        std::multiset<int> want; if (periodic) want.insert(FID);
        if (runs) {
            std::set<int> fr; for (int i : fresh) fr.insert(rid[i]);
            PBT_CHECK(seen.fresh == fr, "%zu inputs passed as new, expected %zu", seen.fresh.size(), fr.size());
            for (int i = 0; i < n; i++) {
                bool in = seen.in.count(rid[i]) > 0; bool isFresh = fresh.count(i) > 0;
                if (isFresh) { PBT_CHECK(in, "new frame of input %d not passed", i); PBT_CHECK(seen.in[rid[i]].first == q[i].front().f.id && seen.in[rid[i]].second, "input %d: frame %llu passed, the oldest waiting is %llu", i, (unsigned long long)seen.in[rid[i]].first, (unsigned long long)q[i].front().f.id);
                    PBT_CHECK(lastProc[i] < q[i].front().f.id, "input %d out of order", i); lastProc[i] = q[i].front().f.id; processed++; }
                else if (in) { PBT_CHECK(!seen.in[rid[i]].second, "input %d passed as new without a new frame", i); if (lastConsumed[i]) PBT_CHECK(seen.in[rid[i]].first == lastConsumed[i], "input %d shows frame %llu again, the last one was %llu", i, (unsigned long long)seen.in[rid[i]].first, (unsigned long long)lastConsumed[i]); }
            }
            if (tail && seen.ran) PBT_CHECK(ret == retSet, "wait of %d us, the step asked for %d", ret, retSet);
        } else PBT_CHECK(ret == WAIT, "an idle run waits %d us", ret);
        MIn src; bool haveSrc = false; if (kind >= 4 && fresh.count(0)) { src = q[0].front(); haveSrc = true; }
        for (int i : fresh) { lastConsumed[i] = q[i].front().f.id; q[i].pop_front(); }
        // published output
        std::vector<int> pub; if (runs && emit) for (int i = 0; i < nOut; i++) if (kind != 5 || emitMask.count(outW[i])) { pub.push_back(i); want.insert(100 + i); }
        PBT_CHECK(std::multiset<int>(en.begin(), en.end()) == want, "%zu filters woken, expected %zu", en.size(), want.size());
        for (int i = 0; i < nOut; i++) {
            gotOut[i].clear(); int r2 = 0; sinks[i]->processFrame(r2); bool has = std::find(pub.begin(), pub.end(), i) != pub.end();
            PBT_CHECK(gotOut[i].size() == (has ? 1u : 0u), "output %d delivered %zu frames", i, gotOut[i].size());
            if (!has) continue; Out o = gotOut[i][0];
            PBT_CHECK(o.id == (kind == 5 ? outId + outW[i] : outId), "output content differs");
            if (many) { PBT_CHECK(o.seq == outSeq, "output numbered %zu, expected %zu", o.seq, outSeq); PBT_CHECK(o.org == tnow, "output origin time is not the time it was made"); }
            if (fan && haveSrc) { PBT_CHECK(o.seq == src.seq, "output numbered %zu, its input %zu", o.seq, src.seq); PBT_CHECK(o.org == src.org, "origin time of the input not passed on"); }
        }
        if (many && runs && emit) outSeq++;
        outId += 10;
    }
    for (int i = 0; i < n; i++) PBT_CHECK(headSeq[i] == headSeq[i], "-");
    std::vector<std::function<void()>> del; for (auto &h : heads) { auto *p = &h; del.push_back([p] { p->reset(); }); } for (auto &s : sinks) { auto *p = &s; del.push_back([p] { p->reset(); }); } del.push_back([&] { f.reset(); });
    for (size_t i = del.size(); i > 1; i--) std::swap(del[i - 1], del[g.raw(i - 1)]); for (auto &d : del) d();
    PBT_CHECK(mock::g_queues == before, "queues leaked");
    if (mixed && processed >= 5) g.nontrivial(); else if (kind >= 4 && processed >= 5) g.nontrivial();
}
