// C28: the delay and loss statistics of readers and filters, with the harness owning the clock.
#define VF_MOCK_DEFINE
#include "vclock.hh"
#include "fakefilters.hh"
#include "PipelineManager.hh"
#include "IOInterface.hh"
#include <deque>
using namespace pbt;
namespace fake { std::vector<std::shared_ptr<Rec>> g_created; std::atomic<uint64_t> g_next(1); std::atomic<int> g_alive(0), g_work(0); bool g_realQueues = false; }
const char *pbt::RULE = "readers with any averaging window shared by 1..3 consumers, and graphs of sources, processing filters and sinks with shared and separate queues, fed frames with any media time (steady, equal, jumping, going back), made and released at any moment of a clock the harness "
    "owns, with overflowing queues, and paths run by the real pipeline manager and its workers in real time; reported averages, losses, origin times and sequence numbers are compared with a model after every step. Non-trivial: an average over at least two frames with different delays was reported, and (graphs) frames were lost; (paths) frames were lost on a path with at least one filter between its ends";
void pbt::setup() { quietLog(); }
namespace {
// the mean is taken over the frames released since the last one, up to the first whose media time is a window later
struct Stat {
    long window = 1000000, last = -1, span = 0, sum = 0, avg = 0; int n = 0; bool varied = false, reported = false; std::set<long> ds;
    void released(long ft, long delay) { if (last < 0) last = ft; if (ft == last) return; span += ft - last; last = ft; if (span >= window && n > 0) { avg = sum / n; reported = true; if (ds.size() >= 2) varied = true; span = sum = 0; n = 0; ds.clear(); } sum += delay; n++; ds.insert(delay); }
};
long nowUs() { return (long)g_clockUs.load(); }
std::chrono::system_clock::time_point at(long t) { return std::chrono::system_clock::time_point(us(t)); }
long stampOf(Frame *f) { return (long)std::chrono::duration_cast<us>(f->getOriginTime().time_since_epoch()).count(); }
struct Times { Gen &g; long t, step; Times(Gen &g_) : g(g_), t((long)g_.range(0, 3000000)), step((long)g_.edge(1000, 600000)) {} long next() { int k = (int)g.range(0, 19); if (k == 0) return t; if (k == 1) return t = std::max(1l, t - (long)g.edge(1, 400000)); if (k == 2) return t += (long)g.edge(1, 5000000); if (k < 7) return t += std::max(1l, step + step * (long)g.range(-50, 50) / 100); return t += step; } };
void reader(Gen &g) {
    g.label("one reader"); long w = g.chance(30) ? 1000000 : (long)g.edge(0, 3000000); int cap = (int)g.range(4, 12); ConnectionData cd; cd.wFilterId = 1; cd.writerId = 1; ReaderData rd; rd.rFilterId = 100; rd.readerId = 1; cd.readers.push_back(rd); mock::Q *q = new mock::Q(cd, cap); std::unique_ptr<Writer> wr(new Writer()); std::shared_ptr<Reader> r(new Reader((us(w)))); wr->setQueue(q); PBT_CHECK(wr->connect(r), "connect");
    std::map<int, bool> cs; cs[100] = false; int nc = (int)g.range(1, 3); for (int i = 1; i < nc; i++) { r->addReader(100 + i, 1); cs[100 + i] = false; } // value: has released the frame that is out
    struct F { long ft, org; uint64_t id; }; std::deque<F> queue; bool out = false; size_t lost = 0; Stat st; st.window = w; Times tm(g); uint64_t id = 1; int ops = (int)g.edge(1, 300); g.log() << "window " << w << " consumers " << nc << ":"; std::set<int> had;
    for (int i = 0; i < ops; i++) {
        if (g.chance(60)) g_clockUs += (long long)g.edge(0, 300000); int op = (int)g.range(0, 9);
        if (op < 4) { bool full = (int)queue.size() == cap - 1; Frame *f = wr->getFrame(true); PBT_CHECK(f, "no frame to write"); if (full) { queue.pop_back(); lost++; } F x; x.ft = tm.next(); x.org = nowUs() - (long)g.edge(0, 2000000); x.id = id++; mock::put(f, x.id, x.ft); f->setOriginTime(at(x.org)); wr->addFrame(); queue.push_back(x); g.log() << " w" << x.ft; }
        else {
            auto it = cs.begin(); std::advance(it, (int)g.range(0, cs.size() - 1)); int c = it->first; bool nf = false; Frame *f = r->getFrame(c, nf); if (queue.empty()) { PBT_CHECK(!nf, "a new frame from an empty queue"); continue; } if (!out) { out = true; had.clear(); for (auto &k : cs) k.second = false; } PBT_CHECK(f && mock::idOf(f) == queue.front().id, "another frame");
            if (it->second) { PBT_CHECK(!nf, "the same frame again"); continue; } if (g.chance(30)) g_clockUs += (long long)g.edge(0, 100000); it->second = true; r->removeFrame(c); bool all = true; for (auto &k : cs) all = all && k.second; if (all) { F x = queue.front(); queue.pop_front(); out = false; st.released(x.ft, nowUs() - x.org); g.log() << " r" << nowUs() - x.org; } }
        PBT_CHECK(r->getAvgDelay().count() == st.avg, "average delay %ld, expected %ld", (long)r->getAvgDelay().count(), st.avg); PBT_CHECK(r->getLostBlocs() == lost, "losses %zu, expected %zu", r->getLostBlocs(), lost);
    }
    if (st.reported) g.label("average reported"); if (st.varied) g.nontrivial(); for (auto &k : cs) r->disconnect(k.first);
}
struct F { long ft, org; size_t seq; uint64_t id; };
struct Link { unsigned cap; std::deque<F> q; std::map<int, int> rid; std::map<int, bool> done; size_t lost = 0; Stat st; }; // consumers: filter -> reader id; done: has released the front frame
void graph(Gen &g) {
    g.label("graph"); std::unique_ptr<mock::Head> h(new mock::Head(3)); h->setId(0); std::map<int, std::unique_ptr<BaseFilter>> fs; std::vector<Link> links; std::map<int, int> in; std::map<int, std::map<int, int>> outs; // filter -> link it reads; filter -> writer -> link
    struct Node { BaseFilter *f; int kind; mock::Common *c; }; std::map<int, Node> nodes; nodes[0] = Node{h.get(), 0, h.get()}; int nextId = 1; Times tm(g); uint64_t id = 1; std::map<int, F> made; F seen; int ran = 0; bool spread = false;
    auto mk = [&](int kind) { int i = nextId++; if (kind == 1) { mock::One *o = new mock::One(); o->fn = [&](Frame *a, Frame *b) { ran++; seen = F{(long)a->getPresentationTime().count(), stampOf(a), a->getSequenceNumber(), mock::idOf(a)}; if (g.chance(30)) g_clockUs += (long long)g.edge(0, 200000); mock::put(b, seen.id, seen.ft); b->setOriginTime(a->getOriginTime()); b->setSequenceNumber(a->getSequenceNumber()); b->setConsumed(true); return true; }; fs[i].reset(o); nodes[i] = Node{o, 1, o}; }
        else if (kind == 2) { mock::OneMany *o = new mock::OneMany(3); o->fn = [&](Frame *a, std::map<int, Frame *> &d) { ran++; seen = F{(long)a->getPresentationTime().count(), stampOf(a), a->getSequenceNumber(), mock::idOf(a)}; if (g.chance(30)) g_clockUs += (long long)g.edge(0, 200000); for (auto &x : d) { mock::put(x.second, seen.id, seen.ft); x.second->setConsumed(true); } return true; }; fs[i].reset(o); nodes[i] = Node{o, 2, o}; }
        else { mock::Tail *t = new mock::Tail(2, false); t->fn = [&](std::map<int, Frame *> &o, std::vector<int> n, int &) { for (int k : n) { ran++; Frame *a = o[k]; seen = F{(long)a->getPresentationTime().count(), stampOf(a), a->getSequenceNumber(), mock::idOf(a)}; } if (g.chance(30)) g_clockUs += (long long)g.edge(0, 200000); return true; }; fs[i].reset(t); nodes[i] = Node{t, 3, t}; }
        fs[i]->setId(i); return i; };
    // a tree: every new filter reads from an existing writer (a new one, or one in use)
    int nf = (int)g.range(1, 6); bool shared = false;
    for (int k = 0;; k++) {
        std::vector<int> src, idle; for (auto &n : nodes) if (n.second.kind < 3) { src.push_back(n.first); if (outs[n.first].empty()) idle.push_back(n.first); } if (k >= nf && idle.empty()) break; // in the end somebody listens to every filter
        int kind = k >= nf ? 3 : (int)g.range(1, 3); int b = mk(kind), a = k >= nf ? idle[0] : g.pick(src); int wmax = nodes[a].kind == 1 ? 1 : 3; int rdr = kind == 3 ? (int)g.range(1, 2) : (int)DEFAULT_ID; int rid = rdr; auto &ow = outs[a];
        if (!ow.empty() && ((int)ow.size() >= wmax || g.chance(40))) { auto it = ow.begin(); std::advance(it, (int)g.range(0, ow.size() - 1)); Link &l = links[it->second]; int of = l.rid.begin()->first; // share the reader of the queue's first consumer
            PBT_CHECK(nodes[of].f->isRConnected(l.rid[of]), "reader of filter %d", of); bool ok = nodes[of].f->shareReader(nodes[b].f, rid, l.rid[of]); PBT_CHECK(ok, "sharing refused"); l.rid[b] = rid; l.done[b] = false; in[b] = it->second; shared = true; g.log() << " " << a << "." << it->first << ">>" << b; }
        else { int w = wmax == 1 ? (int)DEFAULT_ID : 1; while (ow.count(w)) w++; Link l; l.cap = (unsigned)g.range(4, 9); nodes[a].c->cap = l.cap; PBT_CHECK(nodes[a].f->connectManyToMany(nodes[b].f, rid, w), "connection refused"); l.rid[b] = rid; l.done[b] = false; ow[w] = (int)links.size(); in[b] = (int)links.size(); links.push_back(l); g.log() << " " << a << "." << w << ">" << b; }
    }
    auto push = [&](int a, int w, const F &f) { Link &l = links[outs[a][w]]; if (l.q.size() == l.cap - 1) { l.q.pop_back(); l.lost++; } l.q.push_back(f); };
    bool wide = g.chance(40); size_t made0 = 0;
    h->fn = [&](std::map<int, Frame *> &d, int &) { ran++; if (g.chance(30)) g_clockUs += (long long)g.edge(0, 200000); long ft = tm.next(); for (auto &x : d) { made[x.first] = F{ft, 0, made0, id}; mock::put(x.second, id, ft); x.second->setConsumed(true); } id++; return true; };
    auto check = [&](const char *after) { for (size_t i = 0; i < links.size(); i++) for (auto &c : links[i].rid) { long avg = (long)nodes[c.first].f->getAvgReaderDelay(c.second).count(); PBT_CHECK(avg == links[i].st.avg, "after %s: filter %d reports an average delay of %ld us, expected %ld", after, c.first, avg, links[i].st.avg); size_t lost = nodes[c.first].f->getLostBlocs(c.second); PBT_CHECK(lost == links[i].lost, "after %s: filter %d reports %zu losses, expected %zu", after, c.first, lost, links[i].lost); } };
    int ops = (int)g.edge(5, 400); g.log() << ";"; int r; std::vector<int> ids; for (auto &n : nodes) ids.push_back(n.first); size_t totalLost = 0;
    auto step = [&](int a) {
        ran = 0; Node &n = nodes[a]; made.clear();
        if (a == 0) { n.f->processFrame(r); PBT_CHECK(ran == !outs[0].empty(), "source ran %d times", ran); for (auto &w : outs[0]) { PBT_CHECK(made.count(w.first), "output %d of the source was not offered", w.first); F f = made[w.first]; f.org = nowUs(); f.seq = made0; push(0, w.first, f); } made0++; return; }
        Link &l = links[in[a]]; bool can = !l.q.empty() && !l.done[a]; n.f->processFrame(r); PBT_CHECK(ran == can, "filter %d ran %d times with %zu frames queued", a, ran, l.q.size()); if (!can) return;
        F f = l.q.front(); PBT_CHECK(seen.id == f.id && seen.ft == f.ft, "filter %d got frame %lu, expected %lu", a, (unsigned long)seen.id, (unsigned long)f.id); PBT_CHECK(seen.org == f.org && seen.seq == f.seq, "filter %d: frame %lu carries origin time %ld and number %zu, its source gave %ld and %zu", a, (unsigned long)f.id, seen.org, seen.seq, f.org, f.seq);
        for (auto &w : outs[a]) push(a, w.first, f); l.done[a] = true; bool all = true; for (auto &d : l.done) all = all && d.second; if (all) { l.st.released(f.ft, nowUs() - f.org); l.q.pop_front(); for (auto &d : l.done) d.second = false; } };
    for (int i = 0; i < ops; i++) { if (g.chance(50)) g_clockUs += (long long)g.edge(0, 300000); int a = wide && g.chance(50) ? 0 : g.pick(ids); if (g.chance(25)) { for (int x : ids) step(x); check("a round"); } else { step(a); check("a step"); } }
    for (auto &l : links) { totalLost += l.lost; if (l.st.varied) spread = true; if (l.st.reported) g.label("average reported"); } for (auto &n : nodes) { PBT_CHECK(n.second.f->getAvgReaderDelay(77).count() == -1 && n.second.f->getLostBlocs(77) == 0, "statistics of a reader that is not there"); } if (shared) g.label("shared reader"); if (totalLost) g.label("losses"); if (spread && totalLost) g.nontrivial();
}
std::string text(const Jzon::Node &n) { Jzon::Writer w(n, Jzon::NoFormat); w.Write(); return w.GetResult(); }
// paths under the real manager: what getState says of them once all frames have come to rest
void paths(Gen &g) {
    g.label("paths"); g_clockUs = 0; struct Guard { ~Guard() { PipelineManager::destroyInstance(); } } guard; int threads = (int)g.range(1, 4); PipelineManager *pm = PipelineManager::getInstance(threads); struct Cnt { std::atomic<long> in{0}, out{0}; }; std::map<int, std::shared_ptr<Cnt>> mid; std::map<int, std::shared_ptr<Cnt>> ends; // per mid filter; per path: frames made for its first input, frames at the sink
    struct P { int org, w, dst, r; std::vector<int> mids; }; std::map<int, P> ps; int np = (int)g.range(1, 3); std::shared_ptr<std::atomic<long>> budget(new std::atomic<long>(0)); std::shared_ptr<std::map<int, std::shared_ptr<std::atomic<long>>>> made(new std::map<int, std::shared_ptr<std::atomic<long>>>()); long step = (long)g.edge(1000, 700000); g.log() << threads << " threads step " << step << ":";
    mock::Head *h = new mock::Head(3, REGULAR, true); h->cap = (unsigned)g.range(5, 9); for (int w = 1; w <= 3; w++) (*made)[w].reset(new std::atomic<long>(0)); std::shared_ptr<long> pts(new long(0));
    h->fn = [=](std::map<int, Frame *> &d, int &ret) { ret = 200; if (d.empty() || *budget <= 0) return false; --*budget; *pts += step; for (auto &x : d) { mock::put(x.second, 1, *pts); x.second->setConsumed(true); ++*(*made)[x.first]; } ret = 0; return true; };
    PBT_CHECK(pm->addFilter(1, h), "filter refused"); mock::Tail *t = new mock::Tail(4, false); std::shared_ptr<std::map<int, std::shared_ptr<std::atomic<long>>>> got(new std::map<int, std::shared_ptr<std::atomic<long>>>()); for (int r = 1; r <= 4; r++) (*got)[r].reset(new std::atomic<long>(0)); int tw = (int)g.edge(0, 200000);
    t->fn = [=](std::map<int, Frame *> &, std::vector<int> n, int &) { for (volatile int i = 0; i < tw; i++) {} for (int k : n) ++*(*got)[k]; return true; }; PBT_CHECK(pm->addFilter(2, t), "filter refused"); int next = 10;
    for (int i = 1; i <= np; i++) { P p; p.org = 1; p.w = i; p.dst = 2; p.r = i; int nm = (int)g.range(0, 3); for (int k = 0; k < nm; k++) { mock::One *o = new mock::One(); o->cap = (unsigned)g.range(5, 9); std::shared_ptr<Cnt> c(new Cnt()); int work = (int)g.edge(0, 300000); o->fn = [=](Frame *a, Frame *b) { for (volatile int z = 0; z < work; z++) {} c->in++; mock::put(b, 1, a->getPresentationTime().count()); b->setOriginTime(a->getOriginTime()); b->setConsumed(true); c->out++; return true; }; PBT_CHECK(pm->addFilter(next, o), "filter refused"); mid[next] = c; p.mids.push_back(next++); }
        Jzon::Object ev, q, out; Jzon::Array a; for (int x : p.mids) a.Add(x); q.Add("id", i * 11); q.Add("orgFilterId", 1); q.Add("dstFilterId", 2); q.Add("orgWriterId", p.w); q.Add("dstReaderId", p.r); q.Add("midFiltersIds", a); ev.Add("action", "createPath"); ev.Add("params", q); pm->processEvent(ev, out); PBT_CHECK(out.Get("error").IsNull(), "path refused: %s", text(out).c_str()); ps[i * 11] = p; g.log() << " path(" << nm << ")"; }
    bool lossy = false, longDelay = false; int rounds = (int)g.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        int n = (int)g.range(1, 200); *budget += n; g.log() << " +" << n; double t0 = now();
        // at rest: every frame made for an input was released there or discarded before it
        auto rest = [&](std::string *why) { if (*budget > 0) { if (why) *why = "the source does not run"; return false; } for (auto &x : ps) { long in = *(*made)[x.second.w]; for (int m : x.second.mids) { long lost = (long)pm->getFilter(m)->getLostBlocs(DEFAULT_ID), done = mid[m]->out; if (in != lost + done) { if (why) *why = fmt("%ld frames were made for filter %d, it processed %ld and reports %ld lost", in, m, done, lost); return false; } in = done; } long lost = (long)pm->getFilter(2)->getLostBlocs(x.second.r), done = *(*got)[x.second.r]; if (in != lost + done) { if (why) *why = fmt("%ld frames were made for input %d of the sink, it got %ld and reports %ld lost", in, x.second.r, done, lost); return false; } } return true; };
        while (!rest(NULL)) { if (now() - t0 > 20) { std::string why; if (rest(&why)) break; fail(why); } usleep(300); }
        usleep(2000); Jzon::Object ev, none, out; ev.Add("action", "getState"); ev.Add("params", none); pm->processEvent(ev, out); std::string s = text(out); const Jzon::Array &a = out.Get("paths").AsArray(); PBT_CHECK(a.GetCount() == ps.size(), "%zu paths in %s", a.GetCount(), s.c_str());
        for (size_t i = 0; i < a.GetCount(); i++) { P &p = ps[a.Get(i).Get("id").ToInt()]; long in = *(*made)[p.w], end = *(*got)[p.r]; long lost = a.Get(i).Get("lostBlocs").ToInt(), avg = a.Get(i).Get("avgDelay").ToInt(); PBT_CHECK(lost == in - end, "path %d: %ld frames were made, %ld arrived, %ld losses are reported", a.Get(i).Get("id").ToInt(), in, end, lost); if (lost && !p.mids.empty()) lossy = true; double el = now() - t0; (void)el; PBT_CHECK(avg == pm->getFilter(2)->getAvgReaderDelay(p.r).count(), "path %d reports a delay of %ld us, its last input %ld", a.Get(i).Get("id").ToInt(), avg, (long)pm->getFilter(2)->getAvgReaderDelay(p.r).count()); PBT_CHECK(avg >= 0 && avg < 40000000, "a delay of %ld us", avg); if (avg > 0) longDelay = true; }
    }
    if (lossy) { g.nontrivial(); g.label("losses on a path"); } if (longDelay) g.label("path delay reported");
}
}
void pbt::property(Gen &g) { g_clockUs = 1600000000000000LL + (long long)g.range(0, 1000000); int before = mock::g_queues; if (g.chance(2)) paths(g); else if (g.chance(35)) reader(g); else graph(g); PBT_CHECK(mock::g_queues == before, "%d queues leaked", mock::g_queues - before); }
