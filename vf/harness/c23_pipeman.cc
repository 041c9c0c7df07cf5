// C23: histories of control requests against the real PipelineManager with its
// real worker pool, compared with a model of filters, paths and connections;
// after each round every path must carry traffic.
#define VF_MOCK_DEFINE
#include "fakefilters.hh"
#include "PipelineManager.hh"
#include "sched.hh"
using namespace pbt;
namespace fake { std::vector<std::shared_ptr<Rec>> g_created; std::atomic<uint64_t> g_next(1); std::atomic<int> g_alive(0), g_work(0); bool g_realQueues = false; }
const char *pbt::RULE = "at least two paths existed at once, some request was refused, and some path was removed while another stayed";
void pbt::setup() { quietLog(); }
namespace {
typedef std::pair<int, int> End; // filter, reader or writer
struct Kind { const char *type; int rmax, wmax; }; // as control requests name them
const Kind KINDS[] = {{"receiver", 0, 3}, {"demuxer", 0, 1}, {"transmitter", 4, 0}, {"videoDecoder", 1, 1}, {"audioDecoder", 1, 1}, {"audioEncoder", 1, 1}, {"videoSplitter", 1, 3}, {"transmitter", 1, 0},
    {"videoMixer", -1, -1}, {"audioMixer", -1, -1}, {"videoResampler", -1, -1}, {"videoEncoder", -1, -1}, {"dasher", -1, -1}};
struct MF { int kind; std::shared_ptr<fake::Rec> rec; };
struct MP { int org, dst, ow, dr; std::vector<int> mids; std::map<int, size_t> seen; };
struct Model {
    std::map<int, MF> f; std::map<int, MP> p; std::map<End, std::set<End>> w; // connections: writer -> readers
    int readers(int id) const { int n = 0; for (auto &x : w) for (auto &r : x.second) n += r.first == id; return n; }
    int writers(int id) const { int n = 0; for (auto &x : w) n += x.first.first == id; return n; }
    bool rUsed(End e) const { for (auto &x : w) if (x.second.count(e)) return true; return false; }
    bool canLink(End a, End b, bool mayShare) const {
        const Kind &ka = KINDS[f.at(a.first).kind], &kb = KINDS[f.at(b.first).kind]; if (rUsed(b) || readers(b.first) >= kb.rmax) return false;
        auto i = w.find(a); if (i == w.end()) return a.first != b.first && writers(a.first) < ka.wmax; if (!mayShare) return false; for (auto &r : i->second) if (r.first == b.first) return false; return true; }
    bool connect(const MP &m) { auto keep = w; End a(m.org, m.ow); bool first = true; for (int x : m.mids) { if (!canLink(a, End(x, DEFAULT_ID), first)) { w = keep; return false; } w[a].insert(End(x, DEFAULT_ID)); a = End(x, DEFAULT_ID); first = false; } if (!canLink(a, End(m.dst, m.dr), first)) { w = keep; return false; } w[a].insert(End(m.dst, m.dr)); return true; }
    void unlink(End r) { for (auto i = w.begin(); i != w.end();) { i->second.erase(r); if (i->second.empty()) i = w.erase(i); else ++i; } }
    bool used(int id, int except = -1000000) const { for (auto &x : p) if (x.first != except && (x.second.org == id || x.second.dst == id || std::count(x.second.mids.begin(), x.second.mids.end(), id))) return true; return false; }
    void remove(int id) { MP m = p[id]; unlink(End(m.dst, m.dr)); for (int x : m.mids) unlink(End(x, DEFAULT_ID)); p.erase(id); for (int x : m.mids) drop(x); drop(m.org); drop(m.dst); }
    void drop(int id) { if (!used(id)) f.erase(id); }
    bool from(int a, int b, int depth = 0) const { if (a == b) return true; if (depth > 30) return true; for (auto &x : w) if (x.first.first == a) for (auto &r : x.second) if (from(r.first, b, depth + 1)) return true; return false; }
    bool ring() const { for (auto &x : w) for (auto &r : x.second) if (from(r.first, x.first.first)) return true; return false; } // frames would go round for ever
    // readers that a source writer feeds in the end: (sink filter, reader)
    void reach(End a, std::set<End> &out, int depth = 0) const { if (depth > 40) return; auto i = w.find(a); if (i == w.end()) return; for (auto &r : i->second) { const Kind &k = KINDS[f.at(r.first).kind]; if (!k.wmax) out.insert(r); else for (auto &x : w) if (x.first.first == r.first) reach(x.first, out, depth + 1); } }
};
PipelineManager *pm; Model M; bool stopped, pathLosses;
std::string text(const Jzon::Node &n) { Jzon::Writer w(n, Jzon::NoFormat); w.Write(); return w.GetResult(); }
bool request(const char *action, Jzon::Object params, std::string &err) { Jzon::Object ev, out; ev.Add("action", action); ev.Add("params", params); pm->processEvent(ev, out); PBT_CHECK(out.Has("error"), "%s: no answer: %s", action, text(out).c_str()); err = out.Get("error").IsNull() ? "" : out.Get("error").ToString(); return out.Get("error").IsNull(); }
void state(const char *after) {
    // losses only grow; delays are compared when nothing changed while asking
    auto stats = [&]() { std::map<int, std::pair<size_t, long>> r; for (auto &x : M.p) { size_t lost = 0; BaseFilter *d = pm->getFilter(x.second.dst); if (!d) continue; lost += d->getLostBlocs(x.second.dr); for (int q : x.second.mids) if (BaseFilter *b = pm->getFilter(q)) lost += b->getLostBlocs(DEFAULT_ID); r[x.first] = std::make_pair(lost, (long)d->getAvgReaderDelay(x.second.dr).count()); } return r; };
    auto before = stats();
    Jzon::Object ev, out, none; ev.Add("action", "getState"); ev.Add("params", none); pm->processEvent(ev, out); auto behind = stats(); std::string s = text(out); const Jzon::Array &fs = out.Get("filters").AsArray(), &ps = out.Get("paths").AsArray();
    std::string want; for (auto &x : M.f) want += " " + std::to_string(x.first); PBT_CHECK(fs.GetCount() == M.f.size(), "after %s: filters in %s, expected%s", after, s.c_str(), want.c_str()); auto i = M.f.begin();
    for (size_t k = 0; k < fs.GetCount(); k++, ++i) { const Jzon::Node &n = fs.Get(k); PBT_CHECK(n.Get("id").ToInt() == i->first && n.Get("type").ToString() == KINDS[i->second.kind].type, "after %s: filters in %s, expected%s", after, s.c_str(), want.c_str()); PBT_CHECK(pm->getFilter(i->first) != NULL, "filter %d", i->first); }
    PBT_CHECK(ps.GetCount() == M.p.size(), "after %s: %zu paths in %s, expected %zu", after, ps.GetCount(), s.c_str(), M.p.size()); auto j = M.p.begin();
    for (size_t k = 0; k < ps.GetCount(); k++, ++j) { const Jzon::Node &n = ps.Get(k); MP &m = j->second; bool ok = n.Get("id").ToInt() == j->first && n.Get("originFilter").ToInt() == m.org && n.Get("destinationFilter").ToInt() == m.dst && n.Get("originWriter").ToInt() == m.ow && n.Get("destinationReader").ToInt() == m.dr && n.Get("filters").GetCount() == m.mids.size(); for (size_t q = 0; ok && q < m.mids.size(); q++) ok = n.Get("filters").Get(q).ToInt() == m.mids[q]; PBT_CHECK(ok, "after %s: path %d in %s", after, j->first, s.c_str());
        auto &b = before[j->first], &e = behind[j->first]; size_t lost = (size_t)n.Get("lostBlocs").ToInt(); PBT_CHECK(lost >= b.first && lost <= e.first, "after %s: path %d reports %zu losses, its queues have %zu", after, j->first, lost, b.first); if (lost) pathLosses = true; long avg = n.Get("avgDelay").ToInt(); PBT_CHECK(avg == b.second || b.second != e.second, "after %s: path %d reports a delay of %ld us, its last reader %ld", after, j->first, avg, b.second); }
    for (auto &x : M.f) if (x.second.rec) PBT_CHECK(x.second.rec->alive, "filter %d is listed but gone", x.first);
}
void wait(const std::function<bool()> &done, const std::function<std::string()> &what) { double t0 = now(); while (!done()) { if (now() - t0 > 20) pbt::fail(what()); usleep(300); } }
// every source writer in use sends k frames; every sink reader must get exactly those of its source
void traffic(int k) {
    std::map<int, std::set<End>> to; std::map<End, End> from; for (auto &x : M.f) { if (KINDS[x.second.kind].rmax != 0) continue; for (auto &w : M.w) if (w.first.first == x.first) { std::set<End> out; M.reach(w.first, out); for (auto &e : out) from[e] = w.first; } }
    for (auto &x : M.f) { if (!x.second.rec) continue; std::lock_guard<std::mutex> g(x.second.rec->m); x.second.rec->got.clear(); }
    uint64_t first = fake::g_next; for (auto &x : M.f) if (KINDS[x.second.kind].rmax == 0) { std::lock_guard<std::mutex> g(x.second.rec->m); x.second.rec->sent.clear(); x.second.rec->bursts = k; }
    for (auto &e : from) { auto rec = M.f[e.first.first].rec; auto cnt = [&]() { std::lock_guard<std::mutex> g(rec->m); size_t n = 0; for (uint64_t v : rec->got[e.first.second]) n += v >= first; return n; };
        wait([&]() { return cnt() >= (size_t)k; }, [&]() { return fmt("reader %d of filter %d got %zu of the %d frames sent from writer %d of filter %d", e.first.second, e.first.first, cnt(), k, e.second.second, e.second.first); }); }
    usleep(1500); std::map<End, std::vector<uint64_t>> seq;
    for (auto &x : M.f) { if (!x.second.rec || KINDS[x.second.kind].wmax) continue; std::lock_guard<std::mutex> g(x.second.rec->m); for (auto &r : x.second.rec->got) { std::vector<uint64_t> v; for (uint64_t q : r.second) if (q >= first) v.push_back(q); auto it = from.find(End(x.first, r.first)); PBT_CHECK(it != from.end() || v.empty(), "reader %d of filter %d got %zu frames with no source connected", r.first, x.first, v.size()); if (it == from.end()) continue; PBT_CHECK(v.size() == (size_t)k, "reader %d of filter %d got %zu frames, %d were sent", r.first, x.first, v.size(), k); for (size_t i = 1; i < v.size(); i++) PBT_CHECK(v[i] > v[i - 1], "reader %d of filter %d: frame %lu after %lu", r.first, x.first, (unsigned long)v[i], (unsigned long)v[i - 1]); auto &s = seq[it->second]; if (s.empty()) s = v; PBT_CHECK(s == v, "readers of writer %d of filter %d got different frames", it->second.second, it->second.first); } }
    for (auto &x : M.f) if (KINDS[x.second.kind].rmax == 0) x.second.rec->bursts = 0;
}
void setLive(bool on) { for (auto &x : M.f) if (KINDS[x.second.kind].rmax == 0) x.second.rec->live = on; if (!on) { size_t last = 0; int same = 0; while (same < 4) { usleep(3000); size_t n = 0; for (auto &x : M.f) if (x.second.rec) { std::lock_guard<std::mutex> g(x.second.rec->m); for (auto &r : x.second.rec->got) n += r.second.size(); } same = n == last ? same + 1 : 0; last = n; } } }
struct Guard { ~Guard() { PipelineManager::destroyInstance(); } };
}
void pbt::property(Gen &g) {
    M = Model(); stopped = pathLosses = false; fake::g_created.clear(); fake::g_next = 1; int alive0 = fake::g_alive, queues0 = mock::g_queues; int threads = (int)g.range(1, 4); pm = PipelineManager::getInstance(threads); bool live = g.chance(50); fake::g_work = live ? (int)g.edge(0, g.chance(30) ? 300000 : 20000) : 0; g.log() << threads << " threads" << (live ? " live" : "") << ":"; Guard guard; sched::Scope perturb(g.chance(65) ? g.range(1, 1 << 20) : 0); srand((unsigned)g.range(1, 1000));
    int ops = (int)g.edge(1, 40), refused = 0; bool two = false, removedOne = false; std::string err; int maxF = (int)g.range(3, 12);
    auto fid = [&]() { return M.f.empty() || g.chance(4) ? (int)g.range(-1, maxF) : std::next(M.f.begin(), g.range(0, M.f.size() - 1))->first; };
    auto create = [&](int id, int kind) {
        bool ok = id >= 0 && !M.f.count(id); size_t n0 = fake::g_created.size(); bool got; if (kind == 6 || kind == 7) { BaseFilter *x = kind == 6 ? (BaseFilter *)new FakeSplitter(3) : (BaseFilter *)new SmallSink(); got = pm->addFilter(id, x); if (!got) { delete x; fake::g_created.resize(n0); } } else { Jzon::Object p; p.Add("id", id); p.Add("type", KINDS[kind].type); got = request("createFilter", p, err); }
        g.log() << " +f" << id << ":" << KINDS[kind].type << (got ? "" : "!"); PBT_CHECK(got == ok, "creating filter %d was%s accepted", id, got ? "" : " not"); if (ok) { stopped = false; MF m; m.kind = kind; if (fake::g_created.size() > n0) m.rec = fake::g_created.back(); if (m.rec && live) m.rec->live = true; M.f[id] = m; } else { refused++; PBT_CHECK(fake::g_created.size() == n0, "a refused filter was made"); } };
    auto path = [&](int id, MP m) {
        bool ok = !M.p.count(id) && M.f.count(m.org) && M.f.count(m.dst) ; std::set<int> uniq(m.mids.begin(), m.mids.end()); ok = ok && uniq.size() == m.mids.size(); for (int x : m.mids) ok = ok && M.f.count(x) && x != m.org && x != m.dst; Model trial = M; MP t = m; int askW = m.ow, askR = m.dr;
        // unknown territory for the model: real filters as part of a path
        for (int x : {m.org, m.dst}) if (M.f.count(x) && KINDS[M.f[x].kind].rmax < 0) return; for (int x : m.mids) if (M.f.count(x) && (KINDS[M.f[x].kind].rmax != 1 || KINDS[M.f[x].kind].wmax != 1)) { if (KINDS[M.f[x].kind].rmax < 0 || (KINDS[M.f[x].kind].rmax != 0 && KINDS[M.f[x].kind].wmax != 0)) return; ok = false; }
        if (ok) { if (t.ow < 0) t.ow = KINDS[M.f[t.org].kind].wmax == 1 ? DEFAULT_ID : -7; if (t.dr < 0) t.dr = KINDS[M.f[t.dst].kind].rmax == 1 ? DEFAULT_ID : -8; ok = trial.connect(t); if (ok && trial.ring()) return; }
        Jzon::Object p; Jzon::Array a; for (int x : m.mids) a.Add(x); p.Add("id", id); p.Add("orgFilterId", m.org); p.Add("dstFilterId", m.dst); p.Add("orgWriterId", askW); p.Add("dstReaderId", askR); p.Add("midFiltersIds", a);
        bool got = request("createPath", p, err); g.log() << " +p" << id << ":" << m.org << "." << askW << ">"; for (int x : m.mids) g.log() << x << ">"; g.log() << m.dst << "." << askR << (got ? "" : "!"); PBT_CHECK(got == ok, "path %d from %d.%d over %zu filters to %d.%d was%s accepted (%s)", id, m.org, askW, m.mids.size(), m.dst, askR, got ? "" : " not", err.c_str());
        if (!ok) { refused++; return; } Path *x = pm->getPath(id); PBT_CHECK(x != NULL, "path %d is not there", id); m.ow = x->getOrgWriterID(); m.dr = x->getDstReaderID(); PBT_CHECK((askW < 0 || m.ow == askW) && (askR < 0 || m.dr == askR) && m.ow >= 0 && m.dr >= 0, "path with ends %d, %d", m.ow, m.dr); PBT_CHECK(M.connect(m), "internal"); M.p[id] = m; };
    for (int i = (int)g.edge(2, 8); i > 0; i--) create((int)g.range(0, maxF), g.chance(25) ? 2 : (int)g.range(0, 7));
    state("creation");
    for (int k = 0; k < ops; k++) {
        int op = (int)g.range(0, 19);
        if (op < 4) create(g.chance(90) ? (int)g.range(0, maxF) : -1, g.chance(90) ? (int)g.range(0, 7) : (int)g.range(8, 12));
        else if (op < 14) { // a path, mostly sensible
            MP m; m.ow = g.chance(40) ? -1 : (int)g.range(1, 4); m.dr = g.chance(40) ? -1 : (int)g.range(1, 5); m.org = fid(); m.dst = fid(); std::vector<int> so, sk, mid; for (auto &x : M.f) { if (KINDS[x.second.kind].wmax > 0) so.push_back(x.first); if (KINDS[x.second.kind].rmax > 0) sk.push_back(x.first); if (KINDS[x.second.kind].rmax == 1 && KINDS[x.second.kind].wmax == 1) mid.push_back(x.first); }
            if (!so.empty() && g.chance(92)) m.org = g.pick(so); if (!sk.empty() && g.chance(92)) m.dst = g.pick(sk);
            // often between ends that are already busy: one more reader of a running sink, one more reader of a writer in use
            if (!M.p.empty() && g.chance(40)) { const MP &q = std::next(M.p.begin(), g.range(0, M.p.size() - 1))->second; if (KINDS[M.f[q.dst].kind].rmax > 1) m.dst = q.dst; } if (!M.p.empty() && g.chance(25)) { const MP &q = std::next(M.p.begin(), g.range(0, M.p.size() - 1))->second; m.org = q.org; m.ow = q.ow; } for (int n = (int)g.range(0, 3); n > 0; n--) { if (g.chance(4)) m.mids.push_back(fid()); else if (!mid.empty()) { int x = g.pick(mid); if (g.chance(90) && (x == m.org || x == m.dst || std::count(m.mids.begin(), m.mids.end(), x))) continue; m.mids.push_back(x); } }
            path((int)g.range(0, 7) - (g.chance(2) ? 3 : 0), m);
        } else if (op < 17) { // remove a path
            int id = M.p.empty() || g.chance(10) ? (int)g.range(0, 8) : std::next(M.p.begin(), g.range(0, M.p.size() - 1))->first; Jzon::Object p; p.Add("id", id); bool had = M.p.count(id) != 0; std::map<int, MF> before = M.f; if (had) M.remove(id); if (had && !M.p.empty()) removedOne = true; bool got = request("removePath", p, err); g.log() << " -p" << id; PBT_CHECK(got, "path %d could not be removed: %s", id, err.c_str()); for (auto &x : before) if (x.second.rec) PBT_CHECK((x.second.rec->alive != 0) == (M.f.count(x.first) != 0), "after removing path %d, filter %d is %s", id, x.first, x.second.rec->alive ? "still there" : "gone");
        } else if (op < 19) { // remove a filter
            int id = fid(); bool ok = M.f.count(id) && !M.used(id); Jzon::Object p; p.Add("id", id); auto rec = M.f.count(id) ? M.f[id].rec : std::shared_ptr<fake::Rec>(); bool got = request("removeFilter", p, err); g.log() << " -f" << id << (got ? "" : "!"); PBT_CHECK(got == ok, "removing filter %d was%s accepted", id, got ? "" : " not"); if (ok) M.f.erase(id); else refused++; if (rec) PBT_CHECK((rec->alive != 0) == !ok, "filter %d", id);
        } else if (g.chance(15)) { // stop, and go on with a new pool
            Jzon::Object p; bool got = request("stop", p, err); g.log() << " stop"; PBT_CHECK(got == !stopped, "stop: %s", err.c_str()); stopped = true; M = Model(); PBT_CHECK(fake::g_alive == alive0 && mock::g_queues == queues0, "after a stop, %d filters and %d queues remain", fake::g_alive - alive0, mock::g_queues - queues0); PBT_CHECK(!request("stop", p, err), "stopped twice"); state("stop");
        } else { Jzon::Object p; if (g.chance(50)) p.Add("id", 3); const char *a = g.pick({"createPath", "createFilter", "removePathX", ""}); bool got = request(a, p, err); PBT_CHECK(!got, "'%s' without parameters was accepted", a); refused++; }
        if (M.p.size() >= 2) two = true; state("the last request");
        if (g.chance(25)) { if (live) setLive(false); traffic((int)g.range(1, 6)); if (live) setLive(true); }
    }
    if (live) setLive(false); traffic(5); state("traffic"); if (two && refused && removedOne) g.nontrivial(); if (two) g.label("several paths"); if (pathLosses) g.label("losses reported"); if (refused) g.label("refusals"); if (removedOne) g.label("removal beside others");
    PBT_CHECK(pm->stop() == !stopped, "stop"); PBT_CHECK(pm->getFilters().empty() && pm->getPaths().empty(), "after the stop"); PBT_CHECK(fake::g_alive == alive0 && mock::g_queues == queues0, "after the stop, %d filters and %d queues remain", fake::g_alive - alive0, mock::g_queues - queues0);
}
