// C25: random graphs of lossless filters run by the real worker pool.  Sources
// keep a bounded number of frames under way on every route, so every frame must reach every
// tail exactly once per route and in order; the graph is taken apart either
// when all is delivered or in the middle of it.
#define VF_MOCK_DEFINE
#include "mockfilters.hh"
#include "WorkersPool.hh"
#include "sched.hh"
using namespace pbt;
const char *pbt::RULE = "the graph has a connection shared by several filters, a fan-out or a merge, at least 6 filters, two workers and 20 frames per source writer; or it is taken apart while frames are under way";
void pbt::setup() { quietLog(); }
namespace {
typedef std::vector<uint32_t> Ids;
void store(Frame *f, const Ids &v, long pts) { f->setPresentationTime(us(pts)); f->setDecodeTime(NO_DTS); if (v.size() * 4 > f->getMaxLength()) abort(); f->setLength(v.size() * 4); memcpy(f->getDataBuf(), v.data(), v.size() * 4); }
Ids load(Frame *f) { Ids v; if (!f || f->getLength() % 4 || f->getLength() > f->getMaxLength()) return v; v.resize(f->getLength() / 4); if (!v.empty()) memcpy(v.data(), f->getDataBuf(), v.size() * 4); return v; }
typedef std::map<int, int> Mult;   // stream -> copies carried
struct In { Mult carried; std::map<int, std::vector<uint32_t>> seen; std::map<int, long> total; std::string bad; };   // of a tail's reader
struct Hub { std::mutex m; std::map<std::pair<int, int>, In> in; std::map<int, long> sent; int window, frames; std::atomic<long> moved{0};
    bool may(int stream) { std::lock_guard<std::mutex> g(m); long k = sent[stream]; if (k >= frames) return false; for (auto &x : in) { auto c = x.second.carried.find(stream); if (c == x.second.carried.end() || k < window) continue; auto &seen = x.second.seen[stream]; if ((long)seen.size() <= k - window || (int)seen[k - window] < c->second) return false; } sent[stream]++; return true; }
    void got(int f, int r, const Ids &v) { std::lock_guard<std::mutex> g(m); In &i = in[std::make_pair(f, r)]; moved++; if (v.empty()) i.bad = "a frame with other content"; for (uint32_t id : v) { int s = id >> 20; uint32_t k = id & 0xfffff; if (!i.carried.count(s)) { i.bad = fmt("a frame of stream %d, which does not lead here", s); continue; } auto &c = i.seen[s]; if (k >= c.size()) c.resize(k + 1, 0); c[k]++; i.total[s]++; if (k && c[k] > c[k - 1]) { i.bad = fmt("stream %d: frame %u before frame %u", s, k, k - 1); } if ((int)c[k] > i.carried[s]) i.bad = fmt("stream %d: frame %u more than %d times", s, k, i.carried[s]); } }
    bool complete() { std::lock_guard<std::mutex> g(m); for (auto &x : in) for (auto &c : x.second.carried) if (x.second.total[c.first] < (long)frames * c.second) return false; return true; }
    std::string bad() { std::lock_guard<std::mutex> g(m); for (auto &x : in) if (!x.second.bad.empty()) return fmt("filter %d reader %d got ", x.first.first, x.first.second) + x.second.bad; return ""; }
    std::string missing() { std::lock_guard<std::mutex> g(m); std::string s; for (auto &x : in) for (auto &c : x.second.carried) if (x.second.total[c.first] < (long)frames * c.second) s += fmt(" filter %d reader %d: %ld of %ld frames of stream %d (%ld sent);", x.first.first, x.first.second, x.second.total[c.first], (long)frames * c.second, c.first, sent[c.first]); return s; } };
struct WQ : public AudioFrameQueue { WQ(ConnectionData cd, unsigned n) : AudioFrameQueue(cd, &mock::g_si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(1, 8000, 64, PCM, U8); mock::g_queues++; } ~WQ() { mock::g_queues--; } };
struct Out { int f, w; Mult carried; int firstF, firstR; };   // an output, and the reader it is connected to
}
void pbt::property(Gen &g) {
    int queues0 = mock::g_queues; std::shared_ptr<Hub> hub(new Hub()); hub->window = (int)g.range(1, 4); hub->frames = (int)g.edge(1, 120); int workers = (int)g.range(1, 6), work = (int)g.edge(0, 20000);
    std::vector<BaseFilter *> fs; std::vector<mock::Common *> cm; std::vector<Out> outs; std::vector<int> kind, readers; int streams = 0, shared = 0, fan = 0, merges = 0; std::shared_ptr<std::atomic<int>> slow(new std::atomic<int>(0)); /* after so many steps, one that takes longer than anyone may assume */ auto spin = [work, slow]() { if (*slow > 0 && --*slow == 0) usleep(250000); for (volatile int i = 0; i < work; i++) {} };
    struct Cleanup { std::vector<BaseFilter *> &f; ~Cleanup() { for (auto x : f) delete x; } } cleanup = {fs};
    auto total = [](const Mult &m) { int n = 0; for (auto &x : m) n += x.second; return n; };
    auto reg = [&](BaseFilter *f, mock::Common *c, int k, int nr) { f->setId((int)fs.size()); fs.push_back(f); cm.push_back(c); { mock::Common *cc = c; c->maker = [cc](ConnectionData cd) { return (FrameQueue *)new WQ(cd, cc->cap); }; } kind.push_back(k); readers.push_back(nr); return (int)fs.size() - 1; };
    std::ostream &lg = g.log(); lg << workers << " workers, window " << hub->window << ", " << hub->frames << " frames:";
    for (int n = (int)g.range(1, 3); n > 0; n--) { int w = (int)g.range(1, 2), base = streams; streams += w; mock::Head *h = new mock::Head(w); int id = reg(h, h, 0, 0); int poll = (int)g.range(1, 400); lg << " source" << id; std::shared_ptr<Hub> hb = hub;
        h->fn = [=](std::map<int, Frame *> &d, int &ret) { ret = poll; bool any = false; for (auto &p : d) { int s = base + p.first - 1; if (!hb->may(s)) continue; long k; { std::lock_guard<std::mutex> l(hb->m); k = hb->sent[s] - 1; } spin(); store(p.second, Ids(1, (uint32_t)(s << 20 | k)), k + 1); p.second->setConsumed(true); any = true; } return any; };
        for (int i = 0; i < w; i++) { Out o; o.f = id; o.w = i + 1; o.carried[base + i] = 1; o.firstF = -1; outs.push_back(o); } }
    std::vector<std::function<void()>> links; struct Link { int of, ow, df, dr, viaF, viaR; }; std::vector<Link> plan;
    auto attach = [&](Out &o, int df, int dr) { Link l = {o.f, o.w, df, dr, o.firstF, o.firstR}; plan.push_back(l); if (o.firstF < 0) { o.firstF = df; o.firstR = dr; } else shared++; lg << (l.viaF < 0 ? " " : " ~") << o.f << "." << o.w << ">" << df << "." << dr; };
    // an open output (or, now and then, one already connected, which is then shared)
    auto pick = [&](int notInto) { std::vector<size_t> open, any; for (size_t i = 0; i < outs.size(); i++) { if (outs[i].firstF < 0) open.push_back(i); else any.push_back(i); } (void)notInto; if (!any.empty() && (open.empty() || g.chance(25))) return any[g.raw(any.size() - 1)]; return open[g.raw(open.size() - 1)]; };
    int inner = (int)g.edge(0, 9);
    for (int n = 0; n < inner; n++) {
        int k = (int)g.range(1, 3); Mult c; Out no; no.firstF = -1; std::vector<size_t> from;
        if (k == 3) { int m = (int)g.range(2, 3); for (int i = 0; i < m; i++) { size_t x = pick(0); if (!std::count(from.begin(), from.end(), x)) from.push_back(x); } } else from.push_back(pick(0));
        for (size_t x : from) for (auto &p : outs[x].carried) c[p.first] += p.second; if (total(c) > 12) continue;
        int id; if (k == 1) { mock::One *o = new mock::One(); id = reg(o, o, 1, 1); lg << " one" << id; o->fn = [=](Frame *a, Frame *b) { Ids v = load(a); spin(); store(b, v, 0); b->setConsumed(true); return true; }; }
        else if (k == 2) { int w = (int)g.range(2, 3); mock::OneMany *o = new mock::OneMany(w); id = reg(o, o, 2, 1); lg << " fan" << id; fan++; o->fn = [=](Frame *a, std::map<int, Frame *> &d) { Ids v = load(a); spin(); for (auto &x : d) { store(x.second, v, 0); x.second->setConsumed(true); } return true; }; for (int i = 1; i < w; i++) { no.f = id; no.w = i + 1; no.carried = c; outs.push_back(no); } }
        else { mock::ManyOne *o = new mock::ManyOne(from.size()); id = reg(o, o, 3, (int)from.size()); lg << " merge" << id; merges++; o->fn = [=](std::map<int, Frame *> &a, Frame *b, std::vector<int> fresh) { Ids v; for (int r : fresh) { Ids x = load(a[r]); v.insert(v.end(), x.begin(), x.end()); } spin(); store(b, v, 0); b->setConsumed(true); return true; }; }
        for (size_t i = 0; i < from.size(); i++) attach(outs[from[i]], id, k == 3 ? (int)i + 1 : DEFAULT_ID);
        no.f = id; no.w = k == 2 ? 1 : DEFAULT_ID; no.carried = c; outs.push_back(no);
    }
    // tails on everything still open, and some more sharing
    int tail = -1, used = 0; std::vector<int> tsize; auto sink = [&](size_t x) {
        if (tail < 0 || used >= readers[tail] || (outs[x].firstF >= 0 && g.chance(50))) { int nr = (int)g.range(1, 4); mock::Tail *t = new mock::Tail(nr, false); tail = reg(t, t, 4, nr); used = 0; lg << " tail" << tail; std::shared_ptr<Hub> hb = hub; int me = tail; t->fn = [=](std::map<int, Frame *> &o, std::vector<int> fresh, int &) { spin(); for (int r : fresh) hb->got(me, r, load(o[r])); return true; }; }
        bool twice = false; for (auto &l : plan) if (l.of == outs[x].f && l.ow == outs[x].w && l.df == tail) twice = true; if (twice) return; used++; hub->in[std::make_pair(tail, used)].carried = outs[x].carried; attach(outs[x], tail, used); };
    for (size_t i = 0; i < outs.size(); i++) if (outs[i].firstF < 0) sink(i); for (int n = (int)g.range(0, 2); n > 0; n--) { size_t x = g.raw(outs.size() - 1); sink(x); }
    for (auto &o : outs) cm[o.f]->cap = 0; for (auto &o : outs) cm[o.f]->cap = std::max<unsigned>(cm[o.f]->cap, total(o.carried) * hub->window + 3);
    sched::Scope perturb(g.chance(65) ? g.range(1, 1 << 20) : 0);
    for (auto &l : plan) { if (l.viaF < 0) { bool ok; int dk = kind[l.df], ok_ = kind[l.of]; if ((ok_ == 0 || ok_ == 2) && (dk == 3 || dk == 4)) ok = fs[l.of]->connectManyToMany(fs[l.df], l.dr, l.ow); else if (ok_ == 0 || ok_ == 2) ok = fs[l.of]->connectManyToOne(fs[l.df], l.ow); else if (dk == 3 || dk == 4) ok = fs[l.of]->connectOneToMany(fs[l.df], l.dr); else ok = fs[l.of]->connectOneToOne(fs[l.df]); PBT_CHECK(ok, "connecting %d.%d to %d.%d", l.of, l.ow, l.df, l.dr); } else PBT_CHECK(fs[l.viaF]->shareReader(fs[l.df], l.dr, l.viaR), "sharing reader %d.%d with %d.%d", l.viaF, l.viaR, l.df, l.dr); }
    std::vector<int> order; for (size_t i = 0; i < fs.size(); i++) order.push_back(i); auto mixed = [&]() { std::vector<int> o = order; for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.raw(i - 1)]); return o; };
    bool full = g.chance(60); int way = (int)g.range(0, 2); int pause = (int)g.edge(0, 20000); std::vector<int> addOrder = mixed(), delOrder = mixed(); std::string err;
    { WorkersPool pool(workers);
        for (int i : addOrder) PBT_CHECK(pool.addTask(fs[i]), "task refused");
        if (full) { long last = -1; int still = 0; while (!hub->complete()) { usleep(500); std::string b = hub->bad(); if (!b.empty()) { err = b; break; } long n = hub->moved; if (n != last) { last = n; still = 0; } else if (++still > 16000) { err = "no frame moved for 8 s, although these are not delivered:" + hub->missing(); break; } } } else { if (way == 2 && g.chance(30)) { *slow = (int)g.edge(1, 40); lg << " slow"; for (int i = 0; i < 100 && *slow > 0; i++) usleep(200); } else usleep(pause); }
        if (full && err.empty()) { usleep(300); for (auto &x : hub->in) { size_t lost = fs[x.first.first]->getLostBlocs(x.first.second); if (lost) err = fmt("%zu frames reported lost by filter %d", lost, x.first.first); } }
        if (!full) { bool any = false; { std::lock_guard<std::mutex> l(hub->m); for (auto &s : hub->sent) any |= s.second > 0; } if (any && !hub->complete()) { g.nontrivial(); g.label("taken apart on the way"); } }
        lg << (full ? " full" : " cut") << " way" << way;
        if (!err.empty() || way == 0) { pool.stop(); }
        else if (way == 1) { for (int i : delOrder) PBT_CHECK(pool.removeTask(i), "task %d not removed", i); }
        else { // as the pipeline manager does it, filter by filter, with the others running
            for (int i : delOrder) { for (auto &l : plan) if (l.df == i) PBT_CHECK(fs[i]->disconnectReader(l.dr), "reader %d.%d could not be disconnected", i, l.dr); PBT_CHECK(pool.removeTask(i), "task %d not removed", i); delete fs[i]; fs[i] = NULL; if (g.chance(30)) usleep(g.range(0, 500)); } } }
    sched::stop(); if (err.empty()) err = hub->bad(); for (int i : delOrder) { delete fs[i]; fs[i] = NULL; } fs.clear();
    if (!err.empty()) pbt::fail(err);
    for (auto &x : hub->in) for (auto &s : x.second.seen) for (size_t k = 1; k < s.second.size(); k++) PBT_CHECK(s.second[k] <= s.second[k - 1], "filter %d reader %d: frame %zu of stream %d without its predecessor", x.first.first, x.first.second, k, s.first);
    PBT_CHECK(mock::g_queues == queues0, "%d queues remain", mock::g_queues - queues0);
    if (full && workers >= 2 && order.size() >= 6 && hub->frames >= 20 && (shared || fan || merges)) g.nontrivial(); if (shared) g.label("shared connection"); if (fan) g.label("fan-out"); if (merges) g.label("merge"); g.label(full ? "delivered in full" : "cut short");
}
