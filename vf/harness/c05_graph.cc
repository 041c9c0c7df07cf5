// C05: histories of connect / share / disconnect / run over several filters against a graph model.
#define VF_MOCK_DEFINE
#include "mockfilters.hh"
#include <deque>
using namespace pbt;
const char *pbt::RULE = "histories of connects (all four kinds, with refusing and exhausted ends), shared readers, one- and two-sided disconnects and filter runs over "
    "several producers, pass-through filters and consumers, against a model of links and deliveries. Non-trivial: at least one link was removed and one of its ends "
    "connected again, and frames were delivered over at least two links";
void pbt::setup() { quietLog(); }
namespace {
struct Link { int w, wid; bool wSide = true; bool rSide = true;   // sides still attached
    std::map<int, std::pair<bool, bool>> rd;                         // consumer filter -> (takes part in the frame out, has a stale... unused)
    std::map<int, int> rid;                                          // consumer filter -> reader id
    std::deque<uint64_t> q; bool out = false; };
}
void pbt::property(Gen &g) {
    int before = mock::g_queues;
    int nh = (int)g.range(1, 2), nm = (int)g.range(0, 2), nt = (int)g.range(1, 3);
    struct F { BaseFilter *f; mock::Common *c; unsigned maxW, maxR; int kind; }; std::vector<F> fs;
    // what runs record
    std::map<int, std::vector<std::pair<int, uint64_t>>> got; std::map<int, uint64_t> toSend; std::map<int, std::set<int>> sendMask; std::map<int, std::set<int>> sawWriters;
    uint64_t nextId = 1;
    for (int i = 0; i < nh; i++) { unsigned w = (unsigned)g.range(1, 3); auto *h = new mock::Head(w, g.chance(30) ? SERVER : REGULAR, g.chance(50)); h->setId(i); F f = {h, h, w, 0, 0}; fs.push_back(f);
        h->fn = [&, i](std::map<int, Frame *> &d, int &) { bool any = false; for (auto &x : d) { sawWriters[i].insert(x.first); if (sendMask[i].count(x.first)) { mock::put(x.second, toSend[i] * 100 + (x.first % 100), (long)toSend[i]); x.second->setConsumed(true); any = true; } } return any; }; }
    for (int i = 0; i < nm; i++) { unsigned r = (unsigned)g.range(1, 3); auto *m = new mock::ManyOne(r); int id = nh + i; m->setId(id); F f = {m, m, 1, r, 1}; fs.push_back(f);
        m->fn = [&, id](std::map<int, Frame *> &o, Frame *d, std::vector<int> n) { for (int k : n) got[id].push_back(std::make_pair(k, mock::idOf(o[k]))); if (!sendMask[id].size()) return false; mock::put(d, toSend[id] * 100, (long)toSend[id]); d->setConsumed(true); return true; }; }
    for (int i = 0; i < nt; i++) { unsigned r = (unsigned)g.range(1, 3); auto *t = new mock::Tail(r, false, g.chance(30) ? SERVER : REGULAR); int id = nh + nm + i; t->setId(id); F f = {t, t, 0, r, 2}; fs.push_back(f);
        t->fn = [&, id](std::map<int, Frame *> &o, std::vector<int> n, int &) { for (int k : n) got[id].push_back(std::make_pair(k, mock::idOf(o[k]))); return true; }; }
    int N = (int)fs.size();
    for (auto &f : fs) f.c->cap = 250;
    std::vector<std::shared_ptr<Link>> links;      // live or half-dead links
    std::map<std::pair<int, int>, std::shared_ptr<Link>> W, R;   // occupied ends: (filter, id) -> link
    auto wConn = [&](int f, int id) { auto i = W.find(std::make_pair(f, id)); return i != W.end() && i->second->wSide && i->second->rSide; };
    auto rConn = [&](int f, int id) { auto i = R.find(std::make_pair(f, id)); return i != R.end() && i->second->wSide && i->second->rSide; };
    auto nW = [&](int f) { unsigned n = 0; for (auto &x : W) n += x.first.first == f; return n; };
    auto nR = [&](int f) { unsigned n = 0; for (auto &x : R) n += x.first.first == f; return n; };
    auto dropReader = [&](int f, int id) {   // consumer f leaves whatever its end (f,id) is attached to
        auto it = R.find(std::make_pair(f, id)); if (it == R.end()) return; auto L = it->second; R.erase(it); L->rd.erase(f); L->rid.erase(f);
        if (L->rd.empty()) { L->rSide = false; L->q.clear(); }
        else if (L->out) { bool all = true; for (auto &x : L->rd) all = all && !x.second.first; if (all) { L->out = false; L->q.pop_front(); } }
    };
    auto dropWriter = [&](int f, int id) { auto it = W.find(std::make_pair(f, id)); if (it == W.end()) return; auto L = it->second; W.erase(it); L->wSide = false; };
    bool reused = false, removed = false; std::set<std::pair<int, int>> freedW, freedR; std::set<std::pair<int, int>> delivered; int delivLinks = 0;
    std::set<Link *> delivSet;
    int ops = (int)g.range(5, 140);
    for (int i = 0; i < ops; i++) {
        int op = (int)g.range(0, 24);
        if (op < 6) {   // connect
            int a = (int)g.range(0, N - 1), b = (int)g.range(0, N - 1); if (a == b) continue;
            // filters must exist on both ends and be able to produce / consume at all; the loops the manager never builds are left out
            if (fs[b].kind == 0) continue; if (fs[a].kind == 1 && fs[b].kind == 1 && a > b) continue;
            if (fs[a].kind == 2 && g.chance(90)) continue;
            int how = (int)g.range(0, 3); int wid = (int)g.range(1, 3), rid = (int)g.range(1, 3);
            fs[b].c->refuseReader = g.chance(5); fs[a].c->refuseWriter = g.chance(3); fs[a].c->failAlloc = g.chance(3);
            bool ok; std::set<int> w0, r0; for (auto &x : W) if (x.first.first == a) w0.insert(x.first.second); for (auto &x : R) if (x.first.first == b) r0.insert(x.first.second);
            bool genW = how == 0 || how == 1, genR = how == 0 || how == 2;
            // single-ended filters use a fixed id
            int fw = genW ? (fs[a].maxW == 1 ? DEFAULT_ID : -1) : wid, fr = genR ? (fs[b].maxR == 1 ? DEFAULT_ID : -1) : rid;
            std::multiset<int> cw = fs[a].c->wConf, cr = fs[b].c->rConf; int q0 = mock::g_queues;
            // writers left by their readers do not take up room
            if (fr < 0 || !rConn(b, fr)) { std::vector<std::shared_ptr<Link>> stale; for (auto &x : W) if (x.first.first == a && !x.second->rSide) stale.push_back(x.second); for (auto &L : stale) { dropWriter(a, L->wid); freedW.insert(std::make_pair(a, L->wid)); auto c = cw.find(L->wid); if (c != cw.end()) cw.erase(c); q0--; } }
            bool expect = fs[a].maxW > 0 && nW(a) < fs[a].maxW && nR(b) < fs[b].maxR && (fw < 0 || !W.count(std::make_pair(a, fw))) && (fr < 0 || !R.count(std::make_pair(b, fr)))
                && !fs[b].c->refuseReader && !fs[a].c->refuseWriter && !fs[a].c->failAlloc;
            for (auto &x : R) if (fr >= 0 && x.first == std::make_pair(b, fr)) expect = false;
            bool dupConsumer = false; (void)dupConsumer;
            switch (how) {
                case 0: ok = fs[a].f->connectOneToOne(fs[b].f); break;
                case 1: ok = fs[a].f->connectOneToMany(fs[b].f, rid); break;
                case 2: ok = fs[a].f->connectManyToOne(fs[b].f, wid); break;
                default: ok = fs[a].f->connectManyToMany(fs[b].f, rid, wid); break;
            }
            bool refused = fs[b].c->refuseReader || fs[a].c->refuseWriter || fs[a].c->failAlloc;
            fs[b].c->refuseReader = fs[a].c->refuseWriter = fs[a].c->failAlloc = false;
            g.log() << " c" << how << ":" << a << "." << wid << ">" << b << "." << rid << (ok ? "" : "-") << (refused ? "(end refuses)" : "");
            PBT_CHECK(ok == expect, "connecting filter %d (writer %d) to filter %d (reader %d) %s", a, fw, b, fr, ok ? "succeeded" : "was refused");
            if (!ok) { PBT_CHECK(mock::g_queues == q0, "a refused connection leaves a queue behind"); PBT_CHECK(fs[a].c->wConf == cw && fs[b].c->rConf == cr, "a refused connection leaves an end configured"); g.label("refused"); continue; }
            PBT_CHECK(mock::g_queues == q0 + 1, "a connection created %d queues", mock::g_queues - q0);
            // which ids were generated
            std::multiset<int> nw = fs[a].c->wConf, nr = fs[b].c->rConf; int gotW = fw, gotR = fr;
            for (int x : nw) if (!cw.count(x)) gotW = x; for (int x : nr) if (!cr.count(x)) gotR = x;
            PBT_CHECK(nw.size() == cw.size() + 1 && nr.size() == cr.size() + 1 && !cw.count(gotW) && !cr.count(gotR), "ends not configured once each");
            PBT_CHECK((fw < 0 || gotW == fw) && (fr < 0 || gotR == fr), "connected to other ends than asked");
            std::shared_ptr<Link> L(new Link()); L->w = a; L->wid = gotW; L->rd[b] = std::make_pair(false, false); L->rid[b] = gotR; W[std::make_pair(a, gotW)] = L; R[std::make_pair(b, gotR)] = L; links.push_back(L);
            if (freedW.count(std::make_pair(a, gotW)) || freedR.count(std::make_pair(b, gotR))) reused = true;
        } else if (op < 9) {   // share a reader
            if (R.empty()) continue; auto it = R.begin(); std::advance(it, g.raw(R.size() - 1));
            int a = it->first.first, orgId = g.chance(10) ? (int)g.range(1, 3) : it->first.second, b = (int)g.range(0, N - 1), sid = (int)g.range(1, 3);
            if (fs[b].kind == 0) continue; if (fs[b].maxR == 1) sid = DEFAULT_ID;
            auto src = R.find(std::make_pair(a, orgId));
            // a filter never shares one producer stream with itself twice (the manager refuses it)
            if (src != R.end() && a != b && src->second->rid.count(b)) continue;
            // nor one it feeds itself
            if (src != R.end() && src->second->w == b) continue;
            fs[b].c->refuseReader = g.chance(8);
            bool expect = a != b && rConn(a, orgId) && !rConn(b, sid) && !fs[b].c->refuseReader;
            auto old = R.find(std::make_pair(b, sid)); if (expect && old != R.end()) { fs[b].c->refuseReader = false; continue; }   // half-disconnected end: left to its own clean-up
            if (expect && nR(b) >= fs[b].maxR) expect = false;
            std::multiset<int> cr = fs[b].c->rConf;
            bool ok = fs[a].f->shareReader(fs[b].f, sid, orgId); fs[b].c->refuseReader = false;
            g.log() << " s:" << a << "." << orgId << ">" << b << "." << sid << (ok ? "" : "-");
            PBT_CHECK(ok == expect, "sharing reader %d of filter %d as reader %d of filter %d %s", orgId, a, sid, b, ok ? "succeeded" : "was refused");
            if (!ok) { PBT_CHECK(fs[b].c->rConf == cr, "a refused share leaves an end configured"); continue; }
            auto L = src->second; L->rd[b] = std::make_pair(false, false); L->rid[b] = sid; R[std::make_pair(b, sid)] = L; g.label("shared");
            if (freedR.count(std::make_pair(b, sid))) reused = true;
        } else if (op < 13) {  // disconnect
            if (links.empty()) continue; int both = (int)g.range(0, 3);
            if (g.chance(5)) { PBT_CHECK(fs[0].f->disconnectWriter(77) && fs[N - 1].f->disconnectReader(77), "disconnecting something absent is reported as a failure"); continue; }
            auto L = links[g.raw(links.size() - 1)]; int who = -1, rid = 0; if (!L->rid.empty()) { auto x = L->rid.begin(); std::advance(x, g.raw(L->rid.size() - 1)); who = x->first; rid = x->second; }
            g.log() << " d" << both << ":" << L->w << "." << L->wid << ">" << who;
            auto doW = [&] { auto it = W.find(std::make_pair(L->w, L->wid)); if (it == W.end() || it->second != L) return; PBT_CHECK(fs[L->w].f->disconnectWriter(L->wid), "disconnecting writer %d of filter %d failed", L->wid, L->w); dropWriter(L->w, L->wid); freedW.insert(std::make_pair(L->w, L->wid)); };
            auto doR = [&](int f, int id) { auto it = R.find(std::make_pair(f, id)); if (it == R.end() || it->second != L) return; PBT_CHECK(fs[f].f->disconnectReader(id), "disconnecting reader %d of filter %d failed", id, f); dropReader(f, id); freedR.insert(std::make_pair(f, id)); };
            if (both == 0) doW(); else if (both == 1) { if (who >= 0) doR(who, rid); }
            else { auto cp = L->rid; if (both == 2) doW(); for (auto &x : cp) doR(x.first, x.second); if (both == 3) doW(); }
            removed = true;
        } else {   // run a filter
            int f = (int)g.range(0, N - 1); int ret = 0;
            if (fs[f].kind == 1) { sendMask[f].clear(); if (g.chance(70)) sendMask[f].insert(1); toSend[f] = nextId++; }
            if (fs[f].kind == 0) { sendMask[f].clear(); toSend[f] = nextId++; for (auto &x : W) if (x.first.first == f && g.chance(75)) sendMask[f].insert(x.first.second); }
            got[f].clear(); sawWriters[f].clear();
            // expected deliveries of this run
            std::vector<std::pair<int, uint64_t>> exp; std::vector<std::pair<int, int>> staleR; std::vector<std::shared_ptr<Link>> took;
            if (fs[f].maxR) for (auto &x : R) if (x.first.first == f) {
                auto L = x.second; if (!L->wSide || !L->rSide) { staleR.push_back(x.first); continue; }
                if (L->q.empty()) continue;
                if (!L->out) { L->out = true; for (auto &k : L->rd) k.second.first = true; }
                if (L->rd[f].first) { exp.push_back(std::make_pair(x.first.second, L->q.front())); took.push_back(L); }
            }
            bool outputs = false; std::vector<std::pair<int, int>> staleW; for (auto &x : W) if (x.first.first == f) { if (x.second->wSide && x.second->rSide) outputs = true; else staleW.push_back(x.first); }
            bool mayRun = fs[f].kind == 0 || !exp.empty();
            std::vector<int> en = fs[f].f->processFrame(ret);
            g.log() << " run" << f;
            // consumed inputs
            bool processed = exp.size() && (fs[f].kind == 2 || outputs);
            std::sort(exp.begin(), exp.end()); std::sort(got[f].begin(), got[f].end());
            if (processed) PBT_CHECK(got[f] == exp, "filter %d processed %zu new frames, expected %zu (first got %lld)", f, got[f].size(), exp.size(), got[f].empty() ? -1LL : (long long)got[f][0].second);
            else PBT_CHECK(got[f].empty(), "filter %d processed %zu frames it should not have", f, got[f].size());
            for (auto &L : took) { L->rd[f].first = false; bool all = true; for (auto &k : L->rd) all = all && !k.second.first; if (all) { L->out = false; L->q.pop_front(); } if (processed && delivSet.insert(L.get()).second) delivLinks++; }
            for (auto &s : staleR) dropReader(s.first, s.second);
            // published outputs
            std::multiset<int> wake;
            bool demandDst = fs[f].kind == 0 ? true : processed || (exp.size() > 0);
            if (fs[f].kind == 0 || (fs[f].kind == 1 && processed)) for (auto &x : W) if (x.first.first == f && x.second->wSide && x.second->rSide) {
                bool sends = fs[f].kind == 0 ? sendMask[f].count(x.first.second) > 0 : !sendMask[f].empty();
                if (sends) { x.second->q.push_back(fs[f].kind == 0 ? toSend[f] * 100 + (x.first.second % 100) : toSend[f] * 100); for (auto &k : x.second->rd) wake.insert(k.first); } }
            if (demandDst && fs[f].maxW) for (auto &s : staleW) dropWriter(s.first, s.second);
            std::multiset<int> woke(en.begin(), en.end());
            if (fs[f].f->isPeriodic()) { auto self = woke.find(f); PBT_CHECK(self != woke.end(), "periodic filter %d does not ask to run again", f); woke.erase(self); }
            PBT_CHECK(woke == wake, "filter %d wakes %zu filters, %zu have new frames", f, woke.size(), wake.size());
            (void)mayRun;
        }
        // the reported state of every end
        for (int f = 0; f < N; f++) for (int id = 1; id <= 3; id++) {
            PBT_CHECK(fs[f].f->isWConnected(id) == wConn(f, id), "writer %d of filter %d is reported %s", id, f, wConn(f, id) ? "free" : "connected");
            PBT_CHECK(fs[f].f->isRConnected(id) == rConn(f, id), "reader %d of filter %d is reported %s", id, f, rConn(f, id) ? "free" : "connected");
        }
        for (auto &x : W) if (wConn(x.first.first, x.first.second)) {
            ConnectionData cd = fs[x.first.first].f->getWConnectionData(x.first.second); std::set<std::pair<int, int>> have, want; for (auto &r : cd.readers) have.insert(std::make_pair(r.rFilterId, r.readerId)); for (auto &r : x.second->rid) want.insert(r);
            PBT_CHECK(cd.wFilterId == x.first.first && cd.writerId == x.first.second && have == want, "writer %d of filter %d reports other consumers than it has", x.first.second, x.first.first);
        }
        for (int f = 0; f < N; f++) {
            std::multiset<int> wa, ra; for (auto &x : W) if (x.first.first == f) wa.insert(x.first.second); for (auto &x : R) if (x.first.first == f) ra.insert(x.first.second);
            PBT_CHECK(fs[f].c->wConf == wa && fs[f].c->rConf == ra, "filter %d keeps %zu writers and %zu readers configured, %zu and %zu exist", f, fs[f].c->wConf.size(), fs[f].c->rConf.size(), wa.size(), ra.size());
        }
    }
    // every filter can go in any order and nothing is left
    std::vector<int> order; for (int i = 0; i < N; i++) order.push_back(i);
    for (int i = N - 1; i > 0; i--) std::swap(order[i], order[g.raw(i)]);
    for (int i : order) delete fs[i].f;
    PBT_CHECK(mock::g_queues == before, "%d queues leaked", mock::g_queues - before);
    if (reused && removed && delivLinks >= 2) g.nontrivial();
    if (reused) g.label("end reused");
}
