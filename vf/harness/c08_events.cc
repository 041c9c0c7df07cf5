// C08: filter events under a virtual clock.
#define VF_MOCK_DEFINE
#include "vclock.hh"
#include "mockfilters.hh"
using namespace pbt;
const char *pbt::RULE = "histories of event pushes (any creation time and delay, known and unknown actions, arbitrary parameters) and filter runs at generated virtual times, on "
    "queued-event filters and on sources and sinks. Non-trivial: some run executed several events at once while another was still not due";
void pbt::setup() { quietLog(); }
namespace {
std::string ser(const Jzon::Node &n) { Jzon::Writer w(n, Jzon::NoFormat); w.Write(); return w.GetResult(); }
struct Pend { long long due; int n; int id; std::string action, params; };
}
void pbt::property(Gen &g) {
    g_clockUs = 1600000000000000LL;
    int kind = (int)g.range(0, 4); std::unique_ptr<BaseFilter> f; std::function<void(const std::string &, std::function<bool(Jzon::Node *)>)> add;
    bool immediate = false;
    switch (kind) {
        case 0: { auto *p = new mock::One(); f.reset(p); add = [p](const std::string &n, std::function<bool(Jzon::Node *)> x) { p->addEvent(n, x); }; break; }
        case 1: { auto *p = new mock::OneMany(3); f.reset(p); add = [p](const std::string &n, std::function<bool(Jzon::Node *)> x) { p->addEvent(n, x); }; break; }
        case 2: { auto *p = new mock::ManyOne(3); f.reset(p); add = [p](const std::string &n, std::function<bool(Jzon::Node *)> x) { p->addEvent(n, x); }; break; }
        case 3: { auto *p = new mock::Head(3); f.reset(p); add = [p](const std::string &n, std::function<bool(Jzon::Node *)> x) { p->addEvent(n, x); }; immediate = true; break; }
        default: { auto *p = new mock::Tail(3, true); f.reset(p); add = [p](const std::string &n, std::function<bool(Jzon::Node *)> x) { p->addEvent(n, x); }; immediate = true; break; }
    }
    f->setId(1);
    std::vector<std::pair<std::string, std::string>> done;   // what ran
    bool fails = false;
    for (const char *n : {"alpha", "beta", "gamma"}) { std::string nm = n; add(nm, [&done, &fails, nm](Jzon::Node *p) { done.push_back(std::make_pair(nm, p ? ser(*p) : std::string("<none>"))); return !fails; }); }
    std::vector<Pend> pend; int seq = 0; bool multi = false; int ops = (int)g.range(2, 50); long long offs = 0; static const char *acts[] = {"alpha", "beta", "gamma", "delta", ""};
    for (int k = 0; k < ops; k++) {
        if (g.chance(60)) {
            // creation time around now, delays from none to hours; milliseconds, as the interface counts them
            long long created = g_clockUs / 1000 + (g.chance(60) ? 0 : (long long)g.range(-100000, 100000)); int delay = g.chance(50) ? 0 : (int)g.edge(0, 200000);
            std::string act = acts[g.chance(15) ? g.raw(4) : g.raw(2)]; Jzon::Object ev; bool hasAct = act != "" || g.chance(50); if (hasAct) ev.Add("action", act);
            int shape = (int)g.range(0, 3); std::string ps = "<none>"; seq++;
            if (shape == 1) { Jzon::Object p; p.Add("id", seq); p.Add("text", std::string("v") + std::to_string(seq)); ev.Add("params", p); ps = ser(p); }
            else if (shape == 2) { Jzon::Array a; for (int i = (int)g.range(0, 3); i >= 0; i--) a.Add(seq + i); ev.Add("params", a); ps = ser(a); }
            else if (shape == 3) { Jzon::Object p; ev.Add("params", p); ps = ser(p); }
            long long due = (created + delay) * 1000; bool dup = false; for (auto &p : pend) dup = dup || p.due == due;
            if (dup) continue;    // order among equal due times is free
            done.clear(); fails = g.chance(10);
            f->pushEvent(Event(ev, std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::milliseconds(created))), delay));
            bool known = act == "alpha" || act == "beta" || act == "gamma";
            g.log() << " push(" << act << "," << (due / 1000 - g_clockUs.load() / 1000) << "ms)";
            if (immediate) {
                PBT_CHECK(done.size() == (known ? 1u : 0u), "pushing '%s' ran %zu actions", act.c_str(), done.size()); if (known) { PBT_CHECK(done[0].first == act && done[0].second == ps, "ran %s with %s, pushed %s with %s", done[0].first.c_str(), done[0].second.c_str(), act.c_str(), ps.c_str()); multi = true; }
            } else { PBT_CHECK(done.empty(), "an event ran outside a run of the filter"); Pend p = {due, seq, 0, known ? act : "", ps}; pend.push_back(p); }
        } else {
            g_clockUs += (long long)g.edge(0, 150000) * 1000; done.clear(); fails = g.chance(10); int ret; f->processFrame(ret);
            std::vector<Pend> due, rest; for (auto &p : pend) { if (p.due <= g_clockUs) due.push_back(p); else rest.push_back(p); }
            std::sort(due.begin(), due.end(), [](const Pend &a, const Pend &b) { return a.due < b.due; });
            std::vector<std::pair<std::string, std::string>> want; for (auto &p : due) if (p.action != "") want.push_back(std::make_pair(p.action, p.params));
            g.log() << " run(" << want.size() << ")";
            PBT_CHECK(done.size() == want.size(), "%zu events ran, %zu were due (%zu pending later)", done.size(), want.size(), rest.size());
            for (size_t i = 0; i < want.size(); i++) PBT_CHECK(done[i] == want[i], "event %zu of the run is %s %s, expected %s %s", i, done[i].first.c_str(), done[i].second.c_str(), want[i].first.c_str(), want[i].second.c_str());
            if (want.size() >= 2 && !rest.empty()) multi = true;
            pend = rest;
        }
    }
    (void)offs;
    if (multi) g.nontrivial();
    // everything still pending comes out once it is due
    g_clockUs += 1000000000000LL; done.clear(); int ret; f->processFrame(ret); size_t want = 0; for (auto &p : pend) want += p.action != "";
    PBT_CHECK(done.size() == want, "%zu of %zu remaining events ran", done.size(), want); done.clear(); f->processFrame(ret); PBT_CHECK(done.empty(), "an event ran twice");
}
