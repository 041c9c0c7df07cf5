// C07: the worker pool under schedules the harness decides: every run of every task is held at a gate until released with generated results.
#include "common.hh"
#include "WorkersPool.hh"
#include "sched.hh"
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <memory>
using namespace pbt;
const char *pbt::RULE = "histories of task additions, removals, run completions (each returning generated task ids, delays and pending-work answers) and stop, over 1..6 tasks and 1..4 workers; "
    "the harness holds every run open and decides which one ends next. Non-trivial: a task was requested while it was running and other tasks were waiting, or was removed while running or queued";
void pbt::setup() { quietLog(); }
namespace {
typedef std::chrono::steady_clock clk;
const int LIMIT_S = 10;
struct Plan { std::vector<int> ids; bool pending; int delayUs, stallMs; };
struct Hub {
    std::mutex m; std::condition_variable cv; bool open = false; std::string bad;
    void fail(const std::string &s) { if (bad.empty()) bad = s; }
};
struct Task : public Runnable {
    std::shared_ptr<Hub> h; bool inside = false, atGate = false, hasPlan = false, removed = false, delayedOnce = false; Plan plan; long started = 0, asked = 0; bool pendingAnswer = false; int stall = 0;
    std::chrono::system_clock::time_point notBefore; std::shared_ptr<std::atomic<int>> busy;
    Task(std::shared_ptr<Hub> hub, int id) : h(hub), busy(new std::atomic<int>(0)) { setId(id); }
    std::vector<int> processFrame(int &ret) {
        std::unique_lock<std::mutex> l(h->m);
        if (busy->fetch_add(1) != 0 || inside) h->fail(fmt("task %d runs on two workers at once", getId()));
        if (removed) h->fail(fmt("task %d runs after its removal", getId()));
        if (std::chrono::system_clock::now() < notBefore) h->fail(fmt("task %d ran before its delay passed", getId()));
        inside = true; started++; atGate = true; h->cv.notify_all();
        while (!hasPlan && !h->open) h->cv.wait(l);
        atGate = false; std::vector<int> ids;
        if (hasPlan) { ret = plan.delayUs; ids = plan.ids; pendingAnswer = plan.pending; stall = plan.stallMs; hasPlan = false; if (ret > 0) notBefore = std::chrono::system_clock::now() + us(ret); }
        else { ret = 0; pendingAnswer = false; stall = 0; }
        inside = false;
        return ids;
    }
    bool pendingJobs() {
        bool r; int s; { std::lock_guard<std::mutex> l(h->m); r = pendingAnswer; s = stall; pendingAnswer = false; stall = 0; }
        if (s) std::this_thread::sleep_for(std::chrono::milliseconds(s));
        busy->fetch_sub(1); { std::lock_guard<std::mutex> l(h->m); h->cv.notify_all(); }
        return r;
    }
};
}
void pbt::property(Gen &g) {
    sched::Scope perturb(g.chance(65) ? g.range(1, 1 << 20) : 0);
    std::shared_ptr<Hub> h(new Hub); int nw = (int)g.range(1, 4), nt = (int)g.range(1, 6), ops = (int)g.range(4, 40); bool nontriv = false;
    g.log() << "workers=" << nw << " tasks=" << nt << ":";
    std::unique_ptr<WorkersPool> pool(new WorkersPool(nw));
    std::map<int, Task *> live; std::vector<Task *> grave; std::map<int, bool> need; // need: a run is owed that has not started
    std::map<int, long> seen;
    std::vector<std::thread> helpers;
    auto finish = [&]() {   // opens every gate and stops the pool, whatever state it is in
        { std::lock_guard<std::mutex> l(h->m); h->open = true; h->cv.notify_all(); }
        for (auto &t : helpers) t.join(); helpers.clear();
        pool.reset(); for (auto &p : live) delete p.second; for (auto p : grave) delete p; live.clear(); grave.clear();
    };
    auto absorb = [&]() { for (auto &p : live) if (p.second->started != seen[p.first]) { seen[p.first] = p.second->started; need[p.first] = false; } };
    auto held = [&]() { int n = 0; for (auto &p : live) n += p.second->atGate && !p.second->hasPlan; return n; };
    auto settled = [&]() {
        absorb(); if (!h->bad.empty()) return true;
        for (auto &p : live) if (p.second->hasPlan || (!p.second->atGate && *p.second->busy > 0)) return false;   // a released run not yet finished
        if (held() >= nw) return true;
        for (auto &p : live) if (!p.second->atGate && need[p.first]) return false;
        return true;
    };
    std::string err;
    try {
        auto settle = [&]() {
            std::unique_lock<std::mutex> l(h->m); clk::time_point end = clk::now() + std::chrono::seconds(LIMIT_S);
            while (!settled()) if (h->cv.wait_until(l, end) == std::cv_status::timeout && !settled()) {
                std::string s; for (auto &p : live) s += fmt(" task %d:%s%s", p.first, p.second->atGate ? " running" : " idle", need[p.first] ? " owed a run" : "");
                fail(fmt("no progress for %d s with %d of %d workers busy:", LIMIT_S, held(), nw) + s);
            }
            if (!h->bad.empty()) fail(h->bad);
            for (auto &p : live) if (p.second->started > p.second->asked) fail(fmt("task %d started %ld runs, %ld were asked for", p.first, p.second->started, p.second->asked));
        };
        auto release = [&](int id, const Plan &pl) {   // hub lock held
            absorb(); Task *t = live[id]; t->plan = pl; t->hasPlan = true;
            for (int i : pl.ids) if (live.count(i)) { need[i] = true; live[i]->asked++; }
            if (pl.pending) { need[id] = true; t->asked++; }
            h->cv.notify_all();
        };
        auto genPlan = [&](int self) {
            Plan pl; int n = (int)g.range(0, 3); for (int i = 0; i < n; i++) pl.ids.push_back((int)g.range(0, nt)); // nt itself never exists
            pl.pending = g.chance(20); pl.delayUs = g.chance(25) ? (int)g.range(1, 3000) : 0; if (g.chance(10)) pl.ids.push_back(self); pl.stallMs = 0; return pl;
        };
        int added = -1;
        for (int k = 0; k < ops; k++) {
            bool hasty = added >= 0 && g.chance(30); if (!hasty) settle();   // hasty: a task is removed at once, as it starts
            std::vector<int> running; { std::lock_guard<std::mutex> l(h->m); for (auto &p : live) if (p.second->atGate) running.push_back(p.first); }
            int what = hasty ? 8 : (int)g.range(0, 9), target = added; added = -1;
            if (what <= 5 && !running.empty()) {
                int burst = g.chance(30) ? (int)g.range(1, (int)running.size()) : 1; std::lock_guard<std::mutex> l(h->m);
                for (int b = 0; b < burst; b++) {
                    size_t ix = g.raw(running.size() - 1); int id = running[ix]; running.erase(running.begin() + ix);
                    Plan pl = genPlan(id);
                    for (int i : pl.ids) if (live.count(i) && live[i]->atGate && !live[i]->hasPlan && i != id) { for (auto &p : live) if (!p.second->atGate && need[p.first] && p.first != i) { nontriv = true; g.label("requested while running, others queued"); } }
                    g.log() << " end" << id << "{"; for (int i : pl.ids) g.log() << i << ","; g.log() << (pl.pending ? "pending" : "") << (pl.delayUs ? fmt(" %dus", pl.delayUs) : "") << "}";
                    release(id, pl);
                }
            } else if (what <= 7) {
                int id = (int)g.range(0, nt - 1); bool there = live.count(id); Task *t = there ? live[id] : NULL; Task *fresh = NULL;
                if (there) { bool r = g.chance(50) ? pool->addTask(t) : pool->addTask((fresh = new Task(h, id))); if (r) { if (fresh) grave.push_back(fresh); fail("a task with an id already in the pool was accepted"); } delete fresh; continue; }
                t = new Task(h, id); { std::lock_guard<std::mutex> l(h->m); live[id] = t; t->asked = 1; need[id] = true; seen[id] = 0; }
                g.log() << " add" << id; if (!pool->addTask(t)) fail("a new task was refused"); added = id;
            } else if (what == 8) {
                int id = hasty ? target : (int)g.range(0, nt - 1); if (hasty) for (volatile int i = (int)g.range(0, 40) * 200; i > 0; i--) {} if (!live.count(id)) { PBT_CHECK(!pool->removeTask(id), "removing an unknown task succeeded"); continue; }
                Task *t = live[id]; bool wasRunning, wasQueued; std::shared_ptr<std::atomic<bool>> done(new std::atomic<bool>(false)), inside(new std::atomic<bool>(false)), okp(new std::atomic<bool>(false));
                { std::lock_guard<std::mutex> l(h->m); wasRunning = t->atGate; wasQueued = need[id]; if (wasRunning && !g.chance(15)) { /* removal of a running task costs 100 ms: keep it rare */ wasRunning = false; } else if (wasRunning) nontriv = true; }
                if (!wasRunning) {   // let the current run end first if there is one
                    Plan pl; pl.pending = false; pl.delayUs = 0; pl.stallMs = 0; { std::lock_guard<std::mutex> l(h->m); if (t->atGate) release(id, pl); }
                    if (!wasQueued) settle();
                    if (wasQueued) { nontriv = true; g.label("removed while queued"); }
                } else g.label("removed while running");
                g.log() << " remove" << id << (wasRunning ? "(running)" : wasQueued ? "(queued)" : "");
                int stall = wasRunning && g.chance(40) ? (int)g.range(1, 130) : 0; Plan last = genPlan(id); last.stallMs = stall; last.delayUs = 0;
                WorkersPool *pp = pool.get(); std::shared_ptr<std::atomic<int>> busy = t->busy; Hub *hub = h.get();
                helpers.push_back(std::thread([=]() { bool r = pp->removeTask(id); *okp = r; if (*busy > 0) *inside = true; std::lock_guard<std::mutex> l(hub->m); t->removed = true; *done = true; hub->cv.notify_all(); }));
                if (wasRunning) {
                    std::this_thread::sleep_for(std::chrono::microseconds(g.range(0, 2000)));
                    std::unique_lock<std::mutex> l(h->m); if (*done) fail(fmt("removing task %d returned while it was running", id)); release(id, last);
                }
                { std::unique_lock<std::mutex> l(h->m); clk::time_point end = clk::now() + std::chrono::seconds(LIMIT_S);
                  while (!*done) { if (t->atGate && !t->hasPlan) { Plan pl; pl.pending = false; pl.delayUs = 0; pl.stallMs = 0; t->plan = pl; t->hasPlan = true; h->cv.notify_all(); } // it had just started
                      if (h->cv.wait_until(l, end) == std::cv_status::timeout) fail(fmt("removing task %d did not return", id)); } }
                helpers.back().join(); helpers.pop_back();
                if (!*okp) fail("removing a task of the pool was refused");
                if (*inside) fail(fmt("removing task %d returned while a worker was still using it", id));
                { std::lock_guard<std::mutex> l(h->m); live.erase(id); need.erase(id); seen.erase(id); }
                delete t;     // from here on a worker touching it is a use after free
            } else {
                std::this_thread::sleep_for(us(g.range(0, 3000)));
            }
        }
        settle();
        // no run is lost at the end: let everything finish, one by one
        bool drain = g.chance(70); int guard = 0;
        while (drain) {
            settle(); std::lock_guard<std::mutex> l(h->m); int id = -1; for (auto &p : live) if (p.second->atGate) { id = p.first; break; }
            if (id < 0) break; Plan pl; pl.pending = false; pl.delayUs = 0; pl.stallMs = 0; release(id, pl); if (++guard > 1000) fail("runs go on although nothing asks for them");
        }
        if (drain) for (auto &p : live) if (need[p.first]) fail(fmt("task %d never got its run", p.first));
        // stop: returns once the runs in progress are over, and nothing runs afterwards
        std::shared_ptr<std::atomic<bool>> done(new std::atomic<bool>(false)); WorkersPool *pp = pool.get(); Hub *hub = h.get(); int stillIn;
        { std::lock_guard<std::mutex> l(h->m); stillIn = held(); }
        helpers.push_back(std::thread([=]() { pp->stop(); std::lock_guard<std::mutex> l(hub->m); *done = true; hub->cv.notify_all(); }));
        if (stillIn) { std::this_thread::sleep_for(us(g.range(0, 1500))); if (*done) fail("stop returned with a task running"); }
        { std::unique_lock<std::mutex> l(h->m); h->open = true; h->cv.notify_all(); clk::time_point end = clk::now() + std::chrono::seconds(LIMIT_S);
          while (!*done) if (h->cv.wait_until(l, end) == std::cv_status::timeout && !*done) { fputs("stop never returned\n", stderr); err = "stopping the pool did not return"; break; } }
        if (!err.empty()) fail(err);
        helpers.back().join(); helpers.pop_back();
        { std::lock_guard<std::mutex> l(h->m); for (auto &p : live) { if (*p.second->busy) fail("a worker is inside a task after stop"); p.second->removed = true; } if (!h->bad.empty()) fail(h->bad); }
        g.log() << " stop"; if (nontriv) g.nontrivial();
    } catch (Fail &f) {
        // the pool may be stuck: report without waiting for it to come apart
        err = f.msg;
        bool stuck = err.find("did not return") != std::string::npos || err.find("no progress") != std::string::npos;
        if (stuck) { for (auto &t : helpers) t.detach(); helpers.clear(); { std::lock_guard<std::mutex> l(h->m); h->open = true; h->cv.notify_all(); } pool.release(); throw; }
        finish(); throw;
    } catch (...) { finish(); throw; }
    finish();
}
