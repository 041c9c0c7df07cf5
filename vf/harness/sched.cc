#include "sched.hh"
#include <sched.h>
#include <time.h>
#include <unistd.h>
namespace sched { extern std::atomic<uint64_t> seed; }
#define NI __attribute__((no_instrument_function))
static NI inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ (x >> 33); }
static thread_local uint64_t st = 0;
static std::atomic<uint32_t> cnt[1 << 14];
static NI void nap(uint64_t r) { struct timespec t = {0, (long)(1000 + (r >> 3) % (r & 7 ? 200000 : 5000000))}; nanosleep(&t, 0); } // as long as a worker's poll, or much longer
static NI void point(void *fn, int side) {
    uint64_t s = sched::seed.load(std::memory_order_relaxed); if (!s) return;
    uint64_t e = mix((uint64_t)fn * 2 + side + s * 0x9E3779B97F4A7C15ULL); if (e & 3) return; // one edge in 4 can delay its thread in this case,
    if (!st) st = mix((uint64_t)&st ^ s) | 1; st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    uint32_t c = cnt[(e >> 8) & 0x3fff].fetch_add(1, std::memory_order_relaxed);
    if (c < 16 && !((st >> 8) & 3)) { nap(st >> 20); return; }   // one that is seldom passed often,
    if (!(e & 12) && !(st & 3)) { if (st & 0x7c) sched_yield(); else nap(st >> 20); } // others (one in 16) seldom
}
namespace sched { std::atomic<uint64_t> seed(0); NI void start(uint64_t s) { for (auto &c : cnt) c.store(0, std::memory_order_relaxed); seed = s; } }
extern "C" { NI void __cyg_profile_func_enter(void *f, void *) { point(f, 0); } NI void __cyg_profile_func_exit(void *f, void *) { point(f, 1); } }
