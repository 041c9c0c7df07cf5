// The harness owns the clock: system_clock::now() is interposed (0: real time).
#ifndef VF_VCLOCK_HH
#define VF_VCLOCK_HH
#include <chrono>
#include <atomic>
#include <time.h>
static std::atomic<long long> g_clockUs(1600000000000000LL);
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { long long t = g_clockUs.load(); if (!t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); return time_point(duration(std::chrono::seconds(s.tv_sec) + std::chrono::nanoseconds(s.tv_nsec))); } return time_point(std::chrono::duration_cast<duration>(std::chrono::microseconds(t))); }
} } }
#endif
