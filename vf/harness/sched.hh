// Schedule perturbation: with props.py's sched=True every function of the code
// under test calls in here on entry and exit; a few functions, chosen anew for
// each case, then delay their thread now and then.
#ifndef VF_SCHED_HH
#define VF_SCHED_HH
#include <stdint.h>
#include <atomic>
namespace sched { extern std::atomic<uint64_t> seed; void start(uint64_t s); inline void stop() { seed = 0; } struct Scope { Scope(uint64_t s) { start(s); } ~Scope() { stop(); } }; }
#endif
