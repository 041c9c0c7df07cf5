#ifndef VF_COMMON_HH
#define VF_COMMON_HH
#include "pbt.hh"
#include "Utils.hh"
#include <log4cplus/logger.h>
#include <log4cplus/loglevel.h>
#include <chrono>
// the project's logging is not part of any property here
inline void quietLog() {
    utils::setLogLevel(::ERROR);
    log4cplus::Logger::getInstance(LOG4CPLUS_TEXT("main")).setLogLevel(log4cplus::OFF_LOG_LEVEL);
}
// while one is alive, whatever the library logs (any level) takes as long as the hook does: a writer of log lines can be held up at any of them
struct LogHook {
    struct App : public log4cplus::Appender { std::function<void()> fn; ~App() { destructorImpl(); } void close() {} void append(const log4cplus::spi::InternalLoggingEvent &) { fn(); } };
    LogHook(std::function<void()> fn) { log4cplus::Logger l = log4cplus::Logger::getInstance(LOG4CPLUS_TEXT("main")); l.removeAllAppenders(); App *a = new App(); a->fn = fn; l.addAppender(log4cplus::SharedAppenderPtr(a)); l.setAdditivity(false); l.setLogLevel(log4cplus::ALL_LOG_LEVEL); }
    ~LogHook() { log4cplus::Logger l = log4cplus::Logger::getInstance(LOG4CPLUS_TEXT("main")); l.removeAllAppenders(); l.setLogLevel(log4cplus::OFF_LOG_LEVEL); }
};
typedef std::chrono::microseconds us;
inline std::string scratchDir() { const char *e = getenv("PBT_SCRATCH"); return e ? e : "/tmp"; }
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; } return h;
}
#endif
