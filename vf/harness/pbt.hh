// Small property-based-testing runtime: every random decision of a case is a
// recorded "choice"; a case is a pure function of its choice sequence.  The
// driver (vf/check.py) runs workers, shrinks failing choice sequences (each
// candidate in a process of its own) and replays the result.
#ifndef PBT_HH
#define PBT_HH
#include <stdint.h>
#include <stdarg.h>
#include <algorithm>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Known { std::string id, msg; };
struct Discard {};

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

class Gen {
public:
    // mode: random (rng seed) or replay (fixed choices, then zeros)
    uint64_t rng = 0;
    const uint64_t *in = NULL; size_t inLen = 0;
    std::vector<uint64_t> first; // choices fixed for this case (used to reach rare, expensive cases on purpose)
    uint64_t *rec = NULL; size_t recCap = 0; size_t pos = 0;
    bool exhausted = false;
    bool isNontrivial = false;
    std::map<std::string, uint64_t> labels;
    std::string trace;           // human readable description of the case
    bool keepTrace = true;

    uint64_t raw(uint64_t maxIncl) {
        uint64_t v;
        if (in) {
            v = pos < inLen ? in[pos] : 0;
            if (v > maxIncl) v = maxIncl == UINT64_MAX ? v : v % (maxIncl + 1);
        } else {
            v = pos < first.size() ? first[pos] : splitmix(rng);
            if (maxIncl != UINT64_MAX) v %= (maxIncl + 1);
        }
        if (pos >= recCap) throw Discard();
        rec[1 + pos] = v; rec[0] = pos + 1;
        pos++;
        return v;
    }
    // uniform in [lo,hi]; shrinks towards lo
    int64_t range(int64_t lo, int64_t hi) {
        if (hi <= lo) return lo;
        return lo + (int64_t)raw((uint64_t)(hi - lo));
    }
    bool chance(int pct) { return (int)raw(99) >= 100 - pct; } // shrinks to false
    template <class T> T pick(std::initializer_list<T> l) {
        return *(l.begin() + raw(l.size() - 1));
    }
    template <class T> const T &pick(const std::vector<T> &l) { return l[raw(l.size() - 1)]; }
    // mixture of uniform, near lo, near hi
    int64_t edge(int64_t lo, int64_t hi) {
        if (hi <= lo) return lo;
        switch (raw(5)) {
            case 0: return lo + (int64_t)raw(std::min<uint64_t>(3, hi - lo));
            case 1: return hi - (int64_t)raw(std::min<uint64_t>(3, hi - lo));
            case 2: { // log-uniform
                uint64_t span = hi - lo; int bits = 0; while (bits < 63 && (span >> bits)) bits++;
                int b = (int)raw(bits); uint64_t m = b >= 63 ? span : std::min<uint64_t>(span, (1ULL << b) - 1);
                return lo + (int64_t)(m ? raw(m) : 0);
            }
            default: return range(lo, hi);
        }
    }
    // bytes derived from one recorded seed (payload, not structure)
    void blob(unsigned char *p, size_t n) {
        uint64_t s = raw(0xffff); if (!s) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(i * 7 + 1); return; }
        uint64_t st = s * 0x2545F4914F6CDD1DULL; size_t i = 0;
        for (; i + 8 <= n; i += 8) { uint64_t v = splitmix(st); memcpy(p + i, &v, 8); }
        if (i < n) { uint64_t v = splitmix(st); memcpy(p + i, &v, n - i); }
    }
    std::vector<unsigned char> bytes(size_t n) { std::vector<unsigned char> v(n); if (n) blob(&v[0], n); else raw(0xffff); return v; }
    void label(const std::string &s) { labels[s]++; }
    std::map<std::string, uint64_t> knownHits;
    // a listed finding that does not end the case: the rest of the case is still checked
    void knownSeen(const std::string &id, const std::string &m);
    void nontrivial() { isNontrivial = true; }
    std::ostream &log() { return os; }
    std::ostringstream os;
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

[[noreturn]] inline void fail(const std::string &m) { throw Fail{m}; }
#define PBT_CHECK(c, ...) do { if (!(c)) pbt::fail(std::string(#c ": ") + pbt::fmt(__VA_ARGS__)); } while (0)

inline bool knownListed(const std::string &id) {
    const char *e = getenv("PBT_KNOWN"); if (!e) return false;
    return (std::string(",") + e + ",").find("," + id + ",") != std::string::npos;
}
[[noreturn]] inline void known(const std::string &id, const std::string &m) {
    if (knownListed(id)) throw Known{id, m};
    throw Fail{m};
}

inline void Gen::knownSeen(const std::string &id, const std::string &m) { if (!knownListed(id)) throw Fail{m}; knownHits[id]++; }

// every harness defines these
extern const char *RULE;
void property(Gen &g);
void setup();          // once per process, before any case

inline std::string jesc(const std::string &s) {
    std::string o; for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c; }
    return o;
}

static const size_t REC_CAP = 1 << 18;
inline uint64_t *mapRec(const std::string &path) {
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, (REC_CAP + 1) * 8)) { perror("rec"); _exit(3); }
    void *p = mmap(NULL, (REC_CAP + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    return (uint64_t *)p;
}
inline void writeFile(const std::string &p, const std::string &s) {
    FILE *f = fopen(p.c_str(), "w"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); }
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// 0 ok, 1 failed, 2 discarded, 3 known
inline int runOne(Gen &g, std::string &msg) {
    try { property(g); return 0; }
    catch (Fail &f) { msg = f.msg; return 1; }
    catch (Known &k) { msg = k.id + ": " + k.msg; return 3; }
    catch (Discard &) { return 2; }
    catch (std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
}
inline void onAlarm(int) { static const char m[] = "\nPBT-TIMEOUT\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(11); }
} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) {
    using namespace pbt;
    std::string mode = argc > 1 ? argv[1] : "";
    signal(SIGALRM, onAlarm); signal(SIGPIPE, SIG_IGN);
    int caseLimit = getenv("PBT_CASE_LIMIT") ? atoi(getenv("PBT_CASE_LIMIT")) : 60;
    if (mode == "run" && argc >= 3) {          // run FILE [PREFIX]: choices as text, one per line
        std::vector<uint64_t> c; FILE *f = fopen(argv[2], "r"); if (!f) return 3;
        unsigned long long v; while (fscanf(f, "%llu", &v) == 1) c.push_back(v); fclose(f);
        std::string pre = argc > 3 ? argv[3] : std::string("/dev/null");
        Gen g; std::vector<uint64_t> rec(REC_CAP + 1); g.rec = &rec[0]; g.recCap = REC_CAP;
        uint64_t dummy = 0; g.in = c.empty() ? &dummy : &c[0]; g.inLen = c.size();
        setup();
        // cases with threads of their own are repeated within a time budget: same choices, different schedules
        double rep = getenv("PBT_REPEAT") ? atof(getenv("PBT_REPEAT")) : 0, t0 = now();
        std::string msg; int r;
        do {
            g.pos = 0; g.os.str(""); g.isNontrivial = false;
            alarm(caseLimit); r = runOne(g, msg); alarm(0);
        } while (r != 1 && now() - t0 < rep);
        printf("RESULT %d\nMESSAGE %s\nUSED %llu\nTRACE\n%s\n", r, msg.c_str(), (unsigned long long)rec[0], g.os.str().c_str());
        fflush(stdout);
        _exit(r == 1 ? 10 : 0);
    }
    if (mode != "work" || argc < 8) { fprintf(stderr, "usage: work IDX N SEED CASES SECONDS PREFIX | run FILE\n"); return 3; }
    uint64_t idx = strtoull(argv[2], 0, 10), n = strtoull(argv[3], 0, 10), seed = strtoull(argv[4], 0, 10), cases = strtoull(argv[5], 0, 10);
    double secs = atof(argv[6]); std::string pre = argv[7];
    uint64_t *rec = mapRec(pre + ".cur");
    setup();
    double t0 = now(); uint64_t done = 0, discarded = 0, knownN = 0, choices = 0; bool timedOut = false;
    std::map<std::string, uint64_t> labels; std::map<std::string, uint64_t> knownIds;
    std::unordered_set<uint64_t> hashes; std::vector<std::string> samples; int rc = 0;
    for (uint64_t i = idx; i < cases; i += n) {
        if (now() - t0 > secs) { timedOut = true; break; }
        Gen g; uint64_t s = seed * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL + 12345; splitmix(s); g.rng = s;
        g.rec = rec; g.recCap = REC_CAP; rec[0] = 0;
        if (i == 0 && getenv("PBT_FIRST")) { std::istringstream is(getenv("PBT_FIRST")); uint64_t v; while (is >> v) g.first.push_back(v); }
        alarm(caseLimit);
        std::string msg; int r = runOne(g, msg);
        alarm(0);
        choices += rec[0];
        for (auto &h : g.knownHits) { knownIds[h.first] += h.second; knownN++; }
        if (r == 2) { discarded++; continue; }
        if (r == 3) { knownN++; knownIds[msg.substr(0, msg.find(':'))]++; continue; }
        if (r == 1) { writeFile(pre + ".fail", msg + "\n" + g.os.str()); rc = 10; break; }
        done++;
        for (auto &l : g.labels) labels[l.first]++;
        if (g.isNontrivial) {
            uint64_t h = 1469598103934665603ULL;
            for (uint64_t k = 0; k < rec[0]; k++) { h ^= rec[1 + k] + 0x9e3779b9; h *= 1099511628211ULL; h ^= h >> 29; }
            hashes.insert(h);
            if (samples.size() < 2) samples.push_back(g.os.str().substr(0, 1500));
        }
    }
    std::ostringstream o; o << "{\"done\":" << done << ",\"discarded\":" << discarded << ",\"known\":" << knownN << ",\"choices\":" << choices
        << ",\"timedout\":" << (timedOut ? "true" : "false") << ",\"seconds\":" << (now() - t0) << ",\"rule\":\"" << jesc(RULE) << "\",\"labels\":{";
    bool first = true; for (auto &l : labels) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
    o << "},\"knownIds\":{"; first = true; for (auto &l : knownIds) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
    o << "},\"samples\":["; first = true; for (auto &s : samples) { o << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
    o << "]}"; writeFile(pre + ".json", o.str());
    FILE *hf = fopen((pre + ".hash").c_str(), "wb"); for (auto h : hashes) fwrite(&h, 8, 1, hf); fclose(hf);
    _exit(rc);
}
#endif
#endif
