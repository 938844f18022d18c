// Shared infrastructure of all drivers: RNG, violation reporting, counters, trace digest.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t in(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool pct(unsigned p) { return below(100) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
static inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull));
    return r.next();
}

// ---- per-process reporting -------------------------------------------------------------
struct Violation { std::string code, msg; };
extern thread_local std::map<std::string, uint64_t> g_cnt;   // measured counters (go to the evidence file)
extern thread_local std::set<uint64_t> g_states;             // distinct observed states/behaviours
extern thread_local std::vector<std::string> g_samples;
extern thread_local uint64_t g_digest;                       // digest of every observable output of the episode
extern thread_local bool g_sharedStdout;                   // other threads of the process print at the same time
extern bool g_trace;                            // print each op
extern thread_local bool g_nontrivial;                       // set by an episode that exercised its property

static inline void cnt(const char *k, uint64_t n = 1) { g_cnt[k] += n; }
static inline void dig(uint64_t v) { g_digest = (g_digest ^ v) * 0x100000001B3ull; g_digest ^= g_digest >> 29; }
static inline void digBytes(const void *p, size_t n) {
    const uint8_t *b = (const uint8_t *)p;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    dig(h);
    dig(n);
}
static inline std::string fmt(const char *f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
[[noreturn]] static inline void viol(const char *code, const std::string &msg) { throw Violation{code, msg}; }
#define TRACE(...) do { if (g_trace) { fprintf(stderr, "  "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); } } while (0)

// An episode family: name -> function(seed, index)
typedef void (*EpisodeFn)(const std::string &profile, uint64_t seed, uint64_t index, bool thorough);
void coreEpisode(const std::string &, uint64_t, uint64_t, bool);
void splineEpisode(const std::string &, uint64_t, uint64_t, bool);
void queryEpisode(const std::string &, uint64_t, uint64_t, bool);
void helperEpisode(const std::string &, uint64_t, uint64_t, bool);
void fileEpisode(const std::string &, uint64_t, uint64_t, bool);
void threadEpisode(const std::string &, uint64_t, uint64_t, bool);
void configEpisode(const std::string &, uint64_t, uint64_t, bool);
void equivEpisode(const std::string &, uint64_t, uint64_t, bool);
void dispatch(const std::string &profile, uint64_t seed, uint64_t index, bool thorough);

// ---- allocation tracker of the system under test (its malloc/calloc/realloc/free are redirected here)
extern "C" {
void *vp_malloc(size_t);
void *vp_calloc(size_t, size_t);
void *vp_realloc(void *, size_t);
void vp_free(void *);
}
void exampleEpisode(uint64_t ix);
size_t vpLive();                 // live allocations made by the SUT
size_t vpAllocs();               // total allocations made
void vpReset();                  // frees whatever is left (between episodes)
extern thread_local int g_mallocFill;         // prior content of fresh allocations (-1: leave)

