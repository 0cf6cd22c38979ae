// Bounded exhaustive enumeration engine (see DESIGN.md, "engine").
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace mc {
extern bool thorough;          // VERIF_TIER=thorough
extern uint64_t seed;
extern int shard, nshards;
extern std::string scratch;    // private directory of this shard

// One case of the enumeration: every shard walks the same sequence; next()
// returns true in the shard that has to run the case.
bool next();
uint64_t index();              // index of the current case
void phase(const char *name);  // names the part of the space being enumerated
void desc(const char *fmt, ...) __attribute__((format(printf,1,2)));
void desc_s(const std::string &s);
// A violation at the current case.  `key` identifies what failed (for known findings).
void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf,2,3)));
void state(uint64_t h);        // a reference-model state (counted once each)
void trans(uint64_t n = 1);    // model transitions / oracle comparisons
void trace(uint64_t n = 1);    // executions of the implementation compared with the model
void sample(const std::string &s);
void count(const char *name, uint64_t n = 1); // extra counters for the evidence
void harness_error(const char *fmt, ...) __attribute__((format(printf,1,2)));
void set_hang(double sec);
void beat();                   // tells the watchdog that the current case makes progress
bool failed();                 // did the current case fail?

inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
inline std::string strf(const char *fmt, ...) __attribute__((format(printf,1,2)));
inline std::string strf(const char *fmt, ...) {
    va_list v; va_start(v, fmt); char *p = nullptr; int n = vasprintf(&p, fmt, v); va_end(v);
    std::string s(p, (size_t)n); free(p); return s;
}
}
void mc_main();                // the check: enumerates all cases
