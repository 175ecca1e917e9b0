// Shared by all harnesses: options, random numbers, failure reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <chrono>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>

namespace h {
static uint64_t seed = 1; static double limit = 5; static std::string dir = "."; static uint64_t cases = 0, nontrivial = 0;
static std::string only;
static std::string ctx;       // description of the current case, printed on failure
static std::chrono::steady_clock::time_point t0;
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned pct) { return below(100) < pct; }
    // integers biased to boundaries
    uint64_t word() {
        switch (below(6)) {
        case 0: return below(4);
        case 1: return ~0ULL - below(4);
        case 2: { uint64_t v = 1ULL << below(64); return v + below(3) - 1; }
        case 3: return below(1 << 16);
        default: return next();
        }
    }
    std::string bytes(size_t n) { std::string r(n, 0); unsigned m = below(4); for (auto& c : r) c = m == 0 ? 0 : m == 1 ? (char)('a' + below(3)) : (char)next(); return r; }
};
static inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
static inline bool more() { return elapsed() < limit; }
[[noreturn]] static inline void fail(const char* f, int l, const char* fmt, ...) {
    va_list a; va_start(a, fmt); char b[4096]; vsnprintf(b, sizeof b, fmt, a); va_end(a);
    printf("FAIL %s:%d %s\n", f, l, b);
    printf("CASE %s\n", ctx.substr(ctx.size() > 20000 ? ctx.size() - 20000 : 0).c_str());
    printf("STATS cases=%lu nontrivial=%lu seed=%lu\n", (unsigned long)cases, (unsigned long)nontrivial, (unsigned long)seed);
    fflush(stdout); _exit(3);
}
#define FAIL(...) h::fail(__FILE__, __LINE__, __VA_ARGS__)
#define CHECK(c, ...) do { if (!(c)) h::fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
static inline std::string hex(const void* p, size_t n) { std::string r; char b[4]; for (size_t i = 0; i < n && i < 64; ++i) { snprintf(b, 4, "%02x", ((const uint8_t*)p)[i]); r += b; } if (n > 64) r += "..."; return r; }
static inline void log(const char* fmt, ...) { va_list a; va_start(a, fmt); char b[2048]; vsnprintf(b, sizeof b, fmt, a); va_end(a); ctx += b; ctx += "; "; }
extern "C" void __asan_set_death_callback(void (*)()) __attribute__((weak));
static inline void on_death() { printf("CASE %s\n", ctx.substr(ctx.size() > 20000 ? ctx.size() - 20000 : 0).c_str()); fflush(stdout); }
static inline void init(int c, char** v) {
    for (int i = 1; i + 1 < c; i += 2) {
        std::string k = v[i];
        if (k == "--seed") seed = strtoull(v[i + 1], 0, 10); else if (k == "--time") limit = atof(v[i + 1]); else if (k == "--dir") dir = v[i + 1]; else if (k == "--only") only = v[i + 1];
    }
    t0 = std::chrono::steady_clock::now();
    if (__asan_set_death_callback) __asan_set_death_callback(on_death);
}
static inline int done() { printf("STATS cases=%lu nontrivial=%lu seed=%lu\n", (unsigned long)cases, (unsigned long)nontrivial, (unsigned long)seed); return 0; }
static inline void begin(const char* what) { ctx = what; ctx += ": "; ++cases; }
}
#ifdef H_NOSLEEP
#include <time.h>
// retry loops of the code under test sleep; time is irrelevant to the properties
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return 0; }
extern "C" int usleep(unsigned) { return 0; }
#endif
