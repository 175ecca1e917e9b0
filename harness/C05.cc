#include "common.h"
#include "generic_bitmap.h"
using h::Rng;
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    while (h::more()) {
        h::begin("bitmap"); size_t n = 1 + r.below(r.chance(20) ? 5000 : 70); std::vector<bool> m(n, false); GenericBitmap* b;
        if (r.chance(50)) { b = new GenericBitmap(n, r.chance(50) ? 0 : 1 << r.below(4)); h::log("zero %zu", n); }
        else { size_t mem = (n + 7) / 8 + r.below(3); std::string s = r.bytes(mem); char* src = (char*)malloc(mem); memcpy(src, s.data(), mem); 
            b = new GenericBitmap(src, mem, n); h::log("copy %zu bits %s", n, h::hex(s.data(), mem).c_str()); CHECK(!memcmp(src, s.data(), mem), "source changed"); free(src);
            for (size_t i = 0; i < n; ++i) m[i] = ((uint8_t)s[i / 8] >> (7 - i % 8)) & 1; CHECK(b->getMemorySize() == mem, "memory size"); }
        size_t ops = r.below(200);
        for (size_t i = 0; i < ops; ++i) {
            size_t x = r.chance(30) ? n - 1 - r.below(std::min<size_t>(n, 9)) : r.below(n);
            switch (r.below(8)) {
            case 0: { size_t mem = (n + 7) / 8; std::string s = r.bytes(mem); char* src = (char*)malloc(mem); memcpy(src, s.data(), mem); if (r.chance(20)) { b->moveFrom(src, mem, n); h::log("move %s", h::hex(s.data(), mem).c_str()); for (size_t j = 0; j < n; ++j) m[j] = ((uint8_t)s[j / 8] >> (7 - j % 8)) & 1; CHECK(b->getPtr() == src, "moveFrom copies"); } else free(src); break; }
            case 1: case 2: case 3: { bool val = r.chance(50); h::log("set %zu %d", x, val); CHECK(b->set(x, val) == m[x], "set returns previous value, bit %zu", x); m[x] = val; break; }
            default: CHECK(b->get(x) == m[x], "get %zu", x);
            }
        }
        CHECK(b->size() == n, "size"); for (size_t j = 0; j < n; ++j) { CHECK(b->get(j) == m[j], "bit %zu", j); CHECK(((((uint8_t*)b->getPtr())[j / 8] >> (7 - j % 8)) & 1) == m[j], "stored bit %zu", j); }
        delete b; if (ops > 5) ++h::nontrivial;
    }
    return h::done();
}
