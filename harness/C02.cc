#include "common.h"
#include "crc32.h"
using h::Rng;
static uint32_t ref(const uint8_t* p, size_t n, uint32_t prev) {
    uint32_t c = ~prev;
    while (n--) { c ^= *p++; for (int i = 0; i < 8; ++i) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1; }
    return ~c;
}
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    CHECK(crc32_8("123456789", 9, 0) == 0xCBF43926u, "check value");
    while (h::more()) {
        h::begin("crc"); size_t n = r.below(r.chance(5) ? 5000 : 70), off = r.below(9); uint32_t p = r.chance(40) ? 0 : (uint32_t)r.word();
        std::string s = r.bytes(n); uint8_t* b = (uint8_t*)malloc(off + n); memcpy(b + off, s.data(), n);
        h::log("n=%zu align=%zu prev=%08x data=%s", n, off, p, h::hex(b + off, n).c_str());
        uint32_t e = ref(b + off, n, p);
        CHECK(crc32_1(b + off, n, p) == e, "crc32_1"); CHECK(crc32_8(b + off, n, p) == e, "crc32_8");
        size_t m = n < 8 ? n : 8; CHECK(crc32_8_last8(b + off, n, p) == ref(b + off + n - m, m, p), "crc32_8_last8");
        size_t cut = r.below(n + 1);
        CHECK(crc32_8(b + off + cut, n - cut, crc32_8(b + off, cut, p)) == e, "pieces cut=%zu", cut);
        CHECK(crc32_1(b + off + cut, n - cut, crc32_8(b + off, cut, p)) == e, "mixed pieces cut=%zu", cut);
        CHECK(!memcmp(b + off, s.data(), n), "input changed"); free(b); if (n > 8) ++h::nontrivial;
    }
    return h::done();
}
