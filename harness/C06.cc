#include "common.h"
#include <libjungle/record.h>
#include <sys/mman.h>
using namespace jungle; using h::Rng;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int ref(const std::string& a, const std::string& b) {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) if ((uint8_t)a[i] != (uint8_t)b[i]) return (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size();
}
static void chk(const SizedBuf& x, const SizedBuf& y, int e) {
    CHECK(sgn(SizedBuf::cmp(x, y)) == e, "cmp = %d expected sign %d (sizes %u %u)", SizedBuf::cmp(x, y), e, x.size, y.size);
    CHECK((x == y) == (e == 0), "=="); CHECK((x != y) == (e != 0), "!="); CHECK((x < y) == (e < 0), "< gives %d expected %d", (int)(x < y), e); CHECK((x <= y) == (e <= 0), "<=");
    CHECK((x > y) == (e > 0), ">"); CHECK((x >= y) == (e >= 0), ">=");
    Record r1, r2; r1.kv.key = x; r2.kv.key = y; CHECK(Record::Less()(&r1, &r2) == (e < 0), "Record::Less");
}
static SizedBuf exact(const std::string& s) { SizedBuf b; if (s.size()) { void* p = malloc(s.size()); memcpy(p, s.data(), s.size()); b.set(s.size(), p); } return b; }
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    // very large sizes: shared zero pages
    { size_t big = 0xfffffff0u; char* p = (char*)mmap(0, big, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p != MAP_FAILED) { h::begin("huge sizes");
        uint32_t sz[] = {1, 2, 100, 0x7fffffffu, 0x80000000u, 0x80000001u, 0x90000000u, 0xffffffe0u};
        for (auto a : sz) for (auto b : sz) if (std::min(a, b) <= 100) { h::log("sizes %u %u", a, b); chk(SizedBuf(a, p), SizedBuf(b, p), a < b ? -1 : a > b); }
        munmap(p, big); } }
    while (h::more()) {
        h::begin("cmp");
        std::string a = r.bytes(r.below(r.chance(10) ? 300 : 12)), b = r.chance(60) ? a : r.bytes(r.below(12));
        if (r.chance(50) && !b.empty()) b[r.below(b.size())] ^= 1 << r.below(8);
        if (r.chance(40)) b = b.substr(0, r.below(b.size() + 1)); else if (r.chance(30)) b += r.bytes(1 + r.below(4));
        h::log("a=%s b=%s", h::hex(a.data(), a.size()).c_str(), h::hex(b.data(), b.size()).c_str());
        SizedBuf x = exact(a), y = exact(b); chk(x, y, ref(a, b)); chk(y, x, ref(b, a)); chk(x, x, 0);
        free(x.data); free(y.data); if (a != b) ++h::nontrivial;
    }
    return h::done();
}
