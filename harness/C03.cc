#include "common.h"
#include "internal_helper.h"
#include <libjungle/jungle.h>
using namespace jungle; using h::Rng;
// independent transcription of the published algorithms (byte-wise loads), checked by SMHasher's verification values
static uint32_t R4(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint64_t R8(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static uint64_t ld(const uint8_t* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint32_t f32(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; return h ^ h >> 16; }
static uint64_t f64(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; return k ^ k >> 33; }
static void r32(const uint8_t* p, int n, uint32_t s, uint8_t* o) {
    uint32_t a = s; int i = 0;
    for (; n - i >= 4; i += 4) { uint32_t k = ld(p + i, 4); a ^= R4(k * 0xcc9e2d51u, 15) * 0x1b873593u; a = R4(a, 13) * 5 + 0xe6546b64u; }
    if (n - i) a ^= R4((uint32_t)ld(p + i, n - i) * 0xcc9e2d51u, 15) * 0x1b873593u;
    a = f32(a ^ n); memcpy(o, &a, 4);
}
static void r86(const uint8_t* p, int n, uint32_t s, uint8_t* o) {
    static const uint32_t C[5] = {0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93, 0x239b961b}, A[4] = {0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17}; static const int H[4] = {19, 17, 15, 13};
    uint32_t h[4] = {s, s, s, s}; int i = 0;
    for (; n - i >= 16; i += 16) for (int j = 0; j < 4; ++j) { h[j] ^= R4((uint32_t)ld(p + i + 4 * j, 4) * C[j], 15 + j) * C[j + 1]; h[j] = (R4(h[j], H[j]) + h[(j + 1) & 3]) * 5 + A[j]; }
    for (int j = 0; j < 4; ++j) { int m = std::min(4, n - i - 4 * j); if (m > 0) h[j] ^= R4((uint32_t)ld(p + i + 4 * j, m) * C[j], 15 + j) * C[j + 1]; }
    for (auto& x : h) x ^= n;
    for (int t = 0; t < 2; ++t) { uint32_t q = h[0] + h[1] + h[2] + h[3]; h[0] = q; for (int j = 1; j < 4; ++j) h[j] += q; if (!t) for (auto& x : h) x = f32(x); }
    memcpy(o, h, 16);
}
static void r64(const uint8_t* p, int n, uint32_t s, uint8_t* o) {
    const uint64_t c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL; uint64_t a = s, b = s; int i = 0;
    for (; n - i >= 16; i += 16) { a ^= R8(ld(p + i, 8) * c1, 31) * c2; a = (R8(a, 27) + b) * 5 + 0x52dce729; b ^= R8(ld(p + i + 8, 8) * c2, 33) * c1; b = (R8(b, 31) + a) * 5 + 0x38495ab5; }
    int m = n - i; if (m > 8) b ^= R8(ld(p + i + 8, m - 8) * c2, 33) * c1; if (m > 0) a ^= R8(ld(p + i, std::min(8, m)) * c1, 31) * c2;
    a ^= n; b ^= n; a += b; b += a; a = f64(a); b = f64(b); a += b; b += a; memcpy(o, &a, 8); memcpy(o + 8, &b, 8);
}
typedef void (*RF)(const uint8_t*, int, uint32_t, uint8_t*);
static uint32_t verif(std::function<void(const uint8_t*, int, uint32_t, uint8_t*)> f, int w) {
    std::vector<uint8_t> key(256), hs(256 * w), fin(w);
    for (int i = 0; i < 256; ++i) { key[i] = i; f(key.data(), i, 256 - i, &hs[i * w]); }
    f(hs.data(), 256 * w, 0, fin.data()); return (uint32_t)ld(fin.data(), 4);
}
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    struct { RF ref; void (*real)(const void*, int, uint32_t, void*); int w; uint32_t ver; const char* nm; } F[3] = {
        {r32, MurmurHash3_x86_32, 4, 0xB0F57EE3u, "x86_32"}, {r86, [](const void* k, int n, uint32_t s, void* o) { MurmurHash3_x86_128(k, n, s, o); }, 16, 0xB3ECE62Au, "x86_128"},
        {r64, [](const void* k, int n, uint32_t s, void* o) { MurmurHash3_x64_128(k, n, s, o); }, 16, 0x6384BA69u, "x64_128"}};
    for (auto& f : F) { h::begin("verification value"); h::log("%s", f.nm); CHECK(verif(f.ref, f.w) == f.ver, "reference of the harness itself is wrong for %s", f.nm); }
    while (h::more()) {
        h::begin("hash"); size_t n = r.below(r.chance(3) ? 3000 : 50); uint32_t s = r.chance(30) ? 0 : (uint32_t)r.word(); std::string k = r.bytes(n);
        size_t al = r.below(5); uint8_t* b = (uint8_t*)malloc(al + n + (n + al == 0)); memcpy(b + al, k.data(), n); h::log("n=%zu seed=%x key=%s", n, s, h::hex(b + al, n).c_str());
        for (auto& f : F) {
            uint8_t e[16], g[20]; memset(g, 0xa5, 20); f.ref(b + al, n, s, e); f.real(b + al, n, s, g);
            CHECK(!memcmp(e, g, f.w), "%s: %s expected %s", f.nm, h::hex(g, f.w).c_str(), h::hex(e, f.w).c_str());
            for (int i = f.w; i < 20; ++i) CHECK(g[i] == 0xa5, "%s wrote past its output", f.nm);
        }
        CHECK(!memcmp(b + al, k.data(), n), "key changed");
        SizedBuf sb(n, b + al); uint8_t e[16]; uint32_t e4; uint64_t e8[2]; r32(b + al, n, 0, (uint8_t*)&e4); r64(b + al, n, 0, (uint8_t*)e8);
        size_t lim = 1 + r.below(1000);
        CHECK(get_murmur_hash_32(sb) == e4, "get_murmur_hash_32"); CHECK(get_murmur_hash(sb, lim) == e4 % lim, "get_murmur_hash"); CHECK(get_murmur_hash_64(sb) == e8[0], "get_murmur_hash_64");
        uint64_t pr[2]; CHECK(!get_hash_pair(nullptr, sb, false, pr) && pr[0] == e8[0] && pr[1] == e8[1], "get_hash_pair without config");
        DBConfig cfg; CHECK(!get_hash_pair(&cfg, sb, r.chance(50), pr) && pr[0] == e8[0] && pr[1] == e8[1], "get_hash_pair plain");
        size_t cl = r.below(n + 4); cfg.customLenForHash = [cl](const HashKeyLenParams& p) { return cl; };
        bool used = cl && cl <= n; r64(b + al, used ? cl : n, 0, (uint8_t*)e8);
        CHECK(get_hash_pair(&cfg, sb, r.chance(50), pr) == used && pr[0] == e8[0] && pr[1] == e8[1], "get_hash_pair custom %zu of %zu", cl, n);
        free(b); if (n > 16) ++h::nontrivial;
    }
    return h::done();
}
