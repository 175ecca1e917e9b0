#include "common.h"
#include "bloomfilter.h"
#include "murmurhash3.h"
using h::Rng;
static void pair_of(const std::string& k, uint64_t* o) { MurmurHash3_x64_128(k.data(), (int)k.size(), 0, o); }
struct Ref { size_t n; int hc; std::vector<bool> b; 
    bool check(uint64_t* p) { for (int i = 0; i < hc; ++i) if (!b[(p[0] + (uint64_t)i * p[1]) % n]) return false; return true; } 
    void set(uint64_t* p) { for (int i = 0; i < hc; ++i) b[(p[0] + (uint64_t)i * p[1]) % n] = true; } };
static std::string key(Rng& r, std::vector<std::string>& keys) { if (!keys.empty() && r.chance(40)) return keys[r.below(keys.size())]; return r.bytes(r.chance(5) ? r.below(5000) : r.below(40)); }
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    while (h::more()) {
        h::begin("bloom"); size_t want = 1 + r.below(r.chance(20) ? 40000 : 300); int hc = r.chance(5) ? 1 + r.below(255) : 1 + r.below(9);
        BloomFilter* f = new BloomFilter(want, hc); h::log("bits %zu hash %d", want, hc);
        CHECK(f->size() >= want && f->size() < want + 8 && f->size() % 8 == 0, "size %zu", (size_t)f->size());
        Ref m{f->size(), hc, std::vector<bool>(f->size(), false)}; std::vector<std::string> keys; std::vector<std::pair<uint64_t, uint64_t>> pairs;
        size_t ops = r.below(120);
        for (size_t i = 0; i < ops; ++i) {
            uint64_t p[2];
            switch (r.below(10)) {
            case 0: case 1: { std::string k = key(r, keys); std::string k0 = k; h::log("add %zu:%s", k.size(), h::hex(k.data(), k.size()).c_str()); f->set((void*)k.data(), k.size()); CHECK(k == k0, "key changed"); pair_of(k, p); m.set(p); keys.push_back(k); break; }
            case 2: { p[0] = r.word(); p[1] = r.word(); h::log("addpair %lx %lx", p[0], p[1]); f->set(p); m.set(p); pairs.emplace_back(p[0], p[1]); break; }
            case 3: case 4: case 5: { std::string k = key(r, keys); pair_of(k, p); CHECK(f->check((void*)k.data(), k.size()) == m.check(p), "check of key %s: filter %d", h::hex(k.data(), k.size()).c_str(), f->check((void*)k.data(), k.size())); break; }
            case 6: { if (!pairs.empty() && r.chance(50)) { auto& q = pairs[r.below(pairs.size())]; p[0] = q.first; p[1] = q.second; } else { p[0] = r.word(); p[1] = r.word(); } CHECK(f->check(p) == m.check(p), "check of pair %lx %lx", p[0], p[1]); break; }
            case 7: { std::string k = key(r, keys); pair_of(k, p); CHECK(f->check(p) == f->check((void*)k.data(), k.size()), "key and its pair differ"); break; }
            case 8: { if (!r.chance(25)) break; size_t n = f->size() / 8; h::log("export/import"); char* b = (char*)malloc(n); f->exportBitmap(b, n); BloomFilter* g;
                if (r.chance(50)) { g = new BloomFilter(b, n, hc); memset(b, 0x5a, n); free(b); } else { g = new BloomFilter(0, hc); g->moveBitmapFrom(b, n); }
                CHECK(g->size() == f->size(), "imported size %zu of %zu", (size_t)g->size(), (size_t)f->size()); delete f; f = g; break; }
            default: { if (!r.chance(25)) break; size_t n = f->size() / 8; std::string b(n, 0); f->exportBitmap(&b[0], n); for (size_t j = 0; j < n * 8; ++j) CHECK((((uint8_t)b[j / 8] >> (7 - j % 8)) & 1) == m.b[j], "exported bit %zu", j); }
            }
        }
        for (auto& k : keys) CHECK(f->check((void*)k.data(), k.size()), "added key denied %s", h::hex(k.data(), k.size()).c_str());
        for (auto& q : pairs) { uint64_t p[2] = {q.first, q.second}; CHECK(f->check(p), "added pair denied"); }
        size_t n = f->size() / 8; CHECK(!n || !memcmp(f->getPtr(), f->getPtr(), n), "ptr");
        delete f; if (keys.size() > 3) ++h::nontrivial;
    }
    return h::done();
}
