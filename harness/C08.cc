#include "common.h"
#include "table_lookup_booster.h"
using h::Rng; using namespace jungle;
struct E { bool used = false; uint32_t h = 0; uint64_t s = 0, o = 0; };
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    while (h::more()) {
        size_t n = r.chance(10) ? 1 : 1 + r.below(r.chance(20) ? 2000 : 40); h::begin("booster"); h::log("slots %zu", n);
        TableLookupBooster b(n, nullptr, nullptr); std::vector<E> m(n); CHECK(b.size() == n, "size");
        std::vector<uint32_t> pool; for (int i = 0; i < 12; ++i) pool.push_back(r.chance(20) ? 0 : r.chance(30) ? (uint32_t)r.below(n) : (uint32_t)r.word());
        pool.push_back((uint32_t)(pool[3] + n)); pool.push_back((uint32_t)(pool[4] % n)); int mono = r.chance(50); uint64_t seq = 1;
        auto look = [&](uint32_t x) { uint64_t o = 0x1234567; Status s = b.get(x, o); E& e = m[x % n]; bool hit = e.used && e.h == x; CHECK(s.ok() == hit, "get %u: %d, expected hit %d", x, (int)s.ok(), hit); if (hit) CHECK(o == e.o, "get %u: location %lu, expected %lu", x, o, e.o); };
        for (auto x : pool) look(x);
        size_t ops = r.below(150);
        for (size_t i = 0; i < ops; ++i) {
            uint32_t x = r.chance(90) ? pool[r.below(pool.size())] : (uint32_t)r.next();
            if (r.chance(50)) { uint64_t s = mono ? seq++ : r.chance(70) ? r.below(20) : r.word(), o = r.chance(60) ? r.below(1000) : r.word(); if (o == ~0ULL) o = 7;
                h::log("set %u seq %lu off %lu", x, s, o); E& e = m[x % n]; bool ok = !(e.used && e.h == x && e.s >= s); Status st = b.setIfNew(TableLookupBooster::Elem(x, s, o)); CHECK(st.ok() == ok, "setIfNew %u: %d, expected %d", x, (int)st.ok(), ok); if (ok) e = E{true, x, s, o}; }
            look(x); look(pool[r.below(pool.size())]);
        }
        for (auto x : pool) look(x);
        if (ops > 20) ++h::nontrivial;
    }
    return h::done();
}
