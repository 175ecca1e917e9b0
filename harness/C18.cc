#include "mt.h"
using h::Rng; using namespace jungle;
static const uint64_t NI = ~0ULL;
struct V { uint64_t q; bool del; std::string val; };
typedef std::map<std::string, std::vector<V>> M;
static int rev(void* a, size_t n, void* b, size_t m, void*) { int c = memcmp(a, b, std::min(n, m)); if (!c) c = n < m ? -1 : n > m ? 1 : 0; return -c; }
static SizedBuf fold(const HashKeyLenParams& p) { return SizedBuf(std::min<size_t>(2, p.key.size), p.key.data); }
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    while (h::more()) {
        h::begin("versions and snapshots"); mt::Env e; bool custom = r.chance(20), cmds = r.chance(30); if (custom) { e.cfg.cmpFunc = rev; e.cfg.cmpFuncParam = nullptr; }
        e.t()->init(0); M m; size_t n = 1 + r.below(80); uint64_t q = 0, fl = NI; std::string pool = "ab\xff"; pool.push_back('\0');
        auto key = [&]() { std::string k; size_t l = 1 + r.below(4); for (size_t i = 0; i < l; ++i) k.push_back(pool[r.below(4)]); return k; };
        std::map<uint64_t, std::pair<std::string, V>> all;
        auto put = [&]() {
            std::string k = key(), val = "v" + std::to_string(q + 1); Record rec; rec.kv.key = SizedBuf(k); rec.kv.value = SizedBuf(val); bool del = r.chance(25), cmd = cmds && r.chance(10); rec.type = cmd ? Record::COMMAND : del ? Record::DELETION : Record::INSERTION;
            if (r.chance(20)) { q += 1 + r.below(4); rec.seqNum = q; } else ++q;
            Status s = e.t()->putNewRecord(rec); CHECK(s.ok(), "put"); if (!cmd) m[k].push_back({q, del, val}); all[q] = {k, {q, del, val}}; h::log("put %zu-byte key seq %lu %s", k.size(), q, cmd ? "cmd" : del ? "del" : "ins");
        };
        for (size_t i = 0; i < n; ++i) put();
        for (int round = 0; round < 3; ++round) {
            if (round && r.chance(60)) {
                uint64_t b = 1 + r.below(q + 2); bool back = r.chance(50); Status s = e.t()->discardDirty(b, back); CHECK(s.ok(), "discard"); h::log("discard %lu", b); if (!back && b <= q) {}
                for (auto& x : m) while (x.second.size() && x.second.back().q >= b) x.second.pop_back();
                all.erase(all.lower_bound(b), all.end()); uint64_t ctr = e.t()->getSeqCounter(); CHECK(ctr == NI || ctr <= q, "counter went up"); if (ctr == NI) break; q = ctr; if (q < b - 1) q = ctr;
                for (size_t i = r.below(12); i--;) put();
            }
            if (r.chance(40)) { e.lf->setSyncedSeqNum(q); e.lf->setFlushedSeqNum(fl = 1 + r.below(q)); fl = e.lf->getFlushedSeqNum(); h::log("flushed %lu", fl); }
            auto less = [&](const std::string& a, const std::string& b) { int x = SizedBuf::cmp(SizedBuf(a), SizedBuf(b)); return custom ? x > 0 : x < 0; };
            std::vector<std::string> ks; for (auto& x : m) ks.push_back(x.first); std::sort(ks.begin(), ks.end(), less);
            auto see = [&](const std::string& k, uint64_t chk, bool af, bool at) -> const V* { auto i = m.find(k); if (i == m.end()) return nullptr; const V* b = nullptr; for (auto& x : i->second) if (chk == NI || x.q <= chk) b = &x; if (b && fl != NI && b->q <= fl && !af) return nullptr; if (b && b->del && !at) return nullptr; return b; };
            for (int i = 0; i < 25; ++i) {
                std::string k = r.chance(80) && ks.size() ? ks[r.below(ks.size())] : key(); uint64_t chk = r.chance(30) ? NI : r.below(q + 2); bool af = r.chance(50), at = r.chance(50); Record o; SizedBuf kb(k);
                Status s = e.t()->getRecordByKey(chk, kb, o, af, at); const V* w = see(k, chk, af, at); CHECK(s.ok() == (w != nullptr), "get at %ld: %d, expected %d", (long)chk, (int)s.ok(), w != nullptr);
                if (w) CHECK(o.seqNum == w->q && o.isDel() == w->del && o.kv.key.toString() == k && (w->del || o.kv.value.toString() == w->val), "get at %ld: seq %lu, expected %lu", (long)chk, o.seqNum, w->q);
                // nearest: the versions of the nearest stored key decide
                for (int op = 0; op < 5; ++op) {
                    SearchOptions so((SearchOptions::Options)op); const std::string* t = nullptr; bool ex = so.isExactMatchAllowed(), up = op == SearchOptions::GREATER || op == SearchOptions::GREATER_OR_EQUAL;
                    for (auto& x : ks) { bool l = less(x, k), g = less(k, x); if (!l && !g) { if (ex) t = &x; } else if (op == SearchOptions::EQUAL) continue; else if (up && g && !(t && (up ? !less(x, *t) : false))) t = &x; else if (!up && l && !(t && !less(*t, x))) t = &x; }
                    Record p; Status z = e.t()->getNearestRecordByKey(chk, kb, p, af, at, so); const V* y = t ? see(*t, chk, af, at) : nullptr; CHECK(z.ok() == (y != nullptr), "nearest option %d: %d, expected %d", op, (int)z.ok(), y != nullptr);
                    if (y) CHECK(p.seqNum == y->q && p.kv.key.toString() == *t, "nearest option %d: seq %lu, expected %lu", op, p.seqNum, y->q);
                }
            }
            if (!custom) for (int i = 0; i < 6; ++i) {
                std::string p = key().substr(0, 1 + r.below(2)); uint64_t chk = r.chance(30) ? NI : r.below(q + 2); bool af = r.chance(50), at = r.chance(50); std::vector<uint64_t> want, got; size_t stop = r.chance(30) ? 1 + r.below(5) : 1000;
                for (auto& k : ks) if (k.compare(0, p.size(), p) == 0) { const V* w = see(k, chk, af, at); if (w && want.size() < stop) want.push_back(w->q); }
                SizedBuf pb(p); e.t()->getRecordsByPrefix(chk, pb, [&](const SearchCbParams& x) { got.push_back(x.rec.seqNum); return got.size() >= stop ? SearchCbDecision::STOP : SearchCbDecision::NEXT; }, af, at);
                CHECK(got == want, "prefix of %zu bytes at %ld: %zu records, expected %zu", p.size(), (long)chk, got.size(), want.size());
            }
            for (auto& k : ks) { // liveness in a window
                Record rec; rec.kv.key = SizedBuf(k); MemTable::RecNode* nd = e.t()->findRecNode(&rec); uint64_t lo = r.chance(50) ? NI : r.below(q + 2), up = r.chance(30) ? NI : r.below(q + 2); bool at = r.chance(50);
                const V* b = nullptr; for (auto& x : m[k]) if (up == NI || x.q <= up) b = &x; if (b && lo != NI && b->q < lo) b = nullptr;
                bool live = nd->validKeyExist(lo, up, at); CHECK(live == (b && (at || !b->del)), "liveness of a key in [%ld, %ld]: %d", (long)lo, (long)up, (int)live); skiplist_release_node(&nd->snode);
            }
            for (auto& x : all) { Record o; Status s = e.t()->findRecordBySeq(x.first, o); bool gone = fl != NI && x.first <= fl; CHECK(s.ok() == !gone, "find %lu: %d", x.first, (int)s.ok()); if (s.ok()) CHECK(o.kv.key.toString() == x.second.first, "find %lu: wrong record", x.first); }
        }
        if (m.size() > 5) ++h::nontrivial;
    }
    return h::done();
}
