#include "mt.h"
using h::Rng; using namespace jungle;
static const uint64_t NI = ~0ULL;
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    while (h::more()) {
        h::begin("sequence numbers"); mt::Env e; bool over = r.chance(25); e.cfg.allowOverwriteSeqNum = over; uint64_t start = r.chance(40) ? 0 : r.chance(70) ? 1 + r.below(50) : r.word() >> 1;
        e.t()->init(start); if (start) e.lf->updateMaxSeqNum(start - 1); h::log("start %lu overwrite %d", start, over);
        std::map<uint64_t, std::string> m; uint64_t last = 0, mn = NI, mx = start ? start - 1 : NI, fl = NI, sy = NI; size_t n = r.below(60); bool any = false;
        for (size_t i = 0; i < n; ++i) {
            bool expl = r.chance(40), cmd = r.chance(5), del = r.chance(20); uint64_t g = NI;
            if (expl) { uint64_t base = any ? last : start ? start : 1; int k = r.below(6); g = k == 0 ? base : k == 1 ? base + 1 : k == 2 ? base + 1 + r.below(30) : k == 3 ? base - r.below(std::min<uint64_t>(base, 20)) : k == 4 && any ? mn - (mn > 1) : base + 2; if (!g || g == NI) g = 1; }
            std::string key = "k" + std::to_string(r.below(8)), val = "v" + std::to_string(i);
            Record rec; rec.kv.key = SizedBuf(key); rec.kv.value = SizedBuf(val); rec.seqNum = g; rec.type = cmd ? Record::COMMAND : del ? Record::DELETION : Record::INSERTION;
            bool rej = expl && any && ((g <= last && !over) || g < mn); bool lf = r.chance(50);
            Status s = lf ? e.lf->setSN(rec) : e.t()->putNewRecord(rec); h::log("put %s -> %d", expl ? std::to_string(g).c_str() : "auto", (int)s.ok());
            CHECK(s.ok() == !rej, "put %lu: %d, expected rejected %d (last %lu, min %lu)", g, (int)s.ok(), (int)rej, last, mn);
            CHECK(rec.seqNum == g, "the given record changed");
            if (lf && expl && over && g <= mx && mx != NI) { if (fl != NI && g <= fl) fl = g - 1; if (sy != NI && g <= sy) sy = g - 1; }
            if (!rej) {
                uint64_t q = expl ? g : any ? last + 1 : (start ? start : 1); if (!any) mn = q; any = true; last = q; mx = mx == NI ? q : std::max(mx, q); m[q] = del && !cmd ? "" : val;
                CHECK(e.t()->getSeqCounter() == q, "counter %lu, expected %lu", e.t()->getSeqCounter(), q);
            }
            CHECK(e.lf->getMinSeqNum() == mn, "min %lu, expected %lu", e.lf->getMinSeqNum(), mn); CHECK(e.lf->getMaxSeqNum() == mx, "max %lu, expected %lu", e.lf->getMaxSeqNum(), mx);
            CHECK(e.t()->getNumLogs() == m.size(), "%zu records, expected %zu", e.t()->getNumLogs(), m.size());
            if (any && r.chance(15)) { uint64_t x = r.chance(50) ? last : mn + r.below(10); e.lf->setSyncedSeqNum(x); sy = std::min(x, mx); }
            if (any && sy != NI && r.chance(15)) { uint64_t x = r.chance(50) ? sy : mn + r.below(10); e.lf->setFlushedSeqNum(x); fl = std::min(x, sy); }
            CHECK(e.lf->getSyncedSeqNum() == sy, "synced %lu, expected %lu", e.lf->getSyncedSeqNum(), sy); CHECK(e.lf->getFlushedSeqNum() == fl, "flushed %lu, expected %lu", e.lf->getFlushedSeqNum(), fl);
        }
        for (auto& x : m) { Record o; Status s = e.t()->findRecordBySeq(x.first, o); bool gone = fl != NI && x.first <= fl; CHECK(s.ok() == !gone, "find %lu: %d", x.first, (int)s.ok()); if (s.ok()) CHECK(o.seqNum == x.first && o.kv.value.toString() == x.second, "find %lu: wrong record", x.first); }
        if (m.size() > 5) ++h::nontrivial;
    }
    return h::done();
}
