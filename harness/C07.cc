#include "common.h"
#include <libjungle/record.h>
using namespace jungle; using h::Rng;
// heap accounting: every block the buffers own is released exactly once (ASan reports double free / use after free; this counts leaks)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
struct Track { size_t base; Track() : base(__sanitizer_get_current_allocated_bytes()) {} long diff() { return (long)__sanitizer_get_current_allocated_bytes() - (long)base; } };
static SizedBuf mk(Rng& r, std::string& s, int& own) {
    s = r.bytes(r.below(3) ? 1 + r.below(40) : 0); own = s.empty() ? 0 : r.below(3); SizedBuf b;
    if (own == 1) b.alloc(s); else if (own == 2) { char* p = new char[s.size()]; memcpy(p, s.data(), s.size()); b.set(s.size(), p); b.setNeedToDelete(); } else b.set(s);
    if (s.empty()) b.clear();
    return b;
}
static void is(const SizedBuf& b, const std::string& s, const char* w) { CHECK(b.size == s.size() && (s.empty() || !memcmp(b.data, s.data(), s.size())), "%s: content differs (size %u expected %zu)", w, b.size, s.size()); }
static void empty(const SizedBuf& b, const char* w) { CHECK(b.size == 0 && b.data == nullptr && b.flags == 0 && b.empty(), "%s not empty: size %u data %p flags %d", w, b.size, b.data, b.flags); }
static void deep(const SizedBuf& b, const SizedBuf& src, const std::string& s, const char* w) { is(b, s, w); if (!s.empty()) CHECK(b.data != src.data && (b.flags & 1), "%s: not an owned copy", w); else empty(b, w); }
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    while (h::more()) {
        h::begin("buffer"); ++h::nontrivial;
        std::string s; int own; s.reserve(64);
        { std::string warm; h::ctx.reserve(4096); }
        SizedBuf b = mk(r, s, own); h::log("n=%zu own=%d", s.size(), own);
        { SizedBuf d; b.copyTo(d); deep(d, b, s, "copyTo"); is(b, s, "source"); d.free(); empty(d, "freed"); }
        { SizedBuf d; d.alloc(b); deep(d, b, s, "alloc"); d.free(); }
        { SizedBuf d; d.referTo(b); is(d, s, "referTo"); CHECK(d.data == b.data && d.flags == 0, "referTo"); CHECK(!d.free(), "referring buffer freed memory"); is(b, s, "source"); }
        { SizedBuf d; d = b; CHECK(d.data == b.data && d.flags == b.flags && d.size == b.size, "operator="); SizedBuf e(b); CHECK(e.data == b.data && e.flags == b.flags && e.size == b.size, "copy constructor"); SizedBuf f; f.set(b); CHECK(f.data == b.data && f.flags == b.flags && f.size == b.size, "set"); }
        { SizedBuf d; SizedBuf keep = b; b.moveTo(d); empty(b, "moved-from"); is(d, s, "moved"); CHECK(d.data == keep.data && d.flags == keep.flags, "moveTo"); d.moveTo(b); }
        if (r.chance(50)) {
            size_t m = r.chance(20) ? 0 : r.below(60); h::log("resize %zu", m); Track t0;
            b.resize(m); if (own == 1) { std::string e = s.substr(0, std::min(m, s.size())); CHECK(b.size == m, "resize size"); CHECK(e.empty() || !memcmp(b.data, e.data(), e.size()), "resize lost content"); if (m) { volatile char x = b.data[m - 1]; (void)x; } else CHECK(b.data == nullptr || b.flags == 0 || b.size == 0, "dangling"); if (m < s.size()) s.resize(m); else if (m > s.size()) s = std::string((char*)b.data, m); } else is(b, s, "unowned resize");
        }
        { size_t before = __sanitizer_get_current_allocated_bytes(), n = s.size(); bool owned = b.flags; bool f = b.free(); CHECK(f == owned, "free() result"); long d = (long)before - (long)__sanitizer_get_current_allocated_bytes(); CHECK(owned == (d > 0), "free() released %ld bytes, owned %d", d, (int)owned); if (owned) empty(b, "freed"); CHECK(!b.free(), "second free did something"); }
        { SizedBuf z((size_t)r.below(50)); for (uint32_t i = 0; i < z.size; ++i) CHECK(z.data[i] == 0, "not zeroed"); z.free(); }
        h::begin("record");
        Record a; std::string k, vv, m; int o1, o2, o3; a.kv.key = mk(r, k, o1); a.kv.value = mk(r, vv, o2); a.meta = mk(r, m, o3); a.seqNum = r.word(); a.type = (Record::Type)r.below(3);
        h::log("k=%zu/%d v=%zu/%d m=%zu/%d seq=%lx type=%d", k.size(), o1, vv.size(), o2, m.size(), o3, a.seqNum, (int)a.type);
        CHECK(a.size() == k.size() + vv.size() + m.size() && a.kv.size() == k.size() + vv.size(), "size"); CHECK(a.isIns() == (a.type == 0) && a.isDel() == (a.type == 1) && a.isCmd() == (a.type == 2), "type predicates"); CHECK(a.empty() == (k.empty() && vv.empty()), "empty");
        auto full = [&](Record& x, const char* w) { deep(x.kv.key, a.kv.key, k, w); deep(x.kv.value, a.kv.value, vv, w); deep(x.meta, a.meta, m, w); CHECK(x.seqNum == a.seqNum && x.type == a.type, "%s: seqnum/type lost", w); };
        { Record d; a.copyTo(d); full(d, "Record::copyTo"); d.free(); empty(d.kv.key, "key"); empty(d.kv.value, "value"); empty(d.meta, "meta"); }
        { Record d; CHECK(d.clone(a).ok(), "clone"); full(d, "Record::clone"); if (d.kv.key.data || d.kv.value.data) CHECK(!d.clone(a).ok(), "clone into non-empty accepted"); Record::Holder hd(d); }
        { KV d; a.kv.copyTo(d); deep(d.key, a.kv.key, k, "KV key"); deep(d.value, a.kv.value, vv, "KV value"); KV e; d.moveTo(e); empty(d.key, "moved"); empty(d.value, "moved"); is(e.key, k, "KV moved key"); is(e.value, vv, "KV moved value"); KV f(e); CHECK(f.key.data == e.key.data && f.value.data == e.value.data, "KV copy"); KV g; g.alloc(e.key, e.value); deep(g.key, e.key, k, "KV alloc"); deep(g.value, e.value, vv, "KV alloc"); g.free(); e.free(); empty(e.key, "freed"); empty(e.value, "freed");
          KV st; st.set(k, vv); is(st.key, k, "set string"); is(st.value, vv, "set string"); KV al; al.alloc(k, vv); is(al.key, k, "alloc string"); is(al.value, vv, "alloc string"); al.free(); }
        { Record d; uint64_t sq = a.seqNum; auto ty = a.type; a.moveTo(d); is(d.kv.key, k, "moved key"); is(d.kv.value, vv, "moved value"); is(d.meta, m, "moved meta"); CHECK(d.seqNum == sq && d.type == ty, "moveTo lost seqnum/type"); empty(a.kv.key, "moved-from"); empty(a.kv.value, "moved-from"); empty(a.meta, "moved-from"); CHECK(a.seqNum == Record::NIL_SEQNUM && a.isIns(), "moved-from reset");
          size_t before = __sanitizer_get_current_allocated_bytes(); bool any = o1 || o2 || o3; d.free(); CHECK(any == (__sanitizer_get_current_allocated_bytes() < before), "Record::free released nothing"); if (o1) empty(d.kv.key, "freed"); if (o2) empty(d.kv.value, "freed"); if (o3) empty(d.meta, "freed"); }
    }
    return h::done();
}
