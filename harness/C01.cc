#define H_NOSLEEP
#include "common.h"
#include "internal_helper.h"
#include "fileops_posix.h"
#include "endian_encode.h"
using namespace jungle;
using h::Rng;

struct Op { int k; uint64_t v; std::string b; };
static size_t enc_size(const Op& o) { static int n[] = {8, 4, 2, 1}; return o.k < 4 ? n[o.k] : o.k == 4 ? o.b.size() : 4 + o.b.size(); }
static std::string enc(const Op& o) {
    std::string r; size_t n = enc_size(o);
    if (o.k < 4) for (size_t i = 0; i < n; ++i) r += (char)(o.v >> (8 * (n - 1 - i)));
    else { if (o.k == 5) for (int i = 3; i >= 0; --i) r += (char)(o.b.size() >> (8 * i)); r += o.b; }
    return r;
}
static Op gen(Rng& r, size_t maxb) { Op o; o.k = r.below(6); o.v = r.word(); o.b = r.bytes(r.below(maxb + 1)); return o; }
static Status put(RwSerializer& s, const Op& o) {
    switch (o.k) {
    case 0: return s.putU64(o.v); case 1: return s.putU32(o.v); case 2: return s.putU16(o.v); case 3: return s.putU8(o.v);
    case 4: return s.put(o.b.data(), o.b.size());
    default: { SizedBuf sb(o.b.size(), (void*)o.b.data()); return s.putSb(sb); }
    }
}
// expected outcome from the reference byte string `m` of length `len` at `pos`
static void get_check(Rng& r, RwSerializer& s, const Op& o, const std::string& m, size_t& pos, Status* keep, bool mem) {
    size_t len = m.size(); bool fit = pos + enc_size(o) <= len;
    Status st; Status* so = keep ? keep : &st;
    uint64_t v = 0, exp = 0; std::string got; size_t n = enc_size(o);
    h::log("get%d n=%zu pos=%zu len=%zu keep=%d", o.k, n, pos, len, keep ? (int)*keep : 99);
    if (o.k < 4) {
        switch (o.k) { case 0: v = s.getU64(*so); break; case 1: v = s.getU32(*so); break; case 2: v = s.getU16(*so); break; case 3: v = s.getU8(*so); break; }
        CHECK(so->ok() == fit, "status %d at pos %zu size %zu len %zu", (int)*so, pos, n, len);
        if (mem && !fit) CHECK((int)*so == Status::READ_VIOLATION, "status %d, expected READ_VIOLATION", (int)*so);
        if (fit) { for (size_t i = 0; i < n; ++i) exp = (exp << 8) | (uint8_t)m[pos + i]; CHECK(v == exp, "value %lx expected %lx at %zu", v, exp, pos); pos += n; }
    } else if (o.k == 4) {
        std::vector<char> b(n ? n : 1);
        Status g = s.get(b.data(), n);
        CHECK(g.ok() == fit, "get status %d", (int)g);
        if (fit) { CHECK(!memcmp(b.data(), m.data() + pos, n), "bytes differ"); pos += n; }
    } else {
        bool hdr = pos + 4 <= len; uint64_t bl = 0;
        if (hdr) for (int i = 0; i < 4; ++i) bl = (bl << 8) | (uint8_t)m[pos + i];
        bool f2 = hdr && pos + 4 + bl <= len;
        if (hdr && bl > (1 << 24)) return;
        bool clone = r.chance(50) || !mem;
        SizedBuf out; Status g = s.getSb(out, clone);
        CHECK(g.ok() == f2, "getSb status %d header %d bl %lu", (int)g, (int)hdr, bl);
        if (f2) { CHECK(out.size == bl && (!bl || !memcmp(out.data, m.data() + pos + 4, bl)), "getSb content"); pos += 4 + bl; if (clone) out.free(); }
    }
    CHECK(s.pos() == pos, "position %zu expected %zu", s.pos(), pos);
}
static void mem_case(uint64_t sd) {
    Rng r(sd); h::begin("memory"); h::log("seed=%lu", sd);
    std::vector<Op> ops; size_t need = 0, start = r.below(9), n = r.below(9);
    for (size_t i = 0; i < n; ++i) { ops.push_back(gen(r, 20)); need += enc_size(ops.back()); }
    size_t len = start + need + (r.chance(40) ? 0 : r.below(12)); if (!len) len = 1;
    std::string ref = r.bytes(len); std::vector<uint8_t> b(ref.begin(), ref.end());
    uint8_t* d = (uint8_t*)malloc(len); memcpy(d, ref.data(), len);
    {
        RwSerializer w(d, len); w.pos(start); size_t pos = start;
        for (auto& o : ops) {
            std::string e = enc(o); h::log("put%d v=%lx n=%zu", o.k, o.v, o.b.size());
            Status s = put(w, o); CHECK(s.ok(), "put status %d", (int)s);
            ref.replace(pos, e.size(), e); pos += e.size();
            CHECK(w.pos() == pos, "put position %zu expected %zu", w.pos(), pos);
            CHECK(!memcmp(d, ref.data(), len), "buffer differs after put%d: %s vs %s", o.k, h::hex(d, len).c_str(), h::hex(ref.data(), len).c_str());
        }
    }
    // read back the same sequence, then random reads across the end
    Status keep; if (r.chance(50)) keep = Status::READ_VIOLATION;
    RwSerializer g(d, len); g.pos(start); size_t pos = start;
    for (auto& o : ops) get_check(r, g, o, ref, pos, r.chance(50) ? &keep : nullptr, true);
    for (int i = 0; i < 6; ++i) {
        if (r.chance(50)) { pos = r.below(len + 1); g.pos(pos); }
        bool a = g.available(3); CHECK(a == (pos + 3 <= len), "available");
        Op o = gen(r, 10); get_check(r, g, o, ref, pos, r.chance(60) ? &keep : nullptr, true);
    }
    CHECK(!memcmp(d, ref.data(), len), "reads modified the buffer"); ++h::nontrivial;
    free(d);
}
static void grow_case(uint64_t sd) {
    Rng r(sd); h::begin("growable"); h::log("seed=%lu", sd);
    SizedBuf sb; size_t init = r.chance(40) ? 0 : 1 + r.below(40); if (init) { sb.alloc(init); }
    std::string ref(init, 0); size_t pos = 0;
    RwSerializer w(&sb); std::vector<Op> ops; size_t n = 1 + r.below(14);
    for (size_t i = 0; i < n; ++i) {
        if (r.chance(25)) { // next put ends exactly at / one past the current end
            Op o; o.k = 4; o.v = 0; size_t room = sb.size > pos ? sb.size - pos : 0; o.b = r.bytes(room + r.below(2)); ops.push_back(o);
        } else ops.push_back(gen(r, r.chance(10) ? 300 : 24));
        Op& o = ops.back(); std::string e = enc(o); h::log("put%d n=%zu pos=%zu cap=%u", o.k, e.size(), pos, sb.size);
        Status s = put(w, o); CHECK(s.ok(), "put status");
        if (ref.size() < pos + e.size()) ref.resize(pos + e.size()); ref.replace(pos, e.size(), e); pos += e.size();
        CHECK(w.pos() == pos, "position"); CHECK(sb.size >= pos, "capacity %u < pos %zu", sb.size, pos);
        CHECK(pos == 0 || !memcmp(sb.data, ref.data(), pos), "content after growth");
    }
    RwSerializer g(sb); size_t p2 = 0; Status k; std::string full((char*)sb.data, sb.size);
    for (auto& o : ops) get_check(r, g, o, full, p2, &k, true);
    sb.free(); ++h::nontrivial;
}
static void file_case(uint64_t sd) {
    Rng r(sd); h::begin("file"); h::log("seed=%lu", sd);
    FileOpsPosix fo; std::string fn = h::dir + "/f"; ::unlink(fn.c_str());
    FileHandle* fh = nullptr; CHECK(fo.open(&fh, fn, FileOps::NORMAL).ok(), "open");
    bool app = r.chance(40); std::string ref; size_t n = r.below(8);
    { RwSerializer w(&fo, fh, app); std::vector<Op> ops;
      for (size_t i = 0; i < n; ++i) {
        Op o = gen(r, 30); if (app && o.k == 5) o.k = 4; std::string e = enc(o); if (e.empty()) continue;
        size_t pos = app ? ref.size() : w.pos();
        if (!app && r.chance(30)) { pos = r.below(ref.size() + 1); w.pos(pos); }
        h::log("put%d n=%zu pos=%zu app=%d", o.k, e.size(), pos, app);
        Status s = put(w, o); CHECK(s.ok(), "put status %d", (int)s);
        if (ref.size() < pos + e.size()) ref.resize(pos + e.size()); ref.replace(pos, e.size(), e);
        if (!app) CHECK(w.pos() == pos + e.size(), "file position");
      } }
    CHECK((size_t)fo.eof(fh) == ref.size(), "file size %ld expected %zu", (long)fo.eof(fh), ref.size());
    RwSerializer g(&fo, fh); CHECK(g.size() == ref.size(), "size"); size_t pos = 0; Status k;
    for (int i = 0; i < 8; ++i) { if (r.chance(50)) { pos = r.below(ref.size() + 3); g.pos(pos); } Op o = gen(r, 12); if (o.k == 4 && o.b.empty()) continue; if (o.k == 5) continue; get_check(r, g, o, ref, pos, &k, false); }
    fo.close(fh); delete fh; ++h::nontrivial;
}
// the default status argument is shared between reads: a failed read must not influence later ones
static void sticky_case(uint64_t sd) {
    Rng r(sd); h::begin("default status"); h::log("seed=%lu", sd);
    uint8_t b[16]; for (auto& x : b) x = r.next();
    RwSerializer a(b, 1 + r.below(7)); a.getU64();
    RwSerializer g(b, 16); size_t p = 0; uint64_t e;
    int k = r.below(4); static size_t n[] = {8, 4, 2, 1};
    for (int i = 0; i < 2; ++i) {
        uint64_t v = k == 0 ? g.getU64() : k == 1 ? g.getU32() : k == 2 ? g.getU16() : g.getU8(); e = 0;
        for (size_t j = 0; j < n[k]; ++j) e = e << 8 | b[p + j];
        p += n[k]; CHECK(v == e && g.pos() == p, "read %d after a failed read: value %lx expected %lx pos %zu expected %zu", i, v, e, g.pos(), p);
    }
}
int main(int c, char** v) {
    h::init(c, v);
    for (uint64_t i = 0; h::more(); ++i) { uint64_t s = h::seed * 1000003 + i; mem_case(s); grow_case(s); sticky_case(s); if (i % 20 == 0) file_case(s); }
    return h::done();
}
