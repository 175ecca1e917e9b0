#include "memfs.h"
using namespace jungle; using h::Rng;
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    while (h::more()) {
        h::begin("helpers"); mem::Fs fs; fs.rng = &r; fs.pct = 0; FileHandle* f = nullptr; CHECK(fs.open(&f, "f").ok(), "open"); std::string& d = fs.at("f"); d = r.bytes(r.below(64)); uint64_t off = r.below(40), start = r.below(20);
        int pct = r.chance(40) ? 0 : 30;
        for (int k = 1 + r.below(12); k--; ++h::nontrivial) {
            fs.pct = pct; fs.reset(); std::string before = d; uint64_t o0 = off; uint64_t val = r.word(); Status s; std::string enc; int op = r.below(22); std::string got; uint64_t out = 0; bool rd = false; h::log("op %d start %lu off %lu val %lx", op, start, off, val);
            auto be = [&](int n) { std::string e(n, 0); for (int i = 0; i < n; ++i) e[i] = val >> (8 * (n - 1 - i)); return e; };
            uint64_t w = start + off; int n = 0; bool app = false, memop = false;
            switch (op) {
            case 0: enc = be(8); s = append_file_64(&fs, f, val, start, off); break;
            case 1: enc = be(4); s = append_file_32(&fs, f, (uint32_t)val, start, off); break;
            case 2: enc = be(2); s = append_file_16(&fs, f, (uint16_t)val, start, off); break;
            case 3: enc = be(1); s = append_file_8(&fs, f, (uint8_t)val, start, off); break;
            case 4: enc = r.bytes(r.below(40)); s = append_file(&fs, f, enc.data(), enc.size(), start, off); break;
            case 5: app = true; enc = be(8); s = append_file_64(&fs, f, val); break;
            case 6: app = true; enc = be(4); s = append_file_32(&fs, f, (uint32_t)val); break;
            case 7: app = true; enc = be(2); s = append_file_16(&fs, f, (uint16_t)val); break;
            case 8: app = true; enc = be(1); s = append_file_8(&fs, f, (uint8_t)val); break;
            case 9: app = true; enc = r.bytes(r.below(40)); s = append_file(&fs, f, enc.data(), enc.size()); break;
            case 10: { rd = true; n = 8; uint64_t x = val; s = read_file_64(&fs, f, x, start, off); out = x; break; }
            case 11: { rd = true; n = 4; uint32_t x = val; s = read_file_32(&fs, f, x, start, off); out = x; break; }
            case 12: { rd = true; n = 2; uint16_t x = val; s = read_file_16(&fs, f, x, start, off); out = x; break; }
            case 13: { rd = true; n = 1; uint8_t x = val; s = read_file_8(&fs, f, x, start, off); out = x; break; }
            case 14: { rd = true; n = r.below(40); got.resize(n); s = read_file(&fs, f, &got[0], n, start, off); break; }
            default: memop = true;
            }
            if (memop) {
                std::string m = r.bytes(64), m0 = m; uint64_t o = r.below(20), st = r.below(20), oo = o; size_t at = st + o; std::string e; std::string b = r.bytes(r.below(20));
                switch (op) {
                case 15: e = be(8); append_mem_64(&m[0], val, st, o); break; case 16: e = be(4); append_mem_32(&m[0], val, st, o); break; case 17: e = be(2); append_mem_16(&m[0], val, st, o); break; case 18: e = be(1); append_mem_8(&m[0], val, st, o); break;
                case 19: e = b; append_mem(&m[0], b.data(), b.size(), st, o); break;
                case 20: { std::string g(b.size(), 0); read_mem(&m[0], &g[0], g.size(), st, o); CHECK(g == m.substr(at, g.size()) && o == oo + g.size(), "read_mem"); e = g; break; }
                default: { uint64_t a = 0; uint32_t b4 = 0; uint16_t b2 = 0; uint8_t b1 = 0; uint64_t p = o; read_mem_64(&m[0], a, st, p); CHECK(p == oo + 8, "read_mem_64 offset"); p = o; read_mem_32(&m[0], b4, st, p); CHECK(p == oo + 4, "read_mem_32 offset"); p = o; read_mem_16(&m[0], b2, st, p); CHECK(p == oo + 2, "offset"); p = o; read_mem_8(&m[0], b1, st, p); CHECK(p == oo + 1, "offset");
                    uint64_t x = 0; for (int i = 0; i < 8; ++i) x = x << 8 | (uint8_t)m[at + i]; CHECK(a == x && b4 == (x >> 32) && b2 == (x >> 48) && b1 == (x >> 56), "read_mem values"); e = ""; o = oo; }
                }
                CHECK(o == oo + e.size(), "memory offset"); m0.replace(at, e.size(), e); CHECK(m == m0, "memory content"); continue;
            }
            bool ok = s.ok(); CHECK(ok || fs.faults || (rd && w + (n ? n : got.size()) > before.size()), "failure without a reason"); CHECK(!fs.faults || !ok, "failed file operation reported as success");
            if (!rd) { CHECK(off == (ok && !app ? o0 + enc.size() : o0), "offset %lu after %s of %zu at %lu", off, ok ? "success" : "failure", enc.size(), o0);
                if (ok && enc.size()) { if (app) before += enc; else { if (before.size() < w + enc.size()) before.resize(w + enc.size(), 0); before.replace(w, enc.size(), enc); } CHECK(d == before, "file content"); } }
            else { CHECK(off == (ok ? o0 + n : o0), "offset after read"); CHECK(d == before, "read changed the file"); if (ok) { CHECK(!n || w + n <= before.size(), "read past the end succeeded"); if (op == 14) CHECK(got == before.substr(std::min<size_t>(w, before.size()), n), "bytes read"); else { uint64_t x = 0; for (int i = 0; i < n; ++i) x = x << 8 | (uint8_t)before[w + i]; CHECK(out == x, "value read"); } }
                else if (op != 14) CHECK(out == (n == 8 ? val : n == 4 ? (uint32_t)val : n == 2 ? (uint16_t)val : out), "failed read changed the output"); }
            if (!ok) break;
        }
        fs.pct = 0; fs.close(f); delete f;
    }
    return h::done();
}
