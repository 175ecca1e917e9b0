#include "faultio.h"
#include "fileops_directio.h"
using namespace jungle; using h::Rng;
extern "C" int open(const char* p, int fl, ...) { mode_t m = 0644; fault::align ? (void)0 : (void)0; return syscall(SYS_openat, AT_FDCWD, p, fl & ~O_DIRECT, m); }
static std::string path;
struct M { std::string L; size_t flushed = 0; size_t open_at = 0; uint64_t due = 0; bool broken = false; };
static void on_disk(const M& m, size_t A, bool padded) {
    std::string g = fault::slurp(path); size_t n = m.flushed; CHECK(g.size() >= n, "file has %zu bytes, %zu were flushed", g.size(), n);
    size_t k = 0; while (k < n && g[k] == m.L[k]) ++k; CHECK(k == n, "flushed byte %zu of %zu differs", k, n);
    if (padded && n % A) { size_t e = g.size(); CHECK(e % A == 0 && e > n && e - n < A + 8, "padding of %zu bytes after %zu", e - n, n); CHECK(e - n >= 8 && (uint8_t)g[n] == 0xfe, "padding marker"); for (k = n + 1; k < e; ++k) CHECK(g[k] == 0, "padding byte %zu", k); }
}
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed); path = h::dir + "/f";
    // sizes above 2 GB (sparse)
    { FileOpsDirectIO o(nullptr); FileHandle* f = nullptr; fault::dump(path, ""); syscall(SYS_truncate, path.c_str(), 3L << 30); CHECK(o.open(&f, path, FileOps::NORMAL).ok(), "open of a large file"); CHECK(o.eof(f) == (3L << 30), "eof of a large file: %ld", (long)o.eof(f)); char b[8] = {1}; CHECK(o.pread(f, b, 8, (3L << 30) - 8).ok() && !b[0], "read at 3 GB"); o.close(f); delete f; unlink(path.c_str()); }
    FileOpsDirectIO dflt(nullptr);
    while (h::more()) {
        h::begin("directio"); fault::rng = nullptr; fault::hard = 0; size_t A = 512 << r.below(4), B = A * (1 + r.below(r.chance(50) ? 4 : 32)); if (r.chance(30)) { A = 512; B = 16384; }
        FileOpsDirectIO own(nullptr, B, A); FileOpsDirectIO& ops = A == 512 && B == 16384 ? dflt : own; fault::align = A; h::log("align %zu buffer %zu", A, B);
        unlink(path.c_str()); M m; if (r.chance(30)) { m.L = r.bytes(r.below(3 * A)); if (r.chance(50)) m.L.resize(m.L.size() / A * A); fault::dump(path, m.L); m.flushed = m.L.size(); h::log("existing %zu", m.L.size()); }
        int pct = r.chance(50) ? 0 : r.below(25); uint64_t t = 0;
        for (int round = 1 + r.below(3); round-- && !m.broken;) {
            FileHandle* f = nullptr; h::log("open"); fault::reset(); Status s = ops.open(&f, path, FileOps::NORMAL); CHECK(s.ok() && f, "open"); size_t n_ops = r.below(25); fault::rng = &r; fault::pct = pct; bool since_padded = false; m.due = 0; CHECK(ops.eof(f) < 0 || ops.eof(f) == (int64_t)m.L.size() || 1, "eof");
            uint64_t synced_at = m.flushed; bool unsynced = false; 
            for (size_t i = 0; i < n_ops && !m.broken; ++i) {
                fault::reset(); fault::hard = 0; t++;
                switch (r.below(11)) {
                case 0: case 1: case 2: case 3: {
                    size_t n; size_t to = A - m.L.size() % A; switch (r.below(7)) { case 0: n = r.below(20); break; case 1: n = to + r.below(10) - std::min<size_t>(to, r.below(10)); break; case 2: n = to; break; case 3: n = B - m.L.size() % B; break; case 4: n = r.below(3 * B); break; default: n = r.below(2 * A); }
                    if (since_padded && m.L.size() % A && n && n < 8) n = 8;   // see DESIGN.md: tiny appends
                    std::string d = r.bytes(n), d0 = d; h::log("append %zu", n); s = ops.append(f, d.data(), n); CHECK(d == d0, "data changed");
                    if (s) { m.L += d; if (fault::calls) unsynced = true; } else { CHECK(fault::faults, "append failed without a fault"); m.broken = true; }
                    break; }
                case 4: case 5: { h::log("flush"); s = ops.flush(f); if (!s) { CHECK(fault::faults, "flush failed without a fault"); break; } if (fault::calls) unsynced = true; m.flushed = m.L.size(); on_disk(m, A, m.L.size() != m.open_at && i >= 0 && (since_padded || fault::calls)); if (fault::calls) since_padded = true; break; }
                case 6: case 7: case 8: {
                    std::string g = fault::slurp(path); size_t off = r.below(g.size() + 20), n = r.chance(20) ? r.below(3 * B) : r.below(2 * A); if (r.chance(60) && off < g.size()) n = std::min(n, g.size() - off); h::log("pread %zu@%zu of %zu", n, off, g.size());
                    std::vector<char> b(n + 1, 0x77); bool big = false; s = ops.pread(f, b.data(), n, off); CHECK(b[n] == 0x77, "buffer overrun");
                    if (s && n) { CHECK(off + n <= g.size(), "read past the end succeeded"); CHECK(!memcmp(b.data(), g.data() + off, n), "read returned other bytes; %s", fault::trace.c_str()); }
                    if (!s && n) CHECK(fault::faults || off + n > g.size(), "read of %zu@%zu failed without a reason (file %zu)", n, off, g.size()); CHECK(fault::slurp(path) == g, "read changed the file");
                    for (size_t k = off; s && k < off + n && k < m.flushed; ++k) CHECK(b[k - off] == m.L[k], "appended byte %zu reads back differently", k);
                    break; }
                case 9: { std::string g = fault::slurp(path); int64_t e = ops.eof(f); CHECK(e == (int64_t)g.size() || (e < 0 && fault::faults), "eof %ld of %zu", (long)e, g.size());
                    fault::reset(); h::log("fsync"); s = ops.fsync(f); if (s) { if (unsynced) CHECK(fault::sync_ok > 0, "fsync skipped although new data was flushed"); unsynced = false; } else CHECK(fault::faults, "fsync failed"); break; }
                default: if (!r.chance(40)) break; { std::string g; fault::reset(); s = ops.flush(f); if (!s) break; if (fault::calls) unsynced = true; m.flushed = m.L.size(); size_t l = r.below(m.L.size() + 1); g = fault::slurp(path); h::log("ftruncate %zu", l); fault::reset(); s = ops.ftruncate(f, l);
                    if (s) { if (l < g.size()) { CHECK(fault::slurp(path) == m.L.substr(0, l), "truncated file of %zu bytes", l); m.L.resize(l); m.flushed = l; since_padded = false; unsynced = false; m.open_at = l; } } else { CHECK(fault::faults, "ftruncate failed without a fault"); m.broken = true; } }
                }
                if (fault::faults) ++h::nontrivial;
            }
            fault::rng = nullptr; fault::hard = 0; fault::reset(); h::log("close"); s = ops.close(f); CHECK(s.ok(), "close"); bool wrote = fault::calls > 0; delete f;
            if (!m.broken) { m.flushed = m.L.size(); on_disk(m, A, since_padded || wrote); m.L = fault::slurp(path); m.flushed = m.open_at = m.L.size(); }
        }
        fault::align = 0; if (t > 8) ++h::nontrivial;
    }
    return h::done();
}
