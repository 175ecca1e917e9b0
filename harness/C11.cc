#include "faultio.h"
#include "fileops_posix.h"
using namespace jungle; using h::Rng;
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed); FileOpsPosix ops; std::string path = h::dir + "/f", other = h::dir + "/g";
    while (h::more()) {
        h::begin("posix"); fault::rng = nullptr; std::string m = r.bytes(r.chance(50) ? 0 : r.below(5000)), og = "other"; 
        CHECK(!ops.exist(path), "file exists already"); if (m.size() || r.chance(30)) { fault::dump(path, m); CHECK(ops.exist(path), "existing file denied"); }
        fault::dump(other, og); FileHandle* f = nullptr; CHECK(ops.open(&f, path, FileOps::NORMAL).ok() && f, "open");
        CHECK(fault::slurp(path) == m, "open changed the content"); fault::rng = &r; fault::pct = r.chance(40) ? 0 : r.below(60);
        size_t ops_n = r.below(20);
        for (size_t i = 0; i < ops_n; ++i) {
            fault::reset(); fault::hard = 0; size_t n = r.chance(10) ? 0 : r.chance(20) ? r.below(70000) : r.below(600); std::string d = r.bytes(n), d0 = d; Status s;
            switch (r.below(8)) {
            case 0: case 1: { size_t off = r.chance(70) ? r.below(m.size() + 1) : r.below(m.size() + 3000); h::log("pwrite %zu@%zu", n, off); s = ops.pwrite(f, d.data(), n, off); CHECK(d == d0, "data changed");
                std::string g = fault::slurp(path); if (n && fault::calls == 0) CHECK(!s, "success without a system call");
                if (s) { if (n) { std::string e = m; if (e.size() < off + n) e.resize(off + n, 0); e.replace(off, n, d); CHECK(g == e, "write reported success, file differs; %s", fault::trace.c_str()); } else CHECK(g == m, "empty write changed the file"); }
                else { CHECK(fault::faults, "write failed without a fault (first call complete)"); size_t k = 0; while (k < m.size() && k < off && k < g.size() && g[k] == m[k]) ++k; CHECK(k == std::min(m.size(), off), "byte %zu before the request changed", k); for (k = off + n; k < m.size(); ++k) CHECK(g[k] == m[k], "byte after the request changed"); CHECK(g.size() >= m.size(), "file shrank"); }
                if (fault::first == 1) CHECK(s.ok(), "complete transfer reported as failure"); m = g; break; }
            case 2: case 3: { h::log("append %zu", n); s = ops.append(f, d.data(), n); std::string g = fault::slurp(path);
                if (s) CHECK(g == m + d, "append reported success, file has %zu bytes, expected %zu; %s", g.size(), m.size() + n, fault::trace.c_str()); else { CHECK(fault::faults, "append failed without a fault"); CHECK(g.compare(0, m.size(), m) == 0, "append changed old bytes"); }
                m = g; break; }
            case 4: case 5: { size_t off = r.below(m.size() + 20); if (r.chance(60) && off < m.size()) n = r.below(m.size() - off + 1); h::log("pread %zu@%zu of %zu", n, off, m.size()); std::vector<char> b(n + 1, 0x77); s = ops.pread(f, b.data(), n, off);
                CHECK(b[n] == 0x77, "buffer overrun"); if (s && n) { CHECK(off + n <= m.size(), "read past the end succeeded"); CHECK(!memcmp(b.data(), m.data() + off, n), "read returned other bytes; %s", fault::trace.c_str()); }
                if (!s) CHECK(fault::faults || (n && off + n > m.size()), "read failed without a reason"); CHECK(fault::slurp(path) == m, "read changed the file"); break; }
            case 6: { int64_t e = ops.eof(f); CHECK(e == (int64_t)m.size() || (e < 0 && fault::faults), "eof %ld of %zu", (long)e, m.size()); break; }
            default: switch (r.below(3)) {
                case 0: s = ops.fsync(f); CHECK(s.ok() == (fault::sync_ok > 0), "fsync result %d, %lu successful syncs", (int)s, (unsigned long)fault::sync_ok); break;
                case 1: CHECK(ops.flush(f).ok(), "flush"); break;
                default: { size_t l = r.below(m.size() + 100); h::log("ftruncate %zu", l); s = ops.ftruncate(f, l); if (s) m.resize(l, 0); else CHECK(fault::faults, "ftruncate failed"); CHECK(fault::slurp(path) == m, "ftruncate to %zu", l); } } }
            if (fault::faults) ++h::nontrivial;
        }
        fault::rng = nullptr; fault::hard = 0; char b[4]; CHECK(ops.close(f).ok(), "close"); CHECK(!ops.close(f) && !ops.pread(f, b, 1, 0) && !ops.pwrite(f, b, 1, 0) && !ops.append(f, b, 1) && !ops.fsync(f) && !ops.flush(f) && !ops.ftruncate(f, 0) && ops.eof(f) < 0, "operation on a closed handle succeeded"); delete f;
        CHECK(fault::slurp(path) == m, "close changed the content"); CHECK(fault::slurp(other) == og, "other file changed");
        { FileHandle* q = nullptr; CHECK(ops.open(&q, path, FileOps::READ_ONLY).ok(), "read-only open"); CHECK(fault::slurp(path) == m, "open changed the content"); if (m.size()) CHECK(!ops.pwrite(q, "x", 1, 0), "write through a read-only handle"); CHECK(fault::slurp(path) == m, "content"); ops.close(q); delete q; }
        { FileHandle* q = nullptr; CHECK(!ops.open(&q, h::dir + "/none", FileOps::READ_ONLY) && !fault::there(h::dir + "/none"), "opening a missing file read-only"); }
        CHECK(!ops.open(&f, h::dir + "/no/such", FileOps::NORMAL), "open in a missing directory"); CHECK(ops.remove(path).ok() && !fault::there(path), "remove"); CHECK(!ops.remove(path), "remove of a missing file succeeded"); CHECK(!ops.exist(path), "exist");
        if (r.chance(5)) { std::string dd = h::dir + "/d"; CHECK(ops.mkdir(dd).ok() && ops.exist(dd), "mkdir"); CHECK(!ops.mkdir(dd), "mkdir of an existing directory"); rmdir(dd.c_str()); }
    }
    return h::done();
}
