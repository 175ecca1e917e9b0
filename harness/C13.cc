#include "memfs.h"
using namespace jungle; using h::Rng;
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed);
    while (h::more()) {
        h::begin("backup"); mem::Fs fs; fs.rng = &r; std::string name = "m/" + std::string(1 + r.below(30), 'f'), bak = name + ".bak"; FileHandle* bh = nullptr; std::string cur = r.bytes(r.below(300)), good; bool bak_known = false;
        if (r.chance(90)) fs.at(name) = cur; if (r.chance(70)) fs.at(bak) = r.bytes(r.below(400));
        int pct = r.chance(40) ? 0 : 15;
        for (int k = 1 + r.below(8); k--; ++h::nontrivial) {
            fs.pct = pct; fs.reset(); bool sync = r.chance(50); auto sz = fs.live.size(); Status s; std::map<std::string, std::string> before; for (auto& e : fs.files) before[e.first] = e.second->d;
            int op = r.below(5); h::log("op %d sync %d", op, sync); std::string src, dst, want; bool handle = false, keep_src = true; auto rd_ok = [&](const std::string& p, const std::string& w, const char* what) { CHECK(fs.has(p), "%s: destination missing", what); const std::string& g = fs.at(p); size_t i = 0; while (i < g.size() && i < w.size() && g[i] == w[i]) ++i; CHECK(g == w, "%s reported success: %zu bytes, expected %zu, first difference at %zu [%s]", what, g.size(), w.size(), i, fs.trace.c_str()); };
            switch (op) {
            case 0: src = name; dst = bak; s = BackupRestore::backup(&fs, name, sync); break;
            case 1: src = bak; dst = name; sync = true; s = BackupRestore::restore(&fs, name); break;
            case 2: src = name; dst = "other"; s = BackupRestore::copyFile(&fs, name, "other", sync); break;
            default: {
                // the caller's view: the original changed from byte `skip` on; the backup matched before
                if (!fs.has(name)) fs.at(name) = cur; std::string old = fs.at(name), now = old; size_t skip = 0;
                if (bak_known && fs.has(bak) && r.chance(80)) { skip = r.below(std::min(old.size(), good.size()) + 1); now = good.substr(0, skip) + r.bytes(r.below(200)); if (r.chance(25)) { if (op == 3 && bh) { fs.pct = 0; fs.close(bh); delete bh; bh = nullptr; fs.pct = pct; fs.reset(); sz = 0; } fs.files.erase(bak); h::log("backup removed"); } else if (r.chance(20)) { fs.at(bak).resize(r.below(skip + 1)); h::log("backup cut"); } }
                else now = r.bytes(r.below(300));
                fs.at(name) = now; before.clear(); for (auto& e : fs.files) before[e.first] = e.second->d;
                SizedBuf ctx(now.size() + r.below(20)); if (now.size()) memcpy(ctx.data, now.data(), now.size()); src = name; dst = bak; want = now; keep_src = true; h::log("skip %zu of %zu", skip, now.size());
                if (op == 3) s = BackupRestore::backup(&fs, name, ctx, now.size(), skip, sync);
                else { handle = true; s = BackupRestore::backup(&fs, &bh, name, ctx, now.size(), skip, sync); sz = (bh ? 1 : 0); }
                ctx.free();
            } }
            bool had = before.count(src);
            if (op < 3) want = had ? before[src] : "";
            if (handle) { CHECK(fs.live.size() == (bh ? 1u : 0u), "handles: %zu live", fs.live.size()); CHECK(!bh || (fs.live.count((mem::Handle*)bh) && ((mem::Handle*)bh)->open), "returned handle is not open"); }
            else CHECK(fs.live.size() == (bh ? 1u : 0u), "%zu handles left open", fs.live.size());
            if (had) CHECK(fs.at(src) == before[src], "source changed"); 
            bool ok = s.ok(); if (op < 3 && !had) CHECK(!ok && fs.files.size() == before.size(), "missing source accepted");
            if (ok) { rd_ok(dst, want, op == 1 ? "restore" : "backup"); if (sync) { CHECK(fs.files[dst]->durable == want, "success with sync, but the content is not durable [%s]", fs.trace.c_str()); } }
            if (!fs.faults && (op >= 3 || had)) CHECK(ok, "failed without a reason");
            for (auto& e : before) if (e.first != dst) CHECK(fs.has(e.first) && fs.at(e.first) == e.second, "unrelated file changed");
            if (ok && dst == bak) { good = want; bak_known = true; } else if (ok && dst == name) ; else if (dst == bak) bak_known = false;
            if (!ok && dst == name) { fs.at(name) = cur; }
        }
        fs.pct = 0; if (bh) { fs.close(bh); delete bh; }
    }
    return h::done();
}
