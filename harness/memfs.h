// In-memory FileOps with injected faults: a byte file per path; failed writes may leave a partial transfer, as the file layer allows.
#pragma once
#include "common.h"
#include "internal_helper.h"
#include "fileops_base.h"
#include <memory>
namespace mem {
using namespace jungle;
struct Content { std::string d, durable; };
struct Handle;
struct Fs : public FileOps {
    using FileOps::open;
    std::map<std::string, std::shared_ptr<Content>> files; std::set<Handle*> live; std::set<std::string> dirs;
    h::Rng* rng = nullptr; int pct = 0; uint64_t calls = 0, faults = 0, synced_ok = 0; std::string trace; bool append_only_grow = true;
    std::string ignore;            // faults on this path do not count (nobody promises to report them)
    bool reset() { calls = faults = synced_ok = 0; trace.clear(); return true; }
    bool bad(const char* w, const std::string& p) { ++calls; bool f = rng && rng->chance(pct); if (f) ++faults; if (trace.size() < 3000) { trace += w; trace += ' '; trace += p; trace += f ? "=ERR " : " "; } return f; }
    std::string& at(const std::string& p) { auto& c = files[p]; if (!c) c = std::make_shared<Content>(); return c->d; }
    bool has(const std::string& p) const { return files.count(p) > 0; }
    Status open(FileHandle** out, const std::string& path, Mode mode) override;
    Status close(FileHandle* f) override;
    Status pread(FileHandle* f, void* buf, size_t n, cs_off_t o) override;
    Status pwrite(FileHandle* f, const void* buf, size_t n, cs_off_t o) override;
    Status append(FileHandle* f, const void* buf, size_t n) override;
    cs_off_t eof(FileHandle* f) override;
    Status flush(FileHandle* f) override;
    Status fsync(FileHandle* f) override;
    Status ftruncate(FileHandle* f, cs_off_t n) override;
    Status mkdir(const std::string& p) override { if (bad("mkdir", p)) return Status::ERROR; dirs.insert(p); return Status(); }
    bool exist(const std::string& p) override { return has(p) || dirs.count(p); }
    Status remove(const std::string& p) override { if (bad("remove", p) || !has(p)) return Status::ERROR; files.erase(p); return Status(); }
};
struct Handle : public FileHandle {
    Fs* fs; std::string path; std::shared_ptr<Content> c; bool open = true, ro;
    Handle(Fs* f, const std::string& p, bool r) : fs(f), path(p), c(f->files[p]), ro(r) { fOps = f; f->live.insert(this); }
    ~Handle() override { fs->live.erase(this); }
    bool isOpened() override { return open; }
};
inline Handle* H(Fs* s, FileHandle* f) { Handle* x = static_cast<Handle*>(f); CHECK(f && s->live.count(x), "file call on a dead handle [%s]", s->trace.c_str()); CHECK(x->open, "file call on closed handle %s [%s]", x->path.c_str(), s->trace.c_str()); return x; }
inline Status Fs::open(FileHandle** out, const std::string& path, Mode mode) {
    if (bad("open", path)) return Status::ERROR; if (!has(path)) { if (mode == READ_ONLY) return Status::ERROR; at(path); }
    *out = new Handle(this, path, mode == READ_ONLY); return Status(); }
inline Status Fs::close(FileHandle* f) { Handle* x = H(this, f); bool b = bad("close", x->path); x->open = false; return b ? Status(Status::ERROR) : Status(); }
inline Status Fs::pread(FileHandle* f, void* buf, size_t n, cs_off_t o) {
    Handle* x = H(this, f); if (!n) return Status(); if (bad("pread", x->path)) { size_t k = rng->below(n); if (o >= 0 && (size_t)o < x->c->d.size()) memcpy(buf, x->c->d.data() + o, std::min(k, x->c->d.size() - (size_t)o)); return Status::FILE_READ_SIZE_MISMATCH; }
    if (o < 0 || (size_t)o > x->c->d.size() || n > x->c->d.size() - o) { if (o >= 0 && (size_t)o < x->c->d.size()) memcpy(buf, x->c->d.data() + o, x->c->d.size() - o); return Status::FILE_READ_SIZE_MISMATCH; }
    memcpy(buf, x->c->d.data() + o, n); return Status(); }
inline Status Fs::pwrite(FileHandle* f, const void* buf, size_t n, cs_off_t o) {
    Handle* x = H(this, f); if (!n) return Status(); CHECK(o >= 0 && (uint64_t)o + n < (1ULL << 33), "pwrite at %ld", (long)o); bool b = bad("pwrite", x->path); size_t k = b ? rng->below(n) : n; if (x->ro) return Status::ERROR;
    volatile uint8_t sink = 0; for (size_t i = 0; i < n; i += 512) sink ^= ((const uint8_t*)buf)[i]; sink ^= ((const uint8_t*)buf)[n - 1];
    if (k) { if (x->c->d.size() < o + k) x->c->d.resize(o + k, 0); memcpy(&x->c->d[o], buf, k); } return b ? Status(Status::FILE_WRITE_SIZE_MISMATCH) : Status(); }
inline Status Fs::append(FileHandle* f, const void* buf, size_t n) { Handle* x = H(this, f); return pwrite(f, buf, n, x->c->d.size()); }
inline cs_off_t Fs::eof(FileHandle* f) { Handle* x = H(this, f); if (bad("eof", x->path)) return -1; return x->c->d.size(); }
inline Status Fs::flush(FileHandle* f) { Handle* x = H(this, f); return bad("flush", x->path) ? Status(Status::ERROR) : Status(); }
inline Status Fs::fsync(FileHandle* f) { Handle* x = H(this, f); if (bad("fsync", x->path)) return Status::ERROR; x->c->durable = x->c->d; ++synced_ok; return Status(); }
inline Status Fs::ftruncate(FileHandle* f, cs_off_t n) { Handle* x = H(this, f); if (bad("ftruncate", x->path)) return Status::ERROR; CHECK(n >= 0 && n < (1L << 33), "ftruncate to %ld", (long)n); x->c->d.resize(n, 0); return Status(); }
}
