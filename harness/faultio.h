// Stand-ins for the data system calls with injected faults: every call moves a prefix of the request, nothing, or fails, as POSIX allows.
#pragma once
#include <sys/syscall.h>
#include <fcntl.h>
#include <errno.h>
#include "common.h"
namespace fault {
static h::Rng* rng = nullptr;          // no faults when null
static int pct = 0;                    // chance of a fault per call
static int hard = 0;                   // > 0: that many following calls fail
static uint64_t calls = 0, faults = 0, syncs = 0, sync_ok = 0; static std::string trace;
static int first = 0;                  // outcome of the first data call since reset: 0 none, 1 complete, 2 not
static std::function<void(int, uint64_t, uint64_t)> on_pwrite;   // called with (fd, offset, bytes written)
static size_t align = 0;                // direct I/O: pointers, sizes and offsets must be multiples of this
static inline void direct(const void* b, size_t n, int64_t o, const char* w) { if (align) CHECK((uintptr_t)b % align == 0 && n % align == 0 && o % (int64_t)align == 0, "%s(%p, %zu @ %ld) is not aligned for direct I/O", w, b, n, (long)o); }
static inline void reset() { calls = faults = syncs = sync_ok = 0; first = 0; trace.clear(); }
// how many bytes the call moves, or -1
static inline int64_t decide(size_t n, const char* what, int64_t off) {
    ++calls; int64_t r = n; if (rng) {
        if (hard > 0) { --hard; r = rng->chance(70) ? -1 : 0; }
        else if (rng->chance(pct)) switch (rng->below(3)) { case 0: r = -1; break; case 1: r = 0; break; default: r = n > 1 ? rng->below(n) : 0; }
        else if (rng->chance(pct / 8)) { hard = 200; r = -1; }
    }
    if (r != (int64_t)n) ++faults; if (!first) first = r == (int64_t)n ? 1 : 2;
    char b[96]; snprintf(b, sizeof b, "%s(%zu@%ld)=%ld ", what, n, (long)off, (long)r); if (trace.size() < 2000) trace += b; return r;
}
static inline bool flip(const char* what) { bool f = rng && (hard > 0 || rng->chance(pct)); if (hard > 0) --hard; if (f) { ++faults; if (trace.size() < 2000) { trace += what; trace += "=-1 "; } } return f; }
}
extern "C" {
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) {
    fault::direct(b, n, o, "pwrite"); int64_t r = fault::decide(n, "pwrite", o); if (r <= 0 && n) { errno = EIO; return r; }
    ssize_t x = syscall(SYS_pwrite64, fd, b, (size_t)r, o); if (x > 0 && fault::on_pwrite) fault::on_pwrite(fd, o, x); return x; }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) {
    fault::direct(b, n, o, "pread"); int64_t r = fault::decide(n, "pread", o); if (r <= 0 && n) { errno = EIO; return r; } return syscall(SYS_pread64, fd, b, (size_t)r, o); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) { if (fd <= 2) return syscall(SYS_write, fd, b, n); int64_t r = fault::decide(n, "write", -1); if (r <= 0 && n) { errno = EIO; return r; } return syscall(SYS_write, fd, b, (size_t)r); }
int fsync(int fd) { ++fault::syncs; if (fault::flip("fsync")) { errno = EIO; return -1; } int r = syscall(SYS_fsync, fd); if (!r) ++fault::sync_ok; return r; }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate64(int fd, off_t n) { if (fault::flip("ftruncate")) { errno = EIO; return -1; } return syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
off_t lseek64(int fd, off_t o, int w) { if (fault::flip("lseek")) { errno = EIO; return -1; } return syscall(SYS_lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
}
namespace fault {
static inline std::string slurp(const std::string& p) { std::string r; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return r; char b[65536]; for (;;) { ssize_t n = syscall(SYS_pread64, fd, b, sizeof b, r.size()); if (n <= 0) break; r.append(b, n); } close(fd); return r; }
static inline void dump(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); size_t o = 0; while (o < s.size()) { ssize_t n = syscall(SYS_pwrite64, fd, s.data() + o, s.size() - o, o); if (n <= 0) break; o += n; } close(fd); }
static inline bool there(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
}
