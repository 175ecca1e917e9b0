"""Trusted contracts of the system calls on one regular file, as ghost memory.
content object: the bytes; meta object: [0,8) size, [8,16) 1 once a data call was made, [16,24) result of the first data call, [24,32) number of syncs, [32,40) size at last sync call, [40,48) closes."""
import z3
from llcv.sym import *
from llcv.exe import Outcomes
from .lib import *
class K:
    def __init__(self, t, fd=None, pread_exact=False):
        self.t = t; ex = t.ex
        self.c = t.obj('file', None, kind='file'); self.m = t.obj('kernel', 64)
        self.dur = t.obj('durable', None, kind='file'); self.align = None
        self.size0 = t.bvs('file_size'); t.assume(z3.ULT(self.size0, z3.BitVecVal(1 << 47, 64)))
        for i, v in enumerate((self.size0, 0, 0, 0, 0, 0, 0, 0)): t.put(self.m.add(8 * i), 8, v)
        self.fd = t.bvs('fd', 32) if fd is None else fd
        if fd is None: t.assume(self.fd > 0)
        C_ = t.prog.contract
        C_(r'pwrite(64)?', self.pwrite, True); C_(r'pread(64)?', self.pread, True); C_(r'lseek(64)?', self.lseek, True)
        C_(r'fsync|fdatasync', self.fsync, True); C_(r'ftruncate(64)?', self.ftruncate, True); C_(r'close', self.close, True)
        C_(r'jungle::Timer::sleepUs\(.*\)|std::this_thread::sleep_for.*|usleep|nanosleep', lambda ex, st, a, f, i: 0, True)
        C_(r'strerror', lambda ex, st, a, f, i: NULL, True)
    # ghost accessors
    def g(self, st, i): return self.t.ex.rdv(st, self.m.add(8 * i), 8)
    def s(self, st, i, v): self.t.ex.store(st, self.m.add(8 * i), 8, v, chk=False)
    def size(self, st): return self.g(st, 0)
    def byte(self, st, i): return self.t.ex.byte(st, self.c.obj, i)
    def own(self, ex, st, fd): ex.prove(st, eq(fd, self.fd, 32), ex.task + '/the system call addresses the handle\'s descriptor', 'requires')
    def note(self, st, r):
        n = self.g(st, 1); f = self.g(st, 2)
        self.s(st, 2, simp(z3.If(bv(n, 64) == 0, bv(r, 64), bv(f, 64)))); self.s(st, 1, 1)
    # direct I/O: buffer, length and offset are multiples of the alignment
    def direct(self, ex, st, buf, n, off, w):
        if self.align is None: return
        m_ = self.align - 1
        ex.prove(st, st.objs[buf.obj].meta.get('align', 1) % self.align == 0, ex.task + '/%s: direct I/O buffer is aligned' % w, 'requires')
        for v, nm in ((buf.off, 'buffer'), (n, 'length'), (off, 'offset')): ex.prove(st, eq(simp(bv(v, 64) & m_), 0), ex.task + '/%s: direct I/O %s is aligned' % (w, nm), 'requires')
    def pwrite(self, ex, st, a, f, i):
        fd, buf, n, off = a; self.own(ex, st, fd)
        self.direct(ex, st, buf, n, off, 'pwrite')
        if not (isint(n) and n == 0): ex.deref(st, buf, n, 'read')
        r = ex.fresh('pwrite', 64); valid = b_and(simp(bv(off, 64) >= 0), b_not(eq(r, 0)))
        def ok(s):
            ex.assume(s, z3.And(r > 0, z3.ULE(r, bv(n, 64))))
            o = s.obj_w(self.c.obj); old = self.size(s)
            gap = simp(z3.If(z3.ULT(bv(old, 64), bv(off, 64)), bv(off, 64) - bv(old, 64), z3.BitVecVal(0, 64)))
            if not ex.must(s, eq(gap, 0)): o.mem = F(o.mem, old, gap, 0)
            o.mem = C(o.mem, off, r, s.objs[buf.obj].mem, buf.off)
            if s.written is not None: s.written.setdefault(self.c.obj, []).append((None, None))
            e = add(off, r); self.s(s, 0, simp(z3.If(z3.UGT(bv(e, 64), bv(old, 64)), bv(e, 64), bv(old, 64)))); self.note(s, r); self.seterr(ex, s); return r
        def bad(s):
            ex.assume(s, z3.Or(r == 0, r == -1)); self.note(s, r); self.seterr(ex, s); return r
        return Outcomes([(simp(bv(off, 64) >= 0), ok), (True, bad)])
    def pread(self, ex, st, a, f, i):
        fd, buf, n, off = a; self.own(ex, st, fd)
        self.direct(ex, st, buf, n, off, 'pread')
        if not (isint(n) and n == 0): ex.deref(st, buf, n, 'write')
        r = ex.fresh('pread', 64)
        def ok(s):
            sz = self.size(s)
            ex.assume(s, z3.And(r > 0, z3.ULE(r, bv(n, 64)), z3.ULT(bv(off, 64), bv(sz, 64)), z3.ULE(r, bv(sz, 64) - bv(off, 64))))
            o = s.obj_w(buf.obj); o.mem = C(o.mem, buf.off, r, s.objs[self.c.obj].mem, off)
            if s.written is not None: s.written.setdefault(buf.obj, []).append((buf.off, r))
            self.note(s, r); self.seterr(ex, s); return r
        def bad(s):
            ex.assume(s, z3.Or(r == 0, r == -1)); self.note(s, r); self.seterr(ex, s); return r
        return Outcomes([(simp(bv(off, 64) >= 0), ok), (True, bad)])
    def seterr(self, ex, s):
        if 'errno' in s.ghost: ex.store(s, Ptr(s.ghost['errno'], 0), 4, ex.fresh('errno', 32), chk=False)
    def lseek(self, ex, st, a, f, i):
        fd, off, wh = a; self.own(ex, st, fd)
        ex.prove(st, b_and(eq(off, 0), eq(wh, 2, 32)), ex.task + '/lseek asks for the end of file', 'requires')
        return Outcomes([(True, lambda s: self.size(s)), (True, lambda s: mask(64))])
    def fsync(self, ex, st, a, f, i):
        self.own(ex, st, a[0])
        def ok(s): self.s(s, 3, add(self.g(s, 3), 1)); self.s(s, 4, self.size(s)); s.obj_w(self.dur.obj).mem = s.objs[self.c.obj].mem; return 0
        return Outcomes([(True, ok), (True, lambda s: mask(32))])
    def ftruncate(self, ex, st, a, f, i):
        fd, n = a; self.own(ex, st, fd)
        def ok(s):
            old = self.size(s); o = s.obj_w(self.c.obj)
            gap = simp(z3.If(z3.ULT(bv(old, 64), bv(n, 64)), bv(n, 64) - bv(old, 64), z3.BitVecVal(0, 64)))
            if not ex.must(s, eq(gap, 0)): o.mem = F(o.mem, old, gap, 0)
            if s.written is not None: s.written.setdefault(self.c.obj, []).append((None, None))
            self.s(s, 0, n); return 0
        return Outcomes([(simp(bv(n, 64) >= 0), ok), (True, lambda s: mask(32))])
    def close(self, ex, st, a, f, i):
        self.own(ex, st, a[0])
        def fin(s, r): self.s(s, 5, add(self.g(s, 5), 1)); return r
        return Outcomes([(True, lambda s: fin(s, 0)), (True, lambda s: fin(s, mask(32)))])
