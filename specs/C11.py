"""C11: POSIX file layer."""
import sys, z3
from llcv.check import Check
from llcv.exe import Outcomes
from llcv.sym import *
from .lib import *
from .kernel import K

chk = Check('C11', ['src/fileops_posix.cc'], harness='C11.cc', harness_srcs=['src/fileops_posix.cc', 'src/internal_helper.cc'], harness_flags=['-DH_NOSLEEP'],
            assumptions=['system calls follow POSIX on a regular file: a data call transfers a prefix of the request or nothing, and reports how much (trusted contracts in specs/kernel.py)',
                         'no other process writes the file during a call', 'offsets and sizes below 2^47', 'the retry loops are proved for partial correctness; that they end is checked on the real code only'])
FP_ = 'jungle::FileOpsPosix'; FH = 'jungle::FileHandlePosix'
def handle(t, fd):
    h = iface(t, FH, 'handle', t.size(FH)); t.set(h, FH, 'fd', fd); return h
def setup(t):
    k = K(t); d = type('D', (), {})(); d.k = k; d.h = handle(t, k.fd); d.this = t.obj('ops', t.size(FP_))
    return d
def size_ok(t, v): t.assume(z3.ULT(v, z3.BitVecVal(1 << 46, 64)))
def cands(d, t, st0, off, n, x, buf=None, rd=False):
    k = d.k; ex = t.ex; m0 = simp(bv(off, 64) + bv(n, 64))
    def c(cx):
        out = []; st = cx.st
        sz = k.size(st)
        mx = simp(z3.If(z3.UGT(bv(m0, 64), bv(k.size0, 64)), bv(m0, 64), bv(k.size0, 64)))
        out.append(('file never shrinks', ule(k.size0, sz))); out.append(('size bounded', ule(sz, mx))); out.append(('size kept', eq(sz, k.size0)))
        ins = b_and(ule(off, x), ult(x, m0))
        out.append(('outside kept', z3.Implies(z3.And(z3.ULT(x, k.size0), z3.Not(bo(ins))), bv(k.byte(st, x), 8) == bv(k.byte(st0, x), 8))))
        out.append(('file kept', z3.Implies(z3.ULT(x, bv(k.size0, 64)), bv(k.byte(st, x), 8) == bv(k.byte(st0, x), 8))))
        nc, fr = k.g(st, 1), k.g(st, 2)
        out.append(('first call did not finish', b_or(eq(nc, 0), b_not(eq(fr, n))))); out.append(('no call yet', eq(nc, 0))); out.append(('calls made', b_not(eq(nc, 0))))
        out.append(('no calls at k=0', b_or(eq(cx.k, 0), b_not(eq(nc, 0)))))
        # progress counters of a resuming loop
        d_ = simp(bv(x, 64) - bv(off, 64))
        for i, ph in enumerate(cx.phis):
            ty, v0 = cx.entry[ph]; v = cx.cur[ph]
            if ty == ('i', 64):
                out.append(('phi%d<=count' % i, ule(v, n)))
                if rd: out.append(('bytes before phi%d read' % i, z3.Implies(z3.And(bo(ins), z3.ULT(d_, bv(v, 64))), b_and(ult(x, k.size0), eq(ex.byte(st, buf.obj, d_), k.byte(st0, x), 8)))))
                else: out.append(('bytes before phi%d written' % i, z3.Implies(z3.And(bo(ins), z3.ULT(d_, bv(v, 64))), bo(b_and(eq(k.byte(st, x), ex.byte(st0, buf.obj, d_), 8), ult(x, sz))))))
                out.append(('phi%d+first' % i, b_or(eq(nc, 0), b_not(eq(fr, n)), eq(v, n))))
                out.append(('phi%d=0 before' % i, b_or(b_not(eq(nc, 0)), eq(v, 0))))
        return out
    return c
def common(t, d, st, st0):
    j = t.bvs('j'); t.prove(st, eq(t.ex.byte(st, d.h.obj, j), t.ex.byte(st0, d.h.obj, j), 8), 'handle unchanged'); t.prove(st, eq(d.k.g(st, 5), 0), 'descriptor not closed')
def wr(name):
    @chk.task(name)
    def _(t):
        ex = t.ex; ex.unroll = 200; d = setup(t); k = d.k; n = t.bvs('count'); size_ok(t, n); buf = t.obj('data', n)
        if name == 'append': off = k.size0; args = [d.this, d.h, buf, n]
        else: off = t.bvs('offset'); size_ok(t, off); args = [d.this, d.h, buf, n, off]
        st0 = t.st.clone(); x = t.bvs('any_pos')
        ex.loop_cands = cands(d, t, st0, off, n, x, buf)
        def post(st, r):
            ok = eq(r, 0, 32); end = add(off, n); d_ = simp(bv(x, 64) - bv(off, 64)); ins = b_and(ule(off, x), ult(x, end))
            t.prove(st, implies(b_and(ok, ins), eq(k.byte(st, x), ex.byte(st0, buf.obj, d_), 8)), 'success: every requested byte is in the file at its offset')
            t.prove(st, implies(ok, b_or(eq(n, 0), ule(end, k.size(st)))), 'success: the file reaches the end of the request')
            t.prove(st, implies(b_and(ult(x, k.size0), b_not(ins)), eq(k.byte(st, x), k.byte(st0, x), 8)), 'no other byte of the file changes')
            t.prove(st, b_and(ule(k.size0, k.size(st)), b_or(ule(k.size(st), end), eq(k.size(st), k.size0))), 'file size stays within the request')
            t.prove(st, implies(b_or(eq(n, 0), b_and(b_not(eq(k.g(st, 1), 0)), eq(k.g(st, 2), n))), ok), 'a complete transfer is reported as success')
            t.prove(st, implies(b_and(b_not(eq(n, 0)), eq(k.g(st, 1), 0)), b_not(ok)), 'no success without a system call')
            if name == 'append': t.prove(st, implies(ok, eq(k.size(st), end)), 'success: the file grew by exactly the data')
            common(t, d, st, st0); j = t.bvs('j'); t.prove(st, eq(ex.byte(st, buf.obj, j), ex.byte(st0, buf.obj, j), 8), 'data unchanged')
        t.run(FP_ + '::%s\\(.*\\)' % name, args, post)
wr('pwrite'); wr('append')
@chk.task('pread')
def _(t):
    ex = t.ex; d = setup(t); k = d.k; n = t.bvs('count'); size_ok(t, n); buf = t.obj('buffer', n); off = t.bvs('offset'); size_ok(t, off); st0 = t.st.clone(); x = t.bvs('any_pos')
    ex.loop_cands = cands(d, t, st0, off, n, x, buf, True)
    def post(st, r):
        ok = eq(r, 0, 32); end = add(off, n); d_ = simp(bv(x, 64) - bv(off, 64)); ins = b_and(ule(off, x), ult(x, end))
        t.prove(st, implies(b_and(ok, ins), b_and(ult(x, k.size0), eq(ex.byte(st, buf.obj, d_), k.byte(st0, x), 8))), 'success: the buffer holds exactly the requested file bytes')
        t.prove(st, implies(ult(x, k.size0), eq(k.byte(st, x), k.byte(st0, x), 8)), 'reading changes no file byte'); t.prove(st, eq(k.size(st), k.size0), 'reading does not change the size')
        t.prove(st, implies(b_or(eq(n, 0), b_and(b_not(eq(k.g(st, 1), 0)), eq(k.g(st, 2), n))), ok), 'a complete transfer is reported as success')
        t.prove(st, implies(b_and(b_not(eq(n, 0)), ult(k.size0, end)), b_not(ok)), 'reading past the end is an error')
        common(t, d, st, st0)
    t.run(FP_ + '::pread\\(.*\\)', [d.this, d.h, buf, n, off], post)
@chk.task('pread into no buffer')
def _(t):
    d = setup(t); n = t.bvs('count'); size_ok(t, n); t.assume(n != 0); off = t.bvs('offset'); size_ok(t, off)
    t.run(FP_ + '::pread\\(.*\\)', [d.this, d.h, NULL, n, off], lambda st, r: t.prove(st, b_not(eq(r, 0, 32)), 'no buffer is an error'))
@chk.task('eof')
def _(t):
    d = setup(t); k = d.k
    def post(st, r): t.prove(st, b_or(eq(r, k.size0), simp(bv(r, 64) < 0)), 'the size of the file, or an error'); t.prove(st, eq(k.size(st), k.size0), 'nothing changes')
    t.run(FP_ + '::eof\\(.*\\)', [d.this, d.h], post)
@chk.task('flush/fsync/ftruncate/close')
def _(t):
    ex = t.ex; d = setup(t); k = d.k; x = t.bvs('any_pos'); st0 = t.st.clone()
    same = lambda st: implies(ult(x, k.size(st)), eq(k.byte(st, x), k.byte(st0, x), 8))
    def p1(st, r):
        t.prove(st, implies(eq(r, 0, 32), b_and(ule(1, k.g(st, 3)), eq(k.g(st, 4), k.size0))), 'fsync: success means the descriptor was synced'); t.prove(st, b_and(same(st), eq(k.size(st), k.size0)), 'fsync changes nothing'); common(t, d, st, st0)
    t.run(FP_ + '::fsync\\(.*\\)', [d.this, d.h], p1)
    def p1b(st, r): t.prove(st, eq(r, 0, 32), 'flush of an open handle succeeds'); t.prove(st, b_and(same(st), eq(k.size(st), k.size0)), 'flush changes nothing'); common(t, d, st, st0)
    t.run(FP_ + '::flush\\(.*\\)', [d.this, d.h], p1b)
    n = t.bvs('length')
    def p2(st, r):
        ok = eq(r, 0, 32); t.prove(st, implies(ok, eq(k.size(st), n)), 'ftruncate: success means exactly the requested length'); t.prove(st, implies(b_not(ok), eq(k.size(st), k.size0)), 'ftruncate: failure changes nothing')
        t.prove(st, implies(b_and(ult(x, k.size0), ult(x, k.size(st))), eq(k.byte(st, x), k.byte(st0, x), 8)), 'ftruncate keeps the remaining bytes'); common(t, d, st, st0)
    t.run(FP_ + '::ftruncate\\(.*\\)', [d.this, d.h, n], p2)
    def p3(st, r):
        ok = eq(r, 0, 32); fd = t.get(st, d.h, FH, 'fd')
        t.prove(st, eq(k.g(st, 5), 1), 'close: descriptor closed once'); t.prove(st, implies(ok, simp(bv(fd, 32) <= 0)), 'close: a closed handle is marked closed'); t.prove(st, b_and(same(st), eq(k.size(st), k.size0)), 'close changes no content')
    t.run(FP_ + '::close\\(.*\\)', [d.this, d.h], p3)
@chk.task('null or closed handle')
def _(t):
    d = setup(t); k = d.k; fd = t.bvs('bad_fd', 32); t.assume(fd <= 0); bad = handle(t, fd); n = t.bvs('count'); size_ok(t, n); t.assume(n != 0); buf = t.obj('data', n); off = t.bvs('offset'); size_ok(t, off)
    for h in (NULL, bad):
        for fn, args in (('pread', [buf, n, off]), ('pwrite', [buf, n, off]), ('append', [buf, n]), ('flush', []), ('fsync', []), ('ftruncate', [off]), ('close', [])):
            def post(st, r): t.prove(st, b_not(eq(r, 0, 32)), fn + ' on a null or closed handle is an error'); t.prove(st, eq(k.g(st, 1), 0), fn + ': no system call')
            t.run(FP_ + '::%s\\(.*\\)' % fn, [d.this, h] + args, post)
        t.run(FP_ + '::eof\\(.*\\)', [d.this, h], lambda st, r: t.prove(st, simp(bv(r, 64) < 0), 'eof on a null or closed handle is an error'))
@chk.task('open')
def _(t):
    ex = t.ex; k = K(t); this = t.obj('ops', t.size(FP_)); name, chars, n = str_obj(t, 'path'); out = t.obj('out', 8); mode = t.bvs('mode', 32); t.assume(z3.Or(mode == 0, mode == 1)); t.put(out, 8, NULL)
    def op(ex_, st, a, f, i):
        ex.prove(st, a[0].obj == chars.obj and eq(a[0].off, 0), t.name + '/opens exactly the named file', 'requires')
        fl = bv(a[1], 32)
        ex.prove(st, implies(mode == 0, (fl & 0o102) == 0o102), t.name + '/normal mode creates and opens for reading and writing', 'requires'); ex.prove(st, implies(mode == 1, (fl & 0o103) == 0), t.name + '/read-only mode neither creates nor writes', 'requires')
        ex.prove(st, (fl & 0o3000) == 0, t.name + '/content is neither truncated nor appended blindly', 'requires')
        st.ghost['opens'] = st.ghost.get('opens', 0) + 1
        return Outcomes([(True, lambda s: (s.ghost.__setitem__('opened', True), k.fd)[1]), (True, lambda s: mask(32))])
    t.prog.contract(r'open(64)?', op, True)
    def post(st, r):
        ok = eq(r, 0, 32); p = ex.rdp(st, out)
        if st.ghost.get('opened'): 
            t.prove(st, ok, 'an opened file is reported as success')
            t.prove(st, p.obj != 0 and st.objs[p.obj].alive, 'success yields a handle'); 
            if p.obj: t.prove(st, eq(t.get(st, p, FH, 'fd'), k.fd, 32), 'handle of exactly this descriptor')
        else: t.prove(st, b_not(ok), 'a failed open is reported'); t.prove(st, p.obj == 0, 'no handle on failure')
        t.prove(st, st.ghost.get('opens', 0) == 1, 'one file is opened'); t.prove(st, eq(k.g(st, 5), 0), 'nothing is closed')
    t.run(FP_ + '::open\\(.*\\)', [this, out, name, mode], post)
@chk.task('remove/mkdir/exist')
def _(t):
    ex = t.ex; this = t.obj('ops', t.size(FP_)); name, chars, n = str_obj(t, 'path')
    def sc(nm):
        def h(ex_, st, a, f, i):
            ex.prove(st, a[0].obj == chars.obj and eq(a[0].off, 0), t.name + '/%s addresses exactly the named file' % nm, 'requires'); st.ghost['call'] = st.ghost.get('call', ()) + (nm,)
            return Outcomes([(True, lambda s: (s.ghost.__setitem__('res', True), 0)[1]), (True, lambda s: (s.ghost.__setitem__('res', False), mask(32))[1])])
        return h
    for nm in ('remove', 'unlink', 'mkdir', 'stat', 'access', 'stat64', '__xstat'): t.prog.contract(nm, sc(nm), True)
    def chk_(fn, allowed, yes):
        def post(st, r):
            c = st.ghost.get('call', ()); t.prove(st, len(c) == 1 and c[0] in allowed, fn + ': exactly one system call')
            ok = yes(r); t.prove(st, ok if st.ghost.get('res') else b_not(ok), fn + ': reports the result of the system call')
        t.run(FP_ + '::%s\\(.*\\)' % fn, [this, name], post)
    chk_('remove', ('remove', 'unlink'), lambda r: eq(r, 0, 32)); chk_('mkdir', ('mkdir',), lambda r: eq(r, 0, 32)); chk_('exist', ('stat', 'access', 'stat64'), lambda r: bo(r))
if __name__ == '__main__': sys.exit(chk.main())
