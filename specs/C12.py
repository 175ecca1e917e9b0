"""C12: direct-I/O file layer."""
import sys, z3
from llcv.check import Check
from llcv.exe import Outcomes
from llcv.sym import *
from .lib import *
from .kernel import K

chk = Check('C12', minmax=True, task_limit=360, srcs=['src/fileops_directio.cc'], harness='C12.cc', harness_srcs=['src/fileops_directio.cc', 'src/internal_helper.cc', 'src/logger.cc'], harness_flags=['-DH_NOSLEEP'],
            assumptions=['system calls follow POSIX on a regular file: a data call transfers a prefix of the request or nothing, and reports how much (trusted contracts in specs/kernel.py)',
                         'no other process writes the file; one handle per file', 'offsets and sizes below 2^46', 'buffer size a positive multiple of the alignment; proved for alignments 512 and 4096, every buffer size',
                         'posix_memalign returns memory of the requested alignment or fails', 'no logger attached', 'the retry loops are proved for partial correctness; that they end is checked on the real code only'])
DI = 'jungle::FileOpsDirectIO'; FH = 'jungle::FileHandleDirectIO'; LIM2 = z3.BitVecVal(1 << 46, 64)
RI = DI + r'::readInternal\(.*\)'
LIM3 = z3.BitVecVal(1 << 48, 64)
class D: pass
def ops_obj(t, A, B=None):
    o = iface(t, DI, 'ops', t.size(DI)); lg = A.bit_length() - 1; B = z3.Concat(z3.BitVecVal(0, 24), t.bvs('buffer_units', 40 - lg), z3.BitVecVal(0, lg))
    t.assume(B != 0)
    t.set(o, DI, 'myLog', NULL); t.set(o, DI, 'bufferSize', B); t.set(o, DI, 'alignSize', A); return o, B
def setup(t, A):
    d = D(); d.A = A; d.k = K(t); d.k.align = A; d.this, d.B = ops_obj(t, A)
    d.h = iface(t, FH, 'handle', t.size(FH)); d.buf = t.obj('write_buffer', simp(d.B + A), kind='malloc', align=A) if False else t.obj('write_buffer', simp(d.B + A), kind='malloc')
    t.st.objs[d.buf.obj].meta['align'] = A
    d.fp, d.bp, d.fl, d.fs = (t.bvs(x) for x in ('file_pos', 'buf_pos', 'flushed', 'fsynced')); d.x = t.bvs('any_pos')
    t.set(d.h, FH, 'fd', d.k.fd); po = d.h.add(t.field(FH, 'pathname')[0]); pn = t.bvs('path_len'); t.assume(z3.ULT(pn, z3.BitVecVal(1 << 30, 64))); t.put(po, 8, t.obj('path_chars', simp(pn + 1), kind='strdata')); t.put(po.add(8), 8, pn)
    for f, v in (('filePos', d.fp), ('flushedFilePos', d.fl), ('fsyncedFilePos', d.fs), ('bufPos', d.bp), ('bufPtr', d.buf), ('bufCharPtr', d.buf)): t.set(d.h, FH, f, v)
    t.assume(z3.And(z3.ULT(d.fp, LIM2), z3.ULT(d.bp, LIM2)))
    d.st0 = t.st.clone()
    for n_, f in inv(t, d, t.st, d.x): t.assume(bo(f))
    if t.ex.solver.check() != z3.sat: raise EngineError('invariant unsatisfiable')
    d.st0 = t.st.clone(); d.end0 = simp(d.fp + d.bp)
    cast(t, d); return d
def cast(t, d):
    def eof_(ex, st, a, f, i):
        # contract of eof, proved in its own task
        ex.prove(st, a[1].obj != 0 and eq(t.get(st, a[1], FH, 'fd'), d.k.fd, 32), t.name + '/eof: open handle of the file', 'requires')
        def bad(s):
            r = ex.fresh('eof_error', 64); ex.assume(s, r < 0); return r
        return Outcomes([(True, lambda s: d.k.size(s)), (True, bad)])
    t.prog.virt[(DI, 'eof')] = eof_
    def dc(ex, st, a, f, i):
        if a[0].obj == 0: return NULL
        if a[0].obj not in (getattr(d, 'h', NULL).obj,) and st.objs[a[0].obj].kind not in ('iface', 'new'): raise EngineError('cast of an unknown object')
        return a[0]
    t.prog.contract('__dynamic_cast', dc, True)
def fld(t, d, st, h=None):
    h = h or d.h; return tuple(t.get(st, h, FH, f) for f in ('filePos', 'bufPos', 'flushedFilePos', 'fsyncedFilePos'))
def Lb(t, d, st, x, h=None):
    """byte x of the handle's content: file below filePos, write buffer above"""
    fp, bp, fl, fs = fld(t, d, st, h); b = t.getp(st, h or d.h, FH, 'bufPtr')
    return simp(z3.If(z3.ULT(bv(x, 64), bv(fp, 64)), bv(d.k.byte(st, x), 8), bv(t.ex.byte(st, b.obj, simp(bv(x, 64) - bv(fp, 64))), 8)))
def inv(t, d, st, x, h=None):
    fp, bp, fl, fs = fld(t, d, st, h); k = d.k; A = d.A
    return [('buffer position within the buffer', ule(bp, d.B)), ('file position aligned', eq(simp(bv(fp, 64) & (A - 1)), 0)), ('file holds everything before the buffer', ule(fp, k.size(st))),
            ('flushed part exists', b_and(ule(fl, add(fp, bp)), ule(fl, k.size(st)), ule(fp, fl), ule(fs, fl))),
            ('flushed bytes are in the file', implies(ult(x, fl), eq(k.byte(st, x), Lb(t, d, st, x, h), 8))),
            ('synced bytes are durable', implies(b_and(ult(x, fs), ult(x, fl)), eq(t.ex.byte(st, k.dur.obj, x), k.byte(st, x), 8)))]
def keep(t, d, st, h=None, name='invariant'):
    for n_, f in inv(t, d, st, d.x, h): t.prove(st, f, '%s: %s' % (name, n_))
    b, c = t.getp(st, h or d.h, FH, 'bufPtr'), t.getp(st, h or d.h, FH, 'bufCharPtr')
    t.prove(st, b.obj == c.obj and b.obj != 0 and eq(b.off, 0) and eq(c.off, 0), name + ': buffer attached'); t.prove(st, st.objs[b.obj].alive, name + ': buffer live')
    if b.obj: t.prove(st, eq(st.objs[b.obj].size, simp(d.B + d.A)), name + ': buffer has room for padding')
    t.prove(st, eq(t.get(st, h or d.h, FH, 'fd'), d.k.fd, 32), name + ': descriptor kept'); t.prove(st, eq(d.k.g(st, 5), 0), name + ': descriptor open')
def content_kept(t, d, st, nm='content unchanged'):
    fp, bp, fl, fs = fld(t, d, st); x = d.x
    t.prove(st, eq(add(fp, bp), d.end0), nm + ': same length'); t.prove(st, implies(ult(x, d.end0), eq(Lb(t, d, st, x), Lb(t, d, d.st0, x), 8)), nm)
def file_kept(t, d, st, st0, nm='file'):
    t.prove(st, eq(d.k.size(st), d.k.size(st0)), nm + ' size unchanged'); t.prove(st, implies(ult(d.x, d.k.size(st0)), eq(d.k.byte(st, d.x), d.k.byte(st0, d.x), 8)), nm + ' bytes unchanged')
def file_cands(t, d, st0, extra=None, n=None):
    """retry loops around one data call: what stays"""
    k = d.k; x = d.x
    def c(cx):
        st = cx.st; out = []
        out.append(('size kept', eq(k.size(st), k.size(st0)))); out.append(('file kept', implies(ult(x, k.size(st0)), eq(k.byte(st, x), k.byte(st0, x), 8))))
        nc, fr = k.g(st, 1), k.g(st, 2)
        if n is not None: out += [('first call did not finish', b_or(eq(nc, 0), b_not(eq(fr, n)))), ('no call yet', eq(nc, 0))]
        out.append(('file grows', ule(k.size(st0), k.size(st))))
        e_ = cx.st0   # state at loop entry
        out.append(('grows from entry', ule(k.size(e_), k.size(st)))); 
        if hasattr(d, 'h'):
            fp, bp, fl, fs = fld(t, d, st); 
            out.append(('below file position kept', implies(b_and(ult(x, fp), ult(x, k.size(e_))), eq(k.byte(st, x), k.byte(e_, x), 8))))
            out.append(('flushed kept', implies(ult(x, fl), eq(k.byte(st, x), Lb(t, d, st, x), 8))))
            out.append(('old flushed kept', implies(ult(x, d.fl), eq(k.byte(st, x), Lb(t, d, d.st0, x), 8))))
        if extra: out += extra(cx)
        return out
    return c
def install_ri(t, d, facts=None, splits=None):
    """contract of readInternal (proved in its own task) for its callers"""
    def h(ex, st, a, f, i):
        this, path, fd, buf, n, off = a; k = d.k; A = d.A
        ex.prove(st, eq(fd, k.fd, 32), t.name + '/readInternal: descriptor of the handle', 'requires'); ex.prove(st, this.obj == d.this.obj, t.name + '/readInternal: same instance', 'requires')
        ex.prove(st, b_and(b_not(eq(n, 0)), eq(simp(bv(off, 64) & (A - 1)), 0), eq(simp(bv(buf.off, 64) & (A - 1)), 0), ult(n, LIM3), ult(off, LIM3)), t.name + '/readInternal: aligned request', 'requires')
        ex.prove(st, st.objs[buf.obj].meta.get('align', 1) % A == 0, t.name + '/readInternal: aligned memory', 'requires')
        up = simp((bv(n, 64) + (A - 1)) & ~(A - 1)); ex.deref(st, buf, up, 'write')
        if facts:
            v = ex.generalise(st, bv(n, 64), lambda v: facts(st, off, v) + [ule(v, st.objs[buf.obj].size)], 'slice')
            if v is not None: n = v; up = simp((v + (A - 1)) & ~z3.BitVecVal(A - 1, 64))
        def ok(s):
            ex.assume(s, bo(b_and(ule(add(off, n), k.size(s)))))
            havoc_range(ex, s, buf.obj, buf.off, up); o = s.obj_w(buf.obj); o.mem = C(o.mem, buf.off, n, s.objs[k.c.obj].mem, off)
            return 0
        def bad(s): havoc_range(ex, s, buf.obj, buf.off, up); return err(ex, s, 'read')
        cs = [True]
        for c in (splits(off, n) if splits else []): cs = [b_and(c0, c1) for c0 in cs for c1 in (c, b_not(c))]
        return Outcomes([(c, ok) for c in cs] + [(True, bad)])
    t.prog.contract(RI, h)
def tasks(A):
    @chk.task('readInternal/%d' % A)
    def _(t):
        ex = t.ex; ex.unroll = 160; d = D(); d.A = A; d.k = k = K(t); k.align = A; d.this, d.B = ops_obj(t, A); n, off = t.bvs('nbyte'), t.bvs('offset'); d.x = x = t.bvs('any_pos')
        t.assume(z3.And(n != 0, z3.ULT(n, LIM3), z3.ULT(off, LIM3), off & (A - 1) == 0)); up = simp((n + (A - 1)) & ~z3.BitVecVal(A - 1, 64)); cap = t.bvs('cap'); t.assume(z3.And(z3.ULE(up, cap), z3.ULE(cap, LIM3)))
        buf = t.obj('buffer', cap, kind='malloc'); t.st.objs[buf.obj].meta['align'] = A; path, _, _ = str_obj(t, 'path'); st0 = t.st.clone()
        ex.loop_cands = file_cands(t, d, st0, lambda cx: [('beyond kept', implies(z3.UGE(x, up), eq(ex.byte(cx.st, buf.obj, x), ex.byte(st0, buf.obj, x), 8)))], n)
        def post(st, r):
            ok = eq(r, 0, 32); i = simp(x - bv(off, 64)); ins = z3.And(z3.UGE(x, off), z3.ULT(x, off + n))
            t.prove(st, implies(ok, ule(add(off, n), k.size(st))), 'success only inside the file'); t.prove(st, implies(b_and(ok, ins), eq(ex.byte(st, buf.obj, i), k.byte(st0, x), 8)), 'success: exactly the requested file bytes')
            t.prove(st, implies(b_and(z3.UGE(x, up)), eq(ex.byte(st, buf.obj, x), ex.byte(st0, buf.obj, x), 8)), 'nothing is written beyond the aligned request')
            t.prove(st, implies(b_and(b_not(eq(k.g(st, 1), 0)), eq(k.g(st, 2), n)), ok), 'a complete transfer is success'); file_kept(t, d, st, st0)
        t.run(RI, [d.this, path, k.fd, buf, n, off], post)
    @chk.task('append/%d' % A)
    def _(t):
        ex = t.ex; ex.unroll = 160; ex.unroll_sym = lambda *a: False; d = setup(t, A); k = d.k; x = d.x; n = t.bvs('count'); t.assume(z3.ULT(n, LIM2)); data = t.obj('data', n); st0 = t.st.clone()
        i = simp(x - d.end0)
        def cut(st, dst, src, ln):
            # forget how the slice was computed: it fits the buffer and the data, and fills one of them
            if not (dst.obj == d.buf.obj and src.obj == data.obj): return ln
            room, left = sub(d.B, dst.off), sub(n, src.off)
            v = ex.generalise(st, bv(ln, 64), lambda v: [ule(v, room), ule(v, left), b_or(eq(v, room), eq(v, left)), ule(src.off, n), ule(dst.off, d.B)], 'slice')
            return ln if v is None else v
        ex.memcpy_cut = cut
        def extra(cx):
            st = cx.st; fp, bp, fl, fs = fld(t, d, st); out = []; end = add(fp, bp); grown = sub(end, d.end0)
            out += [('inv ' + n_, f) for n_, f in inv(t, d, st, x)]
            out.append(('positions bounded', b_and(ult(fp, z3.BitVecVal(1 << 48, 64)), ule(fp, end))))
            out.append(('old content', implies(ult(x, d.end0), eq(Lb(t, d, st, x), Lb(t, d, st0, x), 8))))
            out.append(('new content', implies(z3.And(z3.UGE(x, d.end0), bo(ult(x, end))), eq(Lb(t, d, st, x), ex.byte(st0, data.obj, i), 8))))
            out.append(('buffer not full', ult(bp, d.B)))
            for j, ph in enumerate(cx.phis):
                ty, v0 = cx.entry[ph]; v = cx.cur[ph]
                if ty == ('i', 64): out.append(('phi%d==grown' % j, eq(add(v, d.end0), end))); out.append(('phi%d<=count' % j, ule(v, n)))
            return out
        ex.loop_cands = file_cands(t, d, st0, extra)
        def post(st, r):
            ok = eq(r, 0, 32); fp, bp, fl, fs = fld(t, d, st); end = add(fp, bp)
            t.prove(st, implies(ok, eq(end, simp(d.end0 + n))), 'success: content grows by exactly the data'); t.prove(st, implies(b_and(ok, z3.UGE(x, d.end0), ult(x, end)), eq(Lb(t, d, st, x), ex.byte(st0, data.obj, i), 8)), 'success: the data follows the old content')
            t.prove(st, implies(ult(x, d.end0), eq(Lb(t, d, st, x), Lb(t, d, st0, x), 8)), 'earlier content unchanged'); keep(t, d, st)
            t.prove(st, eq(ex.byte(st, data.obj, x), ex.byte(st0, data.obj, x), 8), 'data unchanged')
        t.run(DI + r'::append\(.*\)', [d.this, d.h, data, n], post)
    @chk.task('flush/%d' % A)
    def _(t):
        ex = t.ex; ex.unroll = 160; d = setup(t, A); k = d.k; x = d.x; st0 = d.st0; pe = pad_end(d)
        def pad_c(cx): return [('beyond padding kept', implies(b_and(ult(x, k.size0), z3.UGE(x, pe)), eq(k.byte(cx.st, x), k.byte(st0, x), 8))), ('size within padding', b_or(eq(k.size(cx.st), k.size0), ule(k.size(cx.st), pe)))]
        ex.loop_cands = file_cands(t, d, st0, lambda cx: [('inv ' + n_, f) for n_, f in inv(t, d, cx.st, x)] + pad_c(cx))
        def post(st, r): flush_post(t, d, st, r)
        t.run(DI + r'::flush\(.*\)', [d.this, d.h], post)
    @chk.task('fsync/%d' % A)
    def _(t):
        d = setup(t, A); x = d.x
        def post(st, r):
            ok = eq(r, 0, 32); fp, bp, fl, fs = fld(t, d, st)
            t.prove(st, implies(b_and(ok, ult(x, fl)), eq(t.ex.byte(st, d.k.dur.obj, x), Lb(t, d, st, x), 8)), 'success: everything flushed is durable'); t.prove(st, eq(fl, d.fl), 'flushed position unchanged'); content_kept(t, d, st); file_kept(t, d, st, d.st0); keep(t, d, st)
        t.run(DI + r'::fsync\(.*\)', [d.this, d.h], post)
    @chk.task('eof/%d' % A)
    def _(t):
        d = setup(t, A)
        def post(st, r): t.prove(st, b_or(eq(r, d.k.size0), simp(bv(r, 64) < 0)), 'the true size of the file, or an error'); file_kept(t, d, st, d.st0); content_kept(t, d, st); keep(t, d, st)
        t.run(DI + r'::eof\(.*\)', [d.this, d.h], post)
    @chk.task('ftruncate/%d' % A)
    def _(t):
        d = setup(t, A); k = d.k; x = d.x; install_ri(t, d); n = t.bvs('length'); st0 = d.st0
        def post(st, r):
            ok = eq(r, 0, 32); fp, bp, fl, fs = fld(t, d, st); cut = b_and(ok, ult(n, k.size0))
            t.prove(st, implies(cut, eq(k.size(st), n)), 'success: exactly the requested length'); t.prove(st, implies(cut, eq(add(fp, bp), n)), 'appending continues at the new end'); t.prove(st, implies(cut, eq(fl, n)), 'nothing is pending')
            t.prove(st, implies(b_and(cut, ult(x, n)), b_and(eq(Lb(t, d, st, x), k.byte(st0, x), 8), eq(k.byte(st, x), k.byte(st0, x), 8))), 'remaining bytes unchanged')
            t.prove(st, implies(b_and(ok, b_not(cut)), simp(n >= 0)), 'a negative length is refused')
            t.prove(st, implies(b_and(ok, b_not(cut)), b_and(eq(k.size(st), k.size0), eq(add(fp, bp), d.end0), implies(ult(x, d.end0), eq(Lb(t, d, st, x), Lb(t, d, st0, x), 8)))), 'a longer length changes nothing')
            if t.ex.must(st, ok): keep(t, d, st)
            t.prove(st, eq(k.g(st, 5), 0), 'descriptor stays open')
        t.run(DI + r'::ftruncate\(.*\)', [d.this, d.h, n], post)
    @chk.task('close/%d' % A)
    def _(t):
        ex = t.ex; d = setup(t, A); k = d.k; x = d.x
        def fl(ex_, st, a, f, i):
            # contract of flush, proved in its own task
            ex_.prove(st, a[1].obj == d.h.obj, t.name + '/flush: same handle', 'requires')
            def ok(s):
                s.ghost['flushed'] = True; fp, bp, _, _ = fld(t, d, s); e = add(fp, bp); o = s.obj_w(k.c.obj); sz = ex_.fresh('fsz', 64)
                ex_.assume(s, z3.And(bo(ule(e, sz)), bo(ule(k.size(s), sz)))); o.mem = C(o.mem, fp, bp, s.objs[d.buf.obj].mem, 0); havoc_range(ex_, s, k.c.obj, e, sub(sz, e)); k.s(s, 0, sz); ex_.store(s, d.h.add(t.field(FH, 'flushedFilePos')[0]), 8, e, chk=False); return 0
            return Outcomes([(True, ok), (True, lambda s: err(ex_, s, 'flush'))])
        t.prog.virt[(DI, 'flush')] = fl
        def post(st, r):
            ok = eq(r, 0, 32); n = k.g(st, 5); t.prove(st, implies(ok, b_and(bool(st.ghost.get('flushed')), eq(n, 1))), 'success: flushed, then closed once'); t.prove(st, implies(ok, simp(bv(t.get(st, d.h, FH, 'fd'), 32) <= 0)), 'success: handle marked closed')
            if not st.ghost.get('flushed'): t.prove(st, b_and(eq(n, 0), b_not(ok)), 'a failed flush keeps the handle open and is reported')
            t.prove(st, implies(b_and(ok, ult(x, d.end0)), b_and(ult(x, k.size(st)), eq(k.byte(st, x), Lb(t, d, d.st0, x), 8))), 'success: the file holds the whole content')
        t.run(DI + r'::close\(.*\)', [d.this, d.h], post)
    for hist in ('first read of the thread', 'after other reads'):
        for A2 in ([A] if hist[0] == 'f' else [512, 4096]):
            pread_task(A, hist, A2)
def pad_end(d):
    e = d.end0; A = d.A
    return simp(z3.If(e & (A - 1) == 0, e, z3.If(z3.UGE(A - (e & (A - 1)), 8), (e | (A - 1)) + 1, (e | (A - 1)) + 1 + A)))
def flush_post(t, d, st, r):
    k = d.k; x = d.x; A = d.A; ex = t.ex; st0 = d.st0
    ok = eq(r, 0, 32); fp, bp, fl, fs = fld(t, d, st); e = d.end0
    t.prove(st, implies(b_and(ok, ult(x, e)), b_and(ult(x, k.size(st)), eq(k.byte(st, x), Lb(t, d, st0, x), 8))), 'success: the file holds the whole content')
    t.prove(st, implies(ok, eq(fl, e)), 'success: everything counts as flushed'); content_kept(t, d, st); keep(t, d, st)
    wrote = b_and(ok, b_not(ult(simp(e - 1), d.fl)), b_not(eq(simp(e & (A - 1)), 0)), b_not(eq(d.bp, 0)))
    pe = pad_end(d); i = simp(x - e)
    t.prove(st, implies(wrote, b_and(ule(pe, k.size(st)), b_or(eq(k.size(st), pe), eq(k.size(st), k.size0)))), 'padded to the alignment, with room for the marker')
    i = z3.ZeroExt(48, t.bvs('any_pad', 16))
    t.prove(st, implies(b_and(wrote, z3.ULT(i, pe - e)), eq(k.byte(st, simp(e + i)), simp(z3.If(i == 0, z3.BitVecVal(0xfe, 8), z3.BitVecVal(0, 8))), 8)), 'padding is the marker followed by zero bytes')
    t.prove(st, implies(b_and(ult(x, k.size0), z3.UGE(x, pe)), eq(k.byte(st, x), k.byte(st0, x), 8)), 'nothing beyond the padding changes')
def pread_task(A, hist, A2):
    first = hist[0] == 'f'
    @chk.task('pread/%d, %s%s' % (A, hist, '' if first else ' (aligned %d)' % A2))
    def _(t):
        ex = t.ex; ex.unroll_sym = lambda *a: False; d = setup(t, A); k = d.k; x = d.x; n, off = t.bvs('count'), t.bvs('offset'); t.assume(z3.And(z3.ULT(n, LIM2), z3.ULT(off, LIM2))); install_ri(t, d, lambda st, p, v: [b_not(eq(v, 0)), ule(add(p, v), k.size0), ult(v, LIM3), b_or(eq(simp(bv(add(p, v), 64) & (A - 1)), 0), ule(simp(off + n), add(p, v))), b_or(eq(p, simp(off & ~z3.BitVecVal(A - 1, 64))), ult(off, p)), ult(off, add(p, v))], lambda p, v: [ule(p, off), ule(simp(off + n), add(p, v))]); buf = t.obj('out', n); H = 'jungle::AlignedMemoryHolder'
        mod = t.prog.mods['src/fileops_directio.cc']; names = [g for g in mod.globals if 'pread' in g and g.startswith('_ZZ') or 'pread' in g and '_ZZ' in g]; guards = [g for g in mod.globals if '_ZGVZ' in g and 'pread' in g]
        names = [g for g in names if g not in guards]
        if len(names) != 1: raise EngineError('attachment: read buffer of the thread')
        bs = t.bvs('held_size'); t.assume(z3.And(bs != 0, z3.ULT(bs, LIM2), bs & (A2 - 1) == 0)); held = t.obj('held_buffer', simp(bs + A2), kind='malloc'); t.st.objs[held.obj].meta['align'] = A2; cell = {}
        def hook(ex_, st, o):
            o.mem = BZero() if first else BSym(z3.Function('holder', z3.BitVecSort(64), z3.BitVecSort(8))); cell['h'] = o.id
            if not first:
                for f, v in (('bufPtr', held), ('bufSize', bs), ('alignSize', A2)): ex_.store(st, Ptr(o.id, t.field(H, f)[0]), 8, v, chk=False)
        def ghook(ex_, st, o): o.mem = BZero() if first else BConst(b'\1' + b'\0' * 7, {})
        t.prog.global_hooks[names[0]] = hook
        for g in guards: t.prog.global_hooks[g] = ghook
        st0 = t.st.clone()
        def extra(cx):
            out = []; end = simp(off + n); i = simp(x - off)
            vs = [('phi%d' % j, cx.cur[ph]) for j, ph in enumerate(cx.phis) if cx.entry[ph][0] == ('i', 64)] + [(nm, ex.rdv(cx.st, Ptr(o, 0), 8)) for nm, o in slots(cx) if not isinstance(ex.rd(cx.st, cx.st.objs[o].mem, 0, 8), Ptr)]
            a0 = simp(off & ~z3.BitVecVal(A - 1, 64))
            for nm, v in vs:
                out.append((nm + ' progress', b_and(ule(a0, v), b_or(eq(v, a0), ult(off, v)), b_or(eq(simp(bv(v, 64) & (A - 1)), 0), z3.UGE(bv(v, 64), end)), ule(v, k.size0))))
                out.append((nm + ' bytes so far', implies(z3.And(z3.UGE(x, off), z3.ULT(x, end), z3.ULT(x, bv(v, 64))), eq(ex.byte(cx.st, buf.obj, i), k.byte(st0, x), 8))))
            for nm, o in slots(cx, 4): out.append((nm + ' ok', eq(ex.rdv(cx.st, Ptr(o, 0), 4), 0, 32)))
            for j, ph in enumerate(cx.phis):
                if cx.entry[ph][0] == ('i', 32): out.append(('phi%d ok' % j, eq(cx.cur[ph], 0, 32)))
            return out
        ex.loop_cands = file_cands(t, d, st0, extra)
        def post(st, r):
            ok = eq(r, 0, 32); end = simp(off + n); i = simp(x - off)
            t.prove(st, implies(b_and(ok, z3.UGE(x, off), z3.ULT(x, end)), b_and(ult(x, k.size0), eq(ex.byte(st, buf.obj, i), k.byte(st0, x), 8))), 'success: exactly the file bytes at the offset')
            t.prove(st, implies(b_and(b_not(eq(n, 0)), ult(k.size0, end)), b_not(ok)), 'reading past the end fails'); file_kept(t, d, st, st0); content_kept(t, d, st); keep(t, d, st)
            if 'h' in cell and cell['h'] in st.objs:
                p = Ptr(cell['h'], 0); q = ex.rdp(st, p.add(t.field(H, 'bufPtr')[0])); bs2 = ex.rdv(st, p.add(t.field(H, 'bufSize')[0]), 8); al = ex.rdv(st, p.add(t.field(H, 'alignSize')[0]), 8)
                if q.obj:
                    o = st.objs[q.obj]; t.prove(st, o.alive and eq(q.off, 0) and o.meta.get('align') is not None and eq(al, o.meta.get('align')), 'read buffer live, its alignment recorded'); t.prove(st, eq(o.size, add(bs2, al)), 'read buffer: its size recorded')
        t.run(DI + r'::pread\(.*\)', [d.this, d.h, buf, n, off], post)
for A_ in (512, 4096): tasks(A_)
if __name__ == '__main__': sys.exit(chk.main())
