"""C01: RwSerializer."""
import sys, z3
from llcv.check import Check
from llcv.sym import *
from .lib import *

chk = Check('C01', ['src/internal_helper.cc'], harness='C01.cc', harness_srcs=['src/internal_helper.cc', 'src/fileops_posix.cc'],
            assumptions=['sizes and positions below 2^46; allocation of such sizes succeeds',
                         'put into a fixed (non-growable) buffer is called with enough room (documented caller duty)',
                         'growable buffer stays below 2^31 bytes (SizedBuf length is 32 bit)',
                         'FileOps behaves as a byte file: a successful pwrite/append/pread transfers exactly the requested range (C11/C12)',
                         'asserts are compiled out as in the shipped build'])
RW = 'jungle::RwSerializer'; SB = 'jungle::SizedBuf'
N = {'U64': 8, 'U32': 4, 'U16': 2, 'U8': 1}

def base(t, mode):
    """-> dict with serializer object s and the ghost view of what it writes to"""
    s = t.obj('ser', t.size(RW)); d = {'s': s, 'mode': mode}
    pos = t.bvs('pos'); d['pos'] = pos
    t.assume(z3.ULT(pos, z3.BitVecVal(LIM, 64)))
    t.set(s, RW, 'curPos', pos); t.set(s, RW, 'supportAppend', 0)
    t.set(s, RW, 'dstPtr', NULL); t.set(s, RW, 'rBuf', NULL); t.set(s, RW, 'fOps', NULL); t.set(s, RW, 'dstFile', NULL); t.set(s, RW, 'len', 0)
    if mode == 'mem':
        ln = t.bvs('len'); t.assume(z3.And(z3.ULT(ln, z3.BitVecVal(LIM, 64)), ln != 0))
        buf = t.obj('buf', ln); t.set(s, RW, 'dstPtr', buf); t.set(s, RW, 'len', ln); d.update(len=ln, buf=buf)
    elif mode == 'grow':
        ln = t.bvs('len'); t.assume(z3.And(z3.ULT(ln, z3.BitVecVal(1 << 29, 64)), ln != 0, z3.ULE(pos, ln)))
        buf = t.obj('buf', ln, kind='malloc')
        sb = sb_make(t, 'rbuf', trunc(ln, 32), buf, 1)
        t.set(s, RW, 'dstPtr', buf); t.set(s, RW, 'len', ln); t.set(s, RW, 'rBuf', sb); d.update(len=ln, buf=buf, sb=sb)
    elif mode == 'grow0':
        sb = sb_make(t, 'rbuf', 0, NULL, 0); t.st.objs[sb.obj].meta['z'] = 1
        t.assume(pos == 0); t.set(s, RW, 'rBuf', sb); d.update(len=0, buf=None, sb=sb)
        t.set(s, RW, 'curPos', 0); d['pos'] = 0
    else:
        ops = install_files(t); fh, fo = file_new(t)
        t.set(s, RW, 'fOps', ops); t.set(s, RW, 'dstFile', fh); t.set(s, RW, 'supportAppend', 1 if mode == 'append' else 0); d.update(file=fo)
    d['st0'] = t.st.clone()
    return d

def content(t, d, st):
    """ghost view after: (oid, base offset)"""
    if d['mode'] in ('file', 'append'): return d['file'], 0
    p = t.getp(st, d['s'], RW, 'dstPtr'); return p.obj, p.off

def frame_ok(t, d, st, fields):
    for f in fields:
        o, n = t.field(RW, f)
        a = t.ex.rdv(st, d['s'].add(o), n); b = t.ex.rdv(d['st0'], d['s'].add(o), n)
        t.prove(st, eq(a, b, 8 * n), 'frame:' + f)

def check_put(t, d, n, expect):
    """expect(st, i): byte i of the encoding (i symbolic or int); n: encoded size"""
    ex = t.ex; mode = d['mode']; pos = d['pos']
    j = t.bvs('j_any')
    def post(st, r):
        off = t.get(st, d['s'], RW, 'curPos')
        okc = eq(r, 0, 32)
        ok = ex.decide(st, okc) if isinstance(okc, bool) or ex.must(st, okc) or ex.must(st, b_not(okc)) else None
        if mode in ('mem', 'grow', 'grow0'): t.prove(st, okc, 'memory put succeeds'); ok = True
        if ok is None: raise EngineError('status undetermined')
        if not ok:
            t.cover('fail'); t.prove(st, eq(off, pos), 'failed put does not advance'); return
        t.cover('ok')
        t.prove(st, eq(off, add(pos, n)) if mode != 'append' else (eq(off, pos)), 'position advances by the encoded size' if mode != 'append' else 'append mode: position is the file\'s')
        oid, b = content(t, d, st)
        start = pos if mode != 'append' else d['st0'].ghost[('fsz', d['file'])]
        if isint(n) and n <= 8:
            for i in range(n): t.prove(st, eq(ex.byte(st, oid, add(add(b, start), i)), expect(st, i), 8), 'byte %d of the encoding' % i)
        else:
            t.prove(st, implies(ult(j, n), eq(ex.byte(st, oid, add(add(b, start), j)), expect(st, j), 8)), 'every byte written')
        # frame over the contents
        outside = b_or(ult(j, start), z3.UGE(j, bv(add(start, n), 64)))
        if mode == 'mem':
            t.prove(st, implies(outside, eq(ex.byte(st, oid, add(b, j)), ex.byte(d['st0'], d['buf'].obj, j), 8)), 'bytes outside unchanged')
            frame_ok(t, d, st, ['dstPtr', 'len', 'rBuf', 'fOps', 'dstFile', 'supportAppend'])
        elif mode == 'grow':
            nl = t.get(st, d['s'], RW, 'len')
            t.prove(st, implies(b_and(ult(j, d['len']), outside), eq(ex.byte(st, oid, add(b, j)), ex.byte(d['st0'], d['buf'].obj, j), 8)), 'growth keeps all other content')
            grown(t, d, st)
            t.prove(st, ule(d['len'], nl), 'never shrinks')
        elif mode == 'grow0': grown(t, d, st)
        else:
            old = d['st0'].ghost[('fsz', d['file'])]
            t.prove(st, implies(b_and(ult(j, old), outside), eq(ex.byte(st, oid, j), ex.byte(d['st0'], d['file'], j), 8)), 'other file bytes unchanged')
            e = add(start, n)
            t.prove(st, eq(fsize(st, d['file']), simp(z3.If(z3.UGT(bv(e, 64), bv(old, 64)), bv(e, 64), bv(old, 64)))), 'file size')
    return post
def grown(t, d, st):
    ex = t.ex
    nl = t.get(st, d['s'], RW, 'len'); p = t.getp(st, d['s'], RW, 'dstPtr'); q = t.getp(st, d['sb'], SB, 'data')
    t.prove(st, ex.ptr_eq(st, p, q), 'serializer and buffer agree on the memory')
    t.prove(st, eq(nl, zext(t.get(st, d['sb'], SB, 'size'), 32, 64)), 'serializer and buffer agree on the length')
    t.prove(st, ule(t.get(st, d['s'], RW, 'curPos'), nl), 'position inside the buffer')
    t.prove(st, eq(st.objs[p.obj].size, nl), 'length is the allocation size')
    fl = t.get(st, d['sb'], SB, 'flags')
    t.prove(st, bv(fl, 8) & 1 == 1 if not isint(fl) else fl & 1 == 1, 'buffer still owns its memory')

def grow_cands(t, d, n):
    """chkResize's loop: candidates over the loop-carried size"""
    def c(cx):
        out = []
        for ph in cx.phis:
            ty, v0 = cx.entry[ph]; v = cx.cur[ph]
            if ty != ('i', 64): continue
            i = cx.phis.index(ph)
            out.append(('size%d>=entry' % i, ule(v0, v)))
            out.append(('size%d<=2*needed or entry' % i, b_or(eq(v, v0), ule(v, mul(2, add(d['pos'], n))))))
            out.append(('size%d>0' % i, b_not(eq(v, 0))))
        return out
    return c

for w, n in N.items():
    for mode in ('mem', 'grow', 'grow0', 'file', 'append'):
        def f(t, w=w, n=n, mode=mode):
            d = base(t, mode)
            v = t.bvs('val', 8 * n)
            if mode == 'mem': t.assume(z3.ULE(d['pos'] + n, d['len']))
            t.ex.loop_cands = grow_cands(t, d, n)
            t.run(r'jungle::RwSerializer::put%s\(.*\)' % w, [d['s'], v], check_put(t, d, n, lambda st, i: be_bytes(v, n)[i]))
        chk.task('put%s/%s' % (w, mode), covers=('ok',) if mode not in ('file', 'append') else ('ok', 'fail'))(f)

for mode in ('mem', 'grow', 'grow0', 'file', 'append'):
    def f(t, mode=mode):
        d = base(t, mode)
        n = t.bvs('n'); src = t.obj('src', n)
        t.assume(z3.ULT(n, z3.BitVecVal(1 << 29, 64)))
        if mode == 'mem': t.assume(z3.ULE(d['pos'] + n, d['len']))
        t.ex.loop_cands = grow_cands(t, d, n)
        s0 = d['st0'] = t.st.clone()
        t.run(r'jungle::RwSerializer::put\(.*\)', [d['s'], src, n], check_put(t, d, n, lambda st, i: t.ex.byte(s0, src.obj, i)))
    chk.task('put/%s' % mode, covers=('ok',))(f)

def check_get(t, d, n, result):
    ex = t.ex; mode = d['mode']; pos = d['pos']; j = t.bvs('j_any')
    def post(st, stat, got):
        off = t.get(st, d['s'], RW, 'curPos')
        fits = ule(add(pos, n), d['len']) if mode == 'mem' else ule(add(pos, n), fsize(d['st0'], d['file']))
        t.prove(st, implies(b_not(fits), b_not(eq(stat, 0, 32))), 'a read beyond the end fails')
        if mode == 'mem':
            t.prove(st, implies(fits, eq(stat, 0, 32)), 'a read inside succeeds, whatever happened before')
            t.prove(st, implies(b_not(fits), eq(stat, (-51) & mask(32), 32)), 'reports READ_VIOLATION')
        t.prove(st, implies(eq(stat, 0, 32), eq(off, add(pos, n))), 'position advances by the encoded size')
        t.prove(st, implies(b_not(eq(stat, 0, 32)), eq(off, pos)), 'failed read consumes nothing')
        if ex.feasible(st, eq(stat, 0, 32)): t.cover('ok'); got(st, eq(stat, 0, 32))
        if ex.feasible(st, b_not(eq(stat, 0, 32))): t.cover('fail')
        # reads never modify the source
        oid = d['buf'].obj if mode == 'mem' else d['file']
        t.prove(st, eq(ex.byte(st, oid, j), ex.byte(d['st0'], oid, j), 8), 'source unchanged')
        frame_ok(t, d, st, ['dstPtr', 'len', 'rBuf', 'fOps', 'dstFile', 'supportAppend'])
    return post

for w, n in N.items():
    for mode in ('mem', 'file'):
        def f(t, w=w, n=n, mode=mode):
            d = base(t, mode); ex = t.ex
            so = t.obj('s_out', 4)   # arbitrary previous status
            d['st0'] = t.st.clone()
            oid = d['buf'].obj if mode == 'mem' else d['file']
            p = check_get(t, d, n, None)
            def post(st, r):
                def got(st, okc):
                    exp = be_val([ex.byte(d['st0'], oid, add(d['pos'], i)) for i in range(n)])
                    t.prove(st, implies(okc, eq(r, exp, 8 * n)), 'value is the big-endian integer at the position')
                p(st, ex.rdv(st, so, 4), got)
            t.run(r'jungle::RwSerializer::get%s\(.*\)' % w, [d['s'], so], post)
        chk.task('get%s/%s' % (w, mode), covers=('ok', 'fail'))(f)

for mode in ('mem', 'file'):
    def f(t, mode=mode):
        d = base(t, mode); ex = t.ex
        n = t.bvs('n'); dst = t.obj('dst', n); t.assume(z3.ULT(n, z3.BitVecVal(LIM, 64)))
        d['st0'] = t.st.clone(); i = t.bvs('i_any')
        oid = d['buf'].obj if mode == 'mem' else d['file']
        p = check_get(t, d, n, None)
        def post(st, r):
            def got(st, okc):
                t.prove(st, implies(b_and(okc, ult(i, n)), eq(ex.byte(st, dst.obj, i), ex.byte(d['st0'], oid, add(d['pos'], i)), 8)), 'every byte read')
            p(st, r, got)
        t.run(r'jungle::RwSerializer::get\(.*\)', [d['s'], dst, n], post)
    chk.task('get/%s' % mode, covers=('ok', 'fail'))(f)

@chk.task('putSb/mem', covers=('ok',))
def _(t):
    d = base(t, 'mem'); ex = t.ex
    n = t.bvs('n', 32); n64 = z3.ZeroExt(32, n); src = t.obj('src', n64); sb = sb_make(t, 'sb', n, src)
    t.assume(z3.ULE(d['pos'] + n64 + 4, d['len']))
    d['st0'] = t.st.clone()
    def exp(st, i):
        e = be_bytes(n, 4); i = bv(i, 64)
        r = bv(ex.byte(d['st0'], src.obj, simp(i - 4)), 8)
        for q in range(4): r = z3.If(i == q, bv(e[q], 8), r)
        return r
    t.run(r'jungle::RwSerializer::putSb\(.*\)', [d['s'], sb], check_put(t, d, simp(n64 + 4), exp))

for clone in (1, 0):
    def f(t, clone=clone):
        d = base(t, 'mem'); ex = t.ex
        out = sb_make(t, 'out', t.bvs('osz', 32), NULL, t.bvs('ofl', 8))
        d['st0'] = t.st.clone(); i = t.bvs('i_any'); pos = d['pos']; ln = d['len']
        hdr = ule(add(pos, 4), ln)
        n = z3.ZeroExt(32, bv(be_val([ex.byte(d['st0'], d['buf'].obj, add(pos, q)) for q in range(4)]), 32))
        fits = b_and(hdr, ule(add(add(pos, 4), n), ln))
        def post(st, r):
            off = t.get(st, d['s'], RW, 'curPos'); ok = eq(r, 0, 32)
            t.prove(st, simp(bo(ok) == bo(fits)), 'succeeds iff the whole buffer is inside')
            t.prove(st, implies(ok, eq(off, add(add(pos, 4), n))), 'position advances by the encoded size')
            t.prove(st, implies(b_not(ok), eq(off, pos)), 'failed read consumes nothing')
            j = t.bvs('j_any')
            t.prove(st, eq(ex.byte(st, d['buf'].obj, j), ex.byte(d['st0'], d['buf'].obj, j), 8), 'source unchanged')
            if not ex.feasible(st, ok): t.cover('fail'); return
            t.cover('ok')
            t.prove(st, implies(ok, eq(zext(t.get(st, out, SB, 'size'), 32, 64), n)), 'length')
            if ex.must(st, b_or(eq(n, 0), b_not(ok))): return
            q = t.getp(st, out, SB, 'data')
            t.prove(st, q.obj != 0 and st.objs[q.obj].alive, 'data is live memory')
            t.prove(st, implies(b_and(ok, ult(i, n)), eq(ex.byte(st, q.obj, add(q.off, i)), ex.byte(d['st0'], d['buf'].obj, add(add(pos, 4), i)), 8)), 'content')
            if clone: t.prove(st, q.obj != d['buf'].obj and bv(t.get(st, out, SB, 'flags'), 8) & 1 == 1, 'clone owns its memory')
            else: t.prove(st, q.obj == d['buf'].obj, 'refers to the source')
        t.run(r'jungle::RwSerializer::getSb\(.*\)', [d['s'], out, bool(clone)], post)
    chk.task('getSb/mem/%s' % ('clone' if clone else 'refer'), covers=('ok', 'fail'))(f)

@chk.task('available')
def _(t):
    d = base(t, 'mem'); n = t.bvs('n'); t.assume(z3.ULT(n, z3.BitVecVal(LIM, 64)))
    def post(st, r): t.prove(st, simp(bo(r) == bo(ule(add(d['pos'], n), d['len']))), 'available iff inside')
    t.run(r'jungle::RwSerializer::available\(.*\)', [d['s'], n], post)
@chk.task('pos')
def _(t):
    d = base(t, 'mem'); n = t.bvs('np'); t.assume(z3.ULE(n, d['len']))
    def post(st, r): t.prove(st, b_and(eq(r, n), eq(t.get(st, d['s'], RW, 'curPos'), n)), 'pos(x) moves to x')
    t.run(r'jungle::RwSerializer::pos\(unsigned long\)', [d['s'], n], post)
    def post2(st, r): t.prove(st, eq(r, d['pos']), 'pos() reports the position')
    t.run(r'jungle::RwSerializer::pos\(\) const', [d['s']], post2)
@chk.task('size')
def _(t):
    d = base(t, 'mem')
    t.run(r'jungle::RwSerializer::size\(\)', [d['s']], lambda st, r: t.prove(st, eq(r, d['len']), 'size of memory'))
@chk.task('size/file')
def _(t):
    d = base(t, 'file')
    t.run(r'jungle::RwSerializer::size\(\)', [d['s']], lambda st, r: t.prove(st, eq(r, fsize(d['st0'], d['file'])), 'size of file'))
@chk.task('roundtrip-lemma')
def _(t):
    for n in (1, 2, 4, 8):
        v = t.bvs('v%d' % n, 8 * n)
        t.prove(t.st, eq(be_val(be_bytes(v, n)), v, 8 * n), 'decode(encode(v)) = v for %d bytes' % n)

if __name__ == '__main__': sys.exit(chk.main())
