"""C02: CRC-32 of log and manifest records."""
import sys, z3
from llcv.check import Check
from llcv.sym import *
from .lib import *

chk = Check('C02', ['src/crc32.cc'], harness='C02.cc', harness_srcs=['src/crc32.cc'],
            assumptions=['a buffer of length n refers to n readable bytes, n < 2^46', 'little-endian machine (the code is compiled for it)'])
POLY = 0xEDB88320
def step8(x):
    """eight bitwise steps of the reflected CRC-32 register: the definition, not the code"""
    for _ in range(8): x = z3.LShR(x, 1) ^ z3.If(z3.Extract(0, 0, x) == 1, z3.BitVecVal(POLY, 32), z3.BitVecVal(0, 32))
    return x
class Reg:
    """R(off): CRC register after the bytes [base, off); R(base) = start, R(n+1) = step8(R(n) ^ byte(n))"""
    def __init__(self, name, byte, base, start):
        self.f = z3.Function('R_' + name, z3.BitVecSort(64), z3.BitVecSort(32)); self.byte = byte; self.base = base; self.start = start
    def ax0(self): return self.f(bv(self.base, 64)) == bv(self.start, 32)
    def __call__(self, off, depth=16):
        off = simp(off)
        if isint(off) and isint(self.base):
            d = off - self.base
            if 0 <= d <= depth: return self.unfold(self.base, d, bv(self.start, 32))
        if not isint(off) and off.decl().kind() == z3.Z3_OP_BADD:
            cs = [c for c in off.children() if z3.is_bv_value(c)]
            if len(cs) == 1 and 0 < cs[0].as_long() <= depth:
                c = cs[0].as_long(); b = simp(off - c)
                return self.unfold(b, c, self.f(bv(b, 64)))
        return self.f(bv(off, 64))
    def unfold(self, b, n, r):
        for i in range(n): r = z3.simplify(step8(r ^ z3.ZeroExt(24, bv(self.byte(add(b, i)), 8))), elim_ite=False) if False else step8(r ^ z3.ZeroExt(24, bv(self.byte(add(b, i)), 8)))
        return r
def cands(R, ln):
    def g(cx):
        out = []; offs = []
        for i, ph in enumerate(cx.phis):
            v = cx.cur[ph]; ty = cx.entry[ph][0]
            if isinstance(v, Ptr) and v.obj: offs.append(('p%d' % i, v.off)); 
            elif ty == ('i', 64): offs.append(('i%d' % i, v)); offs.append(('n-i%d' % i, sub(ln, v)))
        for i, ph in enumerate(cx.phis):
            if cx.entry[ph][0] == ('i', 32):
                for nm, o in offs:
                    out.append(('phi%d==crc(%s)' % (i, nm), bv(cx.cur[ph], 32) == bv(R(o), 32)))
                    out.append(('~phi%d==crc(%s)' % (i, nm), ~bv(cx.cur[ph], 32) == bv(R(o), 32)))
        for nm, o in offs: out.append((nm + '<=len', ule(o, ln)))
        for a, x in offs:
            for b, y in offs:
                if a != b: out.append(('%s+%s==len' % (a, b), eq(add(x, y), ln)))
        return out
    return g
def lemmas(R, ln):
    """the definition of R, instantiated at the positions the loop works with"""
    def g(cx):
        out = []
        for i, ph in enumerate(cx.phis):
            v = cx.cur[ph]
            o = v.off if isinstance(v, Ptr) and v.obj else v if cx.entry[ph][0] == ('i', 64) else None
            if o is None: continue
            for x in (o, sub(ln, o)):
                e = R(x)
                if not R.f(bv(simp(x), 64)).eq(e): out.append(R.f(bv(x, 64)) == e)
        return out
    return g
def setup(t, base=0):
    ex = t.ex
    n = t.bvs('len'); t.assume(z3.ULT(n, z3.BitVecVal(LIM, 64))); t.assume(n != 0)
    d = t.obj('data', n); prev = t.bvs('prev', 32); st0 = t.st.clone()
    b0 = base(n) if callable(base) else base
    R = Reg('x', lambda o: ex.byte(st0, d.obj, o), b0, ~prev); t.assume(R.ax0())
    ex.loop_cands = cands(R, n); ex.loop_lemmas = lemmas(R, n)
    return n, d, prev, R, st0
def post_of(t, n, d, prev, R, st0):
    def post(st, r):
        t.prove(st, eq(r, ~R(n), 32), 'equals the reference CRC-32 of exactly these bytes')
        j = t.bvs('j_any'); t.prove(st, eq(t.ex.byte(st, d.obj, j), t.ex.byte(st0, d.obj, j), 8), 'input unchanged')
    return post
for fn in ('crc32_1', 'crc32_8'):
    @chk.task(fn)
    def _(t, fn=fn):
        n, d, prev, R, st0 = setup(t)
        t.run(fn + r'(\(.*\))?', [d, n, prev], post_of(t, n, d, prev, R, st0))
    @chk.task(fn + '/empty')
    def _(t, fn=fn):
        prev = t.bvs('prev', 32)
        def post(st, r): t.prove(st, eq(r, prev, 32), 'empty input leaves the value')
        for p in (NULL, t.obj('data', 0)): t.run(fn + r'(\(.*\))?', [p, 0, prev], post)
    @chk.task(fn + '/unaligned sub-range')
    def _(t, fn=fn):
        """a range inside a larger buffer: nothing outside it is read (the buffer ends where the range ends)"""
        ex = t.ex; s = t.bvs('start'); e = t.bvs('end'); t.assume(z3.ULT(s, e)); t.assume(z3.ULT(e, z3.BitVecVal(LIM, 64)))
        d = t.obj('data', e); prev = t.bvs('prev', 32); st0 = t.st.clone()
        R = Reg('x', lambda o: ex.byte(st0, d.obj, o), s, ~prev); t.assume(R.ax0())
        ex.loop_cands = cands(R, e); ex.loop_lemmas = lemmas(R, e)
        t.run(fn + r'(\(.*\))?', [Ptr(d.obj, s), sub(e, s), prev], post_of(t, e, d, prev, R, st0))
@chk.task('crc32_8_last8')
def _(t):
    n, d, prev, R, st0 = setup(t, lambda n: simp(z3.If(z3.ULT(n, z3.BitVecVal(8, 64)), z3.BitVecVal(0, 64), n - 8)))
    t.run(r'crc32_8_last8(\(.*\))?', [d, n, prev], post_of(t, n, d, prev, R, st0))
@chk.task('pieces-lemma')
def _(t):
    """crc(a ++ b, p) == crc(b, crc(a, p)): induction over the length of b, on the reference function the code was proved equal to"""
    byte = z3.Function('byte', z3.BitVecSort(64), z3.BitVecSort(8)); p = t.bvs('p', 32); la = t.bvs('la'); k = t.bvs('k')
    C = z3.Function('C', z3.BitVecSort(64), z3.BitVecSort(32)); D = z3.Function('D', z3.BitVecSort(64), z3.BitVecSort(32))
    t.assume(D(z3.BitVecVal(0, 64)) == ~(~C(la)))
    t.prove(t.st, D(z3.BitVecVal(0, 64)) == C(la), 'base')
    t.assume(D(k) == C(la + k)); t.assume(C(la + k + 1) == step8(C(la + k) ^ z3.ZeroExt(24, byte(la + k)))); t.assume(D(k + 1) == step8(D(k) ^ z3.ZeroExt(24, byte(la + k))))
    t.prove(t.st, D(k + 1) == C(la + k + 1), 'step')
if __name__ == '__main__': sys.exit(chk.main())
