"""C06: default key order."""
import sys, os, z3
from llcv.check import Check
from llcv.prog import memcmp_inst, HERE
from llcv.sym import *
from .lib import *

chk = Check('C06', [HERE + '/specs/tu/records.cc'], harness='C06.cc',
            assumptions=['memcmp behaves as in the C standard (first differing byte decides, unsigned)', 'a buffer of length n refers to n readable bytes'])
SB = 'jungle::SizedBuf'
def setup(t, kind):
    """two arbitrary buffers; dd = ghost first difference"""
    ex = t.ex; d = {}
    for nm in 'lr':
        empty = (kind == nm or kind == 'both')
        n = 0 if empty else t.bvs(nm + '_size', 32)
        data = NULL if empty else t.obj(nm + '_data', z3.ZeroExt(32, n))
        if not empty: t.assume(n != 0)
        d[nm] = sb_make(t, nm, n, data, 0); d[nm + 'n'] = n if empty else simp(z3.ZeroExt(32, n)); d[nm + 'd'] = data
    ln, rn = bv(d['ln'], 64), bv(d['rn'], 64)
    m = simp(z3.If(z3.ULT(ln, rn), ln, rn)); dd = t.bvs('dd'); d['m'] = m; d['dd'] = dd
    t.assume(z3.ULE(dd, bv(m, 64)))
    st0 = t.st.clone(); d['st0'] = st0
    def byte(nm, j): return bv(ex.byte(st0, d[nm + 'd'].obj, j), 8) if d[nm + 'd'].obj else z3.BitVecVal(0, 8)
    d['byte'] = byte
    t.assume(z3.Implies(z3.ULT(dd, bv(m, 64)), byte('l', dd) != byte('r', dd)))
    def pre(j): return z3.Implies(z3.ULT(bv(j, 64), dd), byte('l', j) == byte('r', j))   # universally quantified, instantiated
    d['pre'] = pre
    def lem(cx):
        out = []
        for v in cx.cur.values():
            if not isinstance(v, (int, bool, Ptr, FnPtr)) and z3.is_bv(v) and v.size() in (32, 64): out.append(pre(v if v.size() == 64 else z3.ZeroExt(32, v)))
            if isinstance(v, Ptr) and v.obj: out.append(pre(v.off))
        return out
    def cands(cx):
        out = []
        for i, ph in enumerate(cx.phis):
            v = cx.cur[ph]
            if isinstance(v, Ptr): v = v.off if v.obj else None
            elif cx.entry[ph][0] == ('i', 32): v = zext(v, 32, 64)
            elif cx.entry[ph][0] != ('i', 64): v = None
            if v is None: continue
            out.append(('phi%d<=firstdiff' % i, ule(v, dd)))
            out.append(('phi%d<=minlen' % i, ule(v, m)))
        return out
    ex.loop_lemmas = lem; ex.loop_cands = cands
    lt = z3.If(z3.ULT(dd, bv(m, 64)), z3.ULT(byte('l', dd), byte('r', dd)), z3.ULT(ln, rn))
    eqv = z3.And(dd == bv(m, 64), ln == rn)
    d['lt'] = lt; d['eq'] = eqv; d['gt'] = z3.And(z3.Not(lt), z3.Not(eqv))
    return d
def inst(t, st, d):
    for r in st.ghost.get('memcmp', ()):
        t.ex.assume(st, memcmp_inst(t.ex, st, r, d['dd'])); t.ex.assume(st, d['pre'](r['d']))
def frame(t, st, d):
    j = t.bvs('j_any')
    for nm in 'lr':
        if d[nm + 'd'].obj: t.prove(st, eq(t.ex.byte(st, d[nm + 'd'].obj, j), t.ex.byte(d['st0'], d[nm + 'd'].obj, j), 8), 'buffers unchanged')
for kind in ('none', 'l', 'r', 'both'):
    @chk.task('cmp/%s' % ('general' if kind == 'none' else kind + ' empty'))
    def _(t, kind=kind):
        d = setup(t, kind)
        def post(st, r):
            inst(t, st, d)
            R = bv(r, 32)
            t.prove(st, (R < 0) == d['lt'], 'negative iff less')
            t.prove(st, (R == 0) == d['eq'], 'zero iff equal')
            t.prove(st, (R > 0) == d['gt'], 'positive iff greater'); frame(t, st, d)
        t.run(r'jungle::SizedBuf::cmp\(.*\)', [d['l'], d['r']], post)
    for op, key in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
        @chk.task('operator%s/%s' % (op, 'general' if kind == 'none' else kind + ' empty'))
        def _(t, kind=kind, op=op, key=key):
            d = setup(t, kind)
            exp = {'eq': d['eq'], 'ne': z3.Not(d['eq']), 'lt': d['lt'], 'le': z3.Or(d['lt'], d['eq']), 'gt': d['gt'], 'ge': z3.Not(d['lt'])}[key]
            def post(st, r):
                inst(t, st, d); t.prove(st, bo(r) == exp, 'agrees with the order'); frame(t, st, d)
            cls = r'jungle::SizedBuf::operator%s\(.*\) const' if key in ('eq', 'ne') else r'jungle::operator%s\(jungle::SizedBuf const&, jungle::SizedBuf const&\)'
            t.run(cls % op.replace('=', '='), [d['l'], d['r']], post)
@chk.task('record order')
def _(t):
    d = setup(t, 'none')
    a = t.obj('reca', t.size('jungle::Record')); b = t.obj('recb', t.size('jungle::Record'))
    ok, _ = t.field('jungle::Record', 'kv'); kk, _ = t.field('jungle::KV', 'key')
    for rec, nm in ((a, 'l'), (b, 'r')):
        sb_make(t, nm, trunc(d[nm + 'n'], 32), d[nm + 'd'], 0, p=rec.add(ok + kk))
    def post(st, r): inst(t, st, d); t.prove(st, bo(r) == d['lt'], 'records ordered by key')
    less = t.obj('less', 1)
    t.run(r'jungle::Record::Less::operator\(\)\(.*\) const', [less, a, b], post)
@chk.task('order-lemmas')
def _(t):
    """the order used as specification is antisymmetric and transitive"""
    B = z3.BitVecSort(64); V = z3.BitVecSort(8)
    f = {n: z3.Function('b_' + n, B, V) for n in 'abc'}; L = {n: z3.BitVec('n_' + n, 64) for n in 'abc'}
    mn = lambda x, y: z3.If(z3.ULT(x, y), x, y)
    def W(x, y): return z3.BitVec('d_%s%s' % tuple(sorted(x + y)), 64)
    def facts(x, y, at):
        d = W(x, y); m = mn(L[x], L[y])
        out = [z3.ULE(d, m), z3.Implies(z3.ULT(d, m), f[x](d) != f[y](d))]
        return out + [z3.Implies(z3.ULT(j, d), f[x](j) == f[y](j)) for j in at]
    def lt(x, y): d = W(x, y); return z3.If(z3.ULT(d, mn(L[x], L[y])), z3.ULT(f[x](d), f[y](d)), z3.ULT(L[x], L[y]))
    def eq_(x, y): return z3.And(W(x, y) == mn(L[x], L[y]), L[x] == L[y])
    at = [W('a', 'b'), W('b', 'c'), W('a', 'c')]
    for x, y in ('ab', 'bc', 'ac'):
        for c in facts(x, y, at): t.assume(c)
    t.prove(t.st, z3.Not(z3.And(lt('a', 'b'), lt('b', 'a'))), 'asymmetric')
    t.prove(t.st, z3.Implies(z3.And(z3.Not(lt('a', 'b')), z3.Not(lt('b', 'a'))), eq_('a', 'b')), 'total')
    t.prove(t.st, z3.Implies(z3.And(lt('a', 'b'), lt('b', 'c')), lt('a', 'c')), 'transitive')
    t.prove(t.st, z3.Implies(z3.And(eq_('a', 'b'), lt('b', 'c')), lt('a', 'c')), 'equality is a congruence')
if __name__ == '__main__': sys.exit(chk.main())
