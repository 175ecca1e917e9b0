"""C08: table lookup booster."""
import sys, z3
from llcv.check import Check
from llcv.sym import *
from llcv.exe import fpuf
from .lib import *

chk = Check('C08', ['src/table_lookup_booster.cc'], harness='C08.cc', harness_srcs=['src/table_lookup_booster.cc'],
            assumptions=['cache with at least one slot and fewer than 2^32 slots (created only for a positive limit)', 'stored locations differ from the all-ones word, which no file offset reaches',
                         'remainder by a variable is an uninterpreted function below the divisor', 'std::vector is the real libstdc++ code; std::mutex gives mutual exclusion', 'sequential execution; the slot/lock correspondence is proved separately'])
LB = 'jungle::TableLookupBooster'; EL = LB + '::Elem'; NI = (1 << 64) - 1
class S: pass
def pure(t, st, pat, args):
    """value of a real accessor function in a state (must have a single path)"""
    out = []; ex = t.ex
    s = st.clone(); ex.solver.push()
    try:
        ex.start(s, t.prog.fn(pat), args); ex.run(s, lambda s2, r: out.append(r))
    finally: ex.solver.pop()
    if len(out) != 1: raise EngineError('accessor %s has %d paths' % (pat, len(out)))
    return out[0]
def setup(t):
    ex = t.ex; ex.abstract = {'urem'}; d = S(); sz = t.size(EL); d.es = sz
    d.p = t.obj('booster', t.size(LB), kind='new'); d.n = t.bvs('slots'); t.assume(z3.And(d.n != 0, z3.ULT(d.n, z3.BitVecVal(1 << 32, 64))))
    d.elems = t.obj('elems', simp(d.n * sz), kind='new'); d.locks = t.obj('locks', 17 * t.size('std::mutex'), kind='new')
    end = simp(d.n * sz)
    for f, q, e in (('elems', d.elems, end), ('elemsLock', d.locks, 17 * t.size('std::mutex'))):
        o, _ = t.field(LB, f)
        t.put(d.p.add(o), 8, q); t.put(d.p.add(o + 8), 8, q.add(e)); t.put(d.p.add(o + 16), 8, q.add(e))
    def lock(ex_, st, a, f, i): st.ghost['lock'] = a[1]; return 0
    t.prog.contract(r'std::(lock_guard|unique_lock)<std::mutex>::(lock_guard|unique_lock)\(std::mutex&\)', lock)
    S64 = z3.BitVecSort(64)
    d.slot = lambda h: fpuf('iurem', S64, S64, S64)(z3.ZeroExt(32, bv(h, 32)), d.n)
    d.st0 = t.st.clone()
    return d
def slot_view(t, d, st, h):
    p = d.elems.add(simp(d.slot(h) * d.es))
    return [pure(t, st, EL + r'::%s\(\) const' % f, [p]) for f in ('hValue', 'seqNum', 'offset')]
def facts(t, d, h): t.assume(z3.ULT(d.slot(h), d.n))
@chk.task('get')
def _(t):
    ex = t.ex; d = setup(t); h = t.bvs('hash', 32); facts(t, d, h); out = t.obj('out', 8); st0 = t.st.clone(); hv, sq, of = slot_view(t, d, st0, h)
    hit = b_and(eq(hv, h, 32), b_not(eq(of, NI)))
    def post(st, r):
        ok = eq(r, 0, 32); o = ex.rdv(st, out, 8)
        t.prove(st, implies(ok, hit), 'a hit only for an entry stored for exactly this hash'); t.prove(st, implies(ok, eq(o, of)), 'the location stored with it')
        t.prove(st, implies(hit, ok), 'a stored entry is found')
        j = t.bvs('j'); t.prove(st, eq(ex.byte(st, d.elems.obj, j), ex.byte(st0, d.elems.obj, j), 8), 'lookup changes nothing'); t.prove(st, eq(ex.byte(st, d.p.obj, j), ex.byte(st0, d.p.obj, j), 8), 'lookup changes no field')
    t.run(LB + r'::get\(unsigned int, unsigned long&\)', [d.p, h, out], post)
def mkelem(t, name):
    p = t.obj(name, t.size(EL)); v = (t.bvs(name + '_h', 32), t.bvs(name + '_seq'), t.bvs(name + '_off')); got = []
    t.run(EL + r'::Elem\(unsigned int, unsigned long, unsigned long\)', [p] + list(v), lambda st, r: got.append(st))
    if len(got) != 1: raise EngineError('element constructor')
    t.st = got[0]
    return p, v
@chk.task('element')
def _(t):
    ex = t.ex; p, v = mkelem(t, 'e')
    for f, x, w in (('hValue', v[0], 32), ('seqNum', v[1], 64), ('offset', v[2], 64)):
        t.run(EL + r'::%s\(\) const' % f, [p], lambda st, r: t.prove(st, eq(r, x, w), f + ' is what was stored'))
@chk.task('setIfNew')
def _(t):
    ex = t.ex; e, (h, sq, of) = mkelem(t, 'e'); d = setup(t); facts(t, d, h); t.assume(of != NI); st0 = t.st.clone()
    hv0, sq0, of0 = slot_view(t, d, st0, h)
    newer_there = b_and(eq(hv0, h, 32), b_not(eq(of0, NI)), z3.UGE(bv(sq0, 64), bv(sq, 64)))
    def post(st, r):
        ok = eq(r, 0, 32); hv, sq1, of1 = slot_view(t, d, st, h)
        t.prove(st, implies(ok, b_and(eq(hv, h, 32), eq(sq1, sq), eq(of1, of))), 'the entry is stored')
        t.prove(st, implies(b_not(ok), b_and(eq(hv, hv0, 32), eq(sq1, sq0), eq(of1, of0))), 'a refused entry changes nothing')
        t.prove(st, eq(ok, b_not(newer_there)) if False else b_and(implies(ok, b_not(newer_there)), implies(b_not(newer_there), ok)), 'refused exactly when the same or a newer version is there')
        j = t.bvs('j'); s0 = simp(d.slot(h) * d.es)
        t.prove(st, implies(b_or(ult(j, s0), z3.UGE(j, bv(add(s0, d.es), 64))), eq(ex.byte(st, d.elems.obj, j), ex.byte(st0, d.elems.obj, j), 8)), 'no other slot changes')
        t.prove(st, eq(ex.byte(st, d.p.obj, j), ex.byte(st0, d.p.obj, j), 8), 'no field changes'); t.prove(st, eq(ex.byte(st, e.obj, j), ex.byte(st0, e.obj, j), 8), 'argument unchanged')
    t.run(LB + r'::setIfNew\(.*\)', [d.p, e], post)
@chk.task('same slot, same lock')
def _(t):
    ex = t.ex; e, (h1, sq, of) = mkelem(t, 'e'); d = setup(t); h2 = t.bvs('hash2', 32); facts(t, d, h1); facts(t, d, h2); t.assume(of != NI); out = t.obj('out', 8)
    t.assume(d.slot(h1) == d.slot(h2)); L = []
    def rec(st, r):
        p = st.ghost.get('lock')
        t.prove(st, p is not None, 'slot accessed under a lock')
        if p is None: return
        t.prove(st, p.obj == d.locks.obj, 'lock of the cache'); L.append((st, p))
    t.run(LB + r'::setIfNew\(.*\)', [d.p, e], rec); n1 = len(L)
    def rec2(st, r):
        p = st.ghost.get('lock'); t.prove(st, p is not None and p.obj == d.locks.obj, 'lookup under a lock of the cache')
        for s1, q in L[:n1]: t.prove(st, eq(q.off, p.off), 'store and lookup of one slot use the same lock')
    t.run(LB + r'::get\(unsigned int, unsigned long&\)', [d.p, h2, out], rec2)
@chk.task('constructor: every slot empty')
def _(t):
    ex = t.ex; ex.abstract = {'urem'}; n = t.bvs('limit'); t.assume(z3.And(n != 0, z3.ULT(n, z3.BitVecVal(1 << 32, 64)))); p = t.obj('booster', t.size(LB)); es = t.size(EL); o_, _ = t.field(LB, 'elems'); s = t.bvs('any_slot'); t.assume(z3.ULT(s, n))
    def view(st, q): return pure(t, st, EL + r'::offset\(\) const', [q.add(simp(s * es))])
    def arr(st):
        q = ex.rdp(st, p.add(o_)); return q if q is not None and q.obj in st.objs and st.objs[q.obj].size is not None else None
    def cands(cx):
        out = []
        k = bv(cx.k, 64)
        for i, ph in enumerate(cx.phis):
            ty, v0 = cx.entry[ph]; v = cx.cur[ph]
            if ty == ('i', 64):
                out.append(('phi%d==start-k' % i, eq(v, simp(bv(v0, 64) - k)))); out.append(('phi%d==k' % i, eq(v, k)))
            elif isinstance(v, Ptr) and isinstance(v0, Ptr) and v.obj == v0.obj and v.obj:
                for st_ in (es, t.size('std::mutex')): out.append(('phi%d==start+%d*k' % (i, st_), eq(v.off, simp(bv(v0.off, 64) + k * st_))))
                o = cx.st.objs[v.obj]
                if o.kind == 'new' and cx.phis and eq(o.size, simp(n * es)) is not False:
                    q = Ptr(v.obj, 0)
                    out.append(('k<=n', z3.ULE(k, n))); k2 = k + (v0.off // es if isint(v0.off) else 0)   # loop entered after a peeled iteration
                    out.append(('k2<=n', z3.ULE(k2, n)))
                    b = [bv(ex.byte(cx.st, v.obj, simp(s * es + 12 + i)), 8) for i in range(8)]
                    out.append(('done slots empty', z3.Implies(z3.ULT(s, k2), z3.And([x == 0xff for x in b]))))
        return out
    sep = lambda a, b: z3.Implies(z3.And(z3.ULT(a, n), z3.ULE(b, n)), z3.And(z3.Implies(z3.ULT(a, b), z3.ULE(a * es + es, b * es)), z3.Implies(z3.ULT(b, a), z3.ULE(b * es + es, a * es)), z3.ULE(b * es, n * es)))
    k_ = t.bvs('any_k'); t.prove(t.st, sep(s, k_), 'lemma: distinct slots are disjoint')
    ex.loop_cands = cands; ex.loop_lemmas = lambda cx: [sep(s, bv(add(cx.k, c), 64)) for c in (0, 1, 2)]
    def post(st, r):
        q = ex.rdp(st, p.add(o_)); e = ex.rdp(st, p.add(o_ + 8))
        t.prove(st, e.obj == q.obj and eq(simp(bv(e.off, 64) - bv(q.off, 64)), simp(n * es)), 'exactly the requested number of slots')
        t.prove(st, eq(view(st, q), NI), 'slot is empty')
        l_, _ = t.field(LB, 'elemsLock'); a = ex.rdp(st, p.add(l_)); b = ex.rdp(st, p.add(l_ + 8))
        t.prove(st, a.obj == b.obj and a.obj != 0 and a.obj != q.obj and eq(a.off, 0) and b_not(eq(b.off, 0)), 'at least one lock')
    t.run(LB + r'::TableLookupBooster\(unsigned long, .*\)', [p, n, NULL, NULL], post)
if __name__ == '__main__': sys.exit(chk.main())
