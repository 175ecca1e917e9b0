"""C05: GenericBitmap."""
import sys, z3
from llcv.check import Check
from llcv.prog import HERE
from llcv.sym import *
from .lib import *
from .bitmap import *

chk = Check('C05', [HERE + '/specs/tu/bitmap.cc'], harness='C05.cc',
            assumptions=['callers index below the bitmap size (Bloom filter: modulo size; stated as precondition)', 'bitmaps smaller than 2^40 bytes', 'sequential execution (mutexes are no-ops)'])
NM = r'GenericBitmap::%s'
def frame(t, st, st0, L, p, data, allow=None):
    j = t.bvs('j_any')
    for f in ('numThreads', 'numBits', 'memorySizeByte'): t.prove(st, eq(t.get(st, p, GB, f), t.get(st0, p, GB, f)), f + ' unchanged')
    q = t.getp(st, p, GB, 'myBitmap'); t.prove(st, q.obj == data.obj and eq(q.off, 0), 'storage unchanged')
@chk.task('get')
def _(t):
    L = Layout(t); p, nb, data = make(t, L); i = t.bvs('idx'); t.assume(z3.ULT(i, nb)); st0 = t.st.clone()
    def post(st, r):
        t.prove(st, bo(r) == bit(t.ex, st0, data.obj, i), 'returns the bit'); frame(t, st, st0, L, p, data)
        j = t.bvs('j_any'); t.prove(st, eq(t.ex.byte(st, data.obj, j), t.ex.byte(st0, data.obj, j), 8), 'no bit changes')
        t.prove(st, st.objs[p.obj].mem is st0.objs[p.obj].mem, 'object not written')
    t.run(NM % r'get\(unsigned long\)', [p, i], post)
@chk.task('set')
def _(t):
    L = Layout(t); p, nb, data = make(t, L); i = t.bvs('idx'); t.assume(z3.ULT(i, nb)); v = t.bvs('val', 1); st0 = t.st.clone()
    def post(st, r):
        j = t.bvs('any_bit')
        t.prove(st, bit(t.ex, st, data.obj, i) == v, 'the addressed bit holds the value')
        t.prove(st, implies(j != i, bit(t.ex, st, data.obj, j) == bit(t.ex, st0, data.obj, j)), 'every other bit unchanged')
        t.prove(st, bo(r) == bit(t.ex, st0, data.obj, i), 'returns the previous value'); frame(t, st, st0, L, p, data)
        t.prove(st, st.objs[p.obj].mem is st0.objs[p.obj].mem, 'object not written')
    t.run(NM % r'set\(unsigned long, bool\)', [p, i, v], post)
def ctor_common(t):
    t.ex.unroll = 300; t.ex.max_steps = 2000000
    t.prog.contract(r'std::thread::hardware_concurrency\(\)', lambda ex, st, a, f, i: t.bvs('cores', 32), trusted=True)
    t.assume(z3.ULE(t.bvs('cores', 32), 1 << 20))
    return Layout(t)
@chk.task('constructor(bits)')
def _(t):
    L = ctor_common(t); p = t.obj('bitmap', L.size); nb = t.bvs('num_bits'); t.assume(z3.ULT(nb, z3.BitVecVal(1 << 43, 64))); th = 0
    def post(st, r):
        ms = t.get(st, p, GB, 'memorySizeByte'); q = t.getp(st, p, GB, 'myBitmap')
        t.prove(st, eq(t.get(st, p, GB, 'numBits'), nb), 'size as requested')
        t.prove(st, z3.ULE(nb, bv(ms, 64) * 8), 'storage large enough')
        if q.obj:
            t.prove(st, eq(st.objs[q.obj].size, ms), 'storage size recorded')
            j = t.bvs('any_bit'); t.prove(st, implies(z3.ULT(j, nb), z3.Not(bit(t.ex, st, q.obj, j))), 'all bits zero')
        else: t.prove(st, nb == 0, 'no storage only when empty')
        check_inv(t, st, L, p)
    t.run(NM % r'GenericBitmap\(unsigned long, unsigned long\)', [p, nb, th], post)
@chk.task('constructor(copy of memory)')
def _(t):
    L = ctor_common(t); p = t.obj('bitmap', L.size); n = t.bvs('n'); t.assume(z3.ULT(n, z3.BitVecVal(1 << 40, 64))); src = t.obj('src', n); nb = t.bvs('num_bits'); t.assume(z3.ULE(nb, n * 8)); st0 = t.st.clone()
    def post(st, r):
        q = t.getp(st, p, GB, 'myBitmap'); j = t.bvs('j')
        t.prove(st, eq(t.get(st, p, GB, 'numBits'), nb), 'size as requested'); t.prove(st, eq(t.get(st, p, GB, 'memorySizeByte'), n), 'memory size')
        t.prove(st, q.obj not in (0, src.obj) and st.objs[q.obj].kind == 'malloc', 'own storage'); t.prove(st, eq(st.objs[q.obj].size, n), 'storage size')
        t.prove(st, implies(z3.ULT(j, n), eq(t.ex.byte(st, q.obj, j), t.ex.byte(st0, src.obj, j), 8)), 'every byte copied')
        t.prove(st, eq(t.ex.byte(st, src.obj, j), t.ex.byte(st0, src.obj, j), 8), 'source unchanged')
        check_inv(t, st, L, p)
    t.run(NM % r'GenericBitmap\(void\*, unsigned long, unsigned long, unsigned long\)', [p, src, n, nb, 0], post)
@chk.task('moveFrom')
def _(t):
    L = Layout(t); p, nb, data = make(t, L); n = t.bvs('n'); t.assume(z3.ULT(n, z3.BitVecVal(1 << 40, 64))); src = t.obj('src', n, kind='malloc'); k = t.bvs('k'); t.assume(z3.ULE(k, n * 8)); st0 = t.st.clone()
    def post(st, r):
        q = t.getp(st, p, GB, 'myBitmap'); j = t.bvs('j')
        t.prove(st, q.obj == src.obj and eq(q.off, 0), 'takes the memory over'); t.prove(st, not st.objs[data.obj].alive, 'old storage released'); t.prove(st, st.objs[src.obj].alive, 'new storage alive')
        t.prove(st, eq(t.get(st, p, GB, 'numBits'), k), 'bits'); t.prove(st, eq(t.get(st, p, GB, 'memorySizeByte'), n), 'bytes')
        t.prove(st, eq(t.ex.byte(st, src.obj, j), t.ex.byte(st0, src.obj, j), 8), 'content unchanged')
        t.prove(st, eq(t.get(st, p, GB, 'numThreads'), 1), 'locks kept')
        for a in (0, 1, 0x80, 0xff): t.prove(st, eq(t.ex.byte(st, p.obj, L.calcTable[0] + a), t.ex.byte(st0, p.obj, L.calcTable[0] + a), 8), 'tables kept')
    t.run(NM % r'moveFrom\(void\*, unsigned long, unsigned long\)', [p, src, n, k], post)
@chk.task('destructor')
def _(t):
    L = Layout(t); p, nb, data = make(t, L); lk = t.getp(t.st, p, GB, 'locks')
    def post(st, r):
        t.prove(st, not st.objs[data.obj].alive, 'storage released'); t.prove(st, not st.objs[lk.obj].alive, 'locks released')
    t.run(NM % r'~GenericBitmap\(\)', [p], post)
@chk.task('accessors')
def _(t):
    L = Layout(t); p, nb, data = make(t, L)
    t.run(NM % r'size\(\) const', [p], lambda st, r: t.prove(st, eq(r, nb), 'size'))
    t.run(NM % r'getMemorySize\(\) const', [p], lambda st, r: t.prove(st, eq(r, t.get(st, p, GB, 'memorySizeByte')), 'memory size'))
    t.run(NM % r'getPtr\(\) const', [p], lambda st, r: t.prove(st, r.obj == data.obj and eq(r.off, 0), 'pointer'))
if __name__ == '__main__': sys.exit(chk.main())
