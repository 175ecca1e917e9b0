"""GenericBitmap: class invariant and contracts, shared by C04 and C05."""
import z3
from llcv.sym import *
from .lib import *
GB = 'GenericBitmap'
def mask_of(o): return z3.LShR(z3.BitVecVal(0x80, 8), bv(o, 8))     # most significant bit first
class Layout:
    def __init__(self, t):
        for f in ('numThreads', 'numBits', 'memorySizeByte', 'myBitmap', 'calcTable', 'masks8', 'locks'): setattr(self, f, t.field(GB, f))
        self.size = t.size(GB)
def table_byte(d):
    """calcTable entry at byte distance d = prev*16 + offset*2 + val"""
    prev = z3.Extract(11, 4, d); off = z3.ZeroExt(5, z3.Extract(3, 1, d)); m = mask_of(off)
    return z3.If(z3.Extract(0, 0, d) == 1, prev | m, prev & ~m)
def inv_mem(L, base=0):
    """object content under the class invariant (tables correct), other bytes arbitrary"""
    ct, mk = L.calcTable[0] + base, L.masks8[0] + base
    f = z3.Function('gb_other', z3.BitVecSort(64), z3.BitVecSort(8))
    def byte(off):
        if isint(off):
            if ct <= off < ct + 4096: return simp(table_byte(z3.BitVecVal(off - ct, 12)))
            if mk <= off < mk + 8: return 0x80 >> (off - mk)
            return f(bv(off, 64))
        o = bv(off, 64)
        d = simp(z3.Extract(11, 0, o - ct))
        return z3.If(z3.And(z3.UGE(o, ct), z3.ULT(o, ct + 4096)), table_byte(bv(d, 12)),
                     z3.If(z3.And(z3.UGE(o, mk), z3.ULT(o, mk + 8)), mask_of(z3.Extract(7, 0, o - mk)), f(o)))
    return BFun(byte)
def make(t, L, p=None, nbits=None):
    """a bitmap satisfying the invariant; -> (this, nbits, bytes object)"""
    nb = t.bvs('num_bits') if nbits is None else nbits
    ms = t.bvs('mem_size'); t.assume(z3.ULT(ms, z3.BitVecVal(1 << 40, 64)))
    t.assume(z3.ULE(bv(nb, 64), ms * 8))
    if p is None: p = t.obj('bitmap', L.size, inv_mem(L), kind='new')
    data = t.obj('bits', ms, kind='malloc'); locks = t.obj('locks', 40, kind='new[]')
    for f, v in (('numThreads', 1), ('numBits', nb), ('memorySizeByte', ms), ('myBitmap', data), ('locks', locks)): t.set(p, GB, f, v)
    return p, nb, data
def bit(ex, st, oid, i):
    """value of bit i in the byte object"""
    i = bv(i, 64)
    b = bv(ex.byte(st, oid, simp(z3.LShR(i, 3))), 8)
    return (b & mask_of(z3.ZeroExt(5, z3.Extract(2, 0, i)))) != 0
def check_inv(t, st, L, p, name='class invariant'):
    """prove the invariant of the object at p"""
    ex = t.ex; m, rest = ex.flat(st.objs[p.obj].mem); base = p.off
    ct, mk = base + L.calcTable[0], base + L.masks8[0]; ok = True
    bad = []
    for d in range(4096):
        e = simp(table_byte(z3.BitVecVal(d, 12))); v = m.get(ct + d)
        if v is None: v = ex.rd(st, rest, ct + d, 1)
        if isint(v):
            if v != e: bad.append(('calcTable', d, v, e))
        elif not ex.must(st, eq(v, e, 8)): bad.append(('calcTable', d, str(v)[:40], e))
        if len(bad) > 3: break
    t.prove(st, not bad, name + ': update table', info=str(bad))
    bad = []
    for d in range(8):
        v = m.get(mk + d)
        if v is None: v = ex.rd(st, rest, mk + d, 1)
        if not isint(v) or v != 0x80 >> d: bad.append((d, str(v)))
    t.prove(st, not bad, name + ': masks', info=str(bad))
    nt = t.get(st, p, GB, 'numThreads'); t.prove(st, eq(nt, 1), name + ': one lock')
    lk = t.getp(st, p, GB, 'locks'); t.prove(st, lk.obj != 0 and st.objs[lk.obj].alive, name + ': locks allocated')
