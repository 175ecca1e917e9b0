"""Shared specification vocabulary of the memory table: its environment (log file, log manager, configuration) and states."""
import z3
from llcv.sym import *
from llcv.exe import Outcomes, PathEnd
from .lib import *
MT = 'jungle::MemTable'; LF = 'jungle::LogFile'; LM = 'jungle::LogMgr'; REC = 'jungle::Record'; KV = 'jungle::KV'; SB = 'jungle::SizedBuf'; CFG = 'jungle::DBConfig'
NI = (1 << 64) - 1; NIV = z3.BitVecVal(NI, 64)
class E: pass
ATOMS = ('startSeqNum', 'minSeqNum', 'flushedSeqNum', 'syncedSeqNum', 'maxSeqNum', 'seqNumAlloc', 'bytesSize')
def env(t, mt=True):
    e = E(); e.t = t
    e.cfg = t.obj('dbConfig', t.size(CFG)); e.lm = t.obj('logMgr', t.size(LM)); e.lf = t.obj('logFile', t.size(LF))
    o, _ = t.field(LM, 'opt'); o2, _ = t.field('jungle::LogMgrOptions', 'dbConfig'); t.put(e.lm.add(o + o2), 8, e.cfg)
    e.db = t.obj('db', 8); t.set(e.lm, LM, 'parentDb', e.db)
    t.set(e.lf, LF, 'logMgr', e.lm); t.set(e.lf, LF, 'myLog', NULL)
    e.byKey = t.obj('idxByKey', 8); e.bySeq = t.obj('idxBySeq', 8); e.bf = t.obj('bfByKey', 8)
    if mt:
        e.mt = t.obj('memTable', t.size(MT)); t.set(e.mt, MT, 'logFile', e.lf); t.set(e.mt, MT, 'myLog', NULL)
        for f, p in (('idxByKey', e.byKey), ('idxBySeq', e.bySeq), ('bfByKey', e.bf)): t.set(e.mt, MT, f, p)
        e.v = {}
        for f in ATOMS: e.v[f] = t.bvs(f); t.set(e.mt, MT, f, e.v[f])
        t.set(e.lf, LF, 'mTable', e.mt)
    t.prog.contract(r'jungle::LogFile::touch\(\)', lambda ex, st, a, f, i: 0)
    t.prog.contract(r'(pthread_mutex_(un)?lock|std::mutex::(un)?lock\(\)|std::(lock_guard|unique_lock)<std::mutex>::~?(lock_guard|unique_lock)\(.*\))', lambda ex, st, a, f, i: 0, True)
    return e
def mget(t, st, p, f): return t.get(st, p, MT, f)
def same_but(t, st, st0, p, cls, allow, what):
    """no byte of the object outside the named fields changes"""
    j = t.bvs('j_any'); out = [z3.And(z3.UGE(j, z3.BitVecVal(o, 64)), z3.ULT(j, z3.BitVecVal(o + n, 64))) for o, n in (t.field(cls, f) for f in allow)]
    out.append(z3.UGE(j, z3.BitVecVal(t.size(cls), 64)))
    t.prove(st, z3.Or(*[bo(x) for x in out + [eq(t.ex.byte(st, p.obj, j), t.ex.byte(st0, p.obj, j), 8)]]), what)
RN = MT + '::RecNode'
class Ring:
    """a std::list<Record*> of any length: slot 0 is the list header (end), slots 1..n its elements from oldest to newest; element i points to record i"""
    def __init__(self, t, n, recs): self.t = t; self.n = n; self.recs = recs
    def load(self, ex, st, o, p, nb, want):
        if nb != 8: raise EngineError('list access of %d bytes' % nb)
        off = bv(p.off, 64)
        f = [k for k in (0, 8, 16) if ex.must(st, (off & 31) == k)]
        if not f: raise EngineError('attachment: list member')
        base = simp(off - f[0]); end = simp(bv(self.n, 64) << 5)
        if f[0] == 0: r = Ptr(o.id, simp(z3.If(bv(base, 64) == bv(end, 64), z3.BitVecVal(0, 64), bv(base, 64) + 32)))
        elif f[0] == 8: r = Ptr(o.id, simp(z3.If(bv(base, 64) == 0, bv(end, 64), bv(base, 64) - 32)))
        else:
            if want != 'ptr' and ex.must(st, eq(base, 0)): return self.n
            ex.prove(st, b_not(eq(base, 0)), ex.task + '/mem-safety/the end of the list is never dereferenced', 'safety')
            r = Ptr(self.recs.obj, simp(bv(base, 64) << 3))
        return r if want == 'ptr' else ex.ptr_int(st, r)
    def store(self, ex, st, o, p, n, v): raise EngineError('list modified')
def ring(t, e, name='recList'):
    """record list with its records; e.seq(st, i) = sequence number of element i (1..n)"""
    ex = t.ex; e.n = t.bvs('records'); t.assume(z3.ULT(e.n, z3.BitVecVal(1 << 32, 64)))
    e.recs = t.obj('records', simp((e.n + 1) << 8)); e.ring = Ptr(ex.new_obj(t.st, name, simp((e.n + 1) << 5), None, 'input', hook=Ring(t, e.n, e.recs)).id, 0)
    base = ex.ptr_int(t.st, e.ring); qo, _ = t.field(REC, 'seqNum'); to, tn = t.field(REC, 'type')
    def conv(ex_, st, v):
        d = simp(bv(v, 64) - bv(base, 64)); ex_.prove(st, eq(d & 31, 0), ex_.task + '/mem-safety/a list position is an element or the end', 'safety')
        return Ptr(e.ring.obj, simp(z3.LShR(bv(d, 64), 5) << 5))
    t.prog.int_ptr_hook = conv
    e.base = base
    e.seq = lambda st, i: bv(ex.rdv(st, Ptr(e.recs.obj, simp((bv(i, 64) << 8) + qo)), 8), 64)
    e.type = lambda st, i: bv(ex.rdv(st, Ptr(e.recs.obj, simp((bv(i, 64) << 8) + to)), tn), tn * 8)
    e.sorted = lambda i, j: t.assume(z3.Implies(z3.And(z3.ULE(bv(i, 64), bv(j, 64)), bv(i, 64) != 0, z3.ULE(bv(j, 64), e.n)), z3.ULE(e.seq(t.st, i), e.seq(t.st, j))))
    e.sorted_at = lambda st, i, j: ex.assume(st, z3.Implies(z3.And(z3.ULE(bv(i, 64), bv(j, 64)), bv(i, 64) != 0, z3.ULE(bv(j, 64), e.n)), z3.ULE(e.seq(t.st, i), e.seq(t.st, j))))
    e.node = t.obj('recNode', t.size(RN)); t.set(e.node, RN, 'recList', e.ring)
    return e
