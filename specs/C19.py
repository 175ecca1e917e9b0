"""C19: sequence numbers of a log file."""
import sys, z3
from llcv.check import Check
from llcv.sym import *
from .lib import *
from .mt import *
chk = Check('C19', ['src/memtable.cc', 'src/log_file.cc'], harness='C19.cc', harness_srcs=['src/memtable.cc', 'src/log_file.cc', 'src/skiplist.cc', 'src/bloomfilter.cc', 'src/murmurhash3.cc', 'src/crc32.cc', 'src/internal_helper.cc', 'src/logger.cc', 'src/fileops_posix.cc'],
            harness_flags=['-Wl,--unresolved-symbols=ignore-all'],
            assumptions=['writes to one log file are serialised (LogMgr holds its write lock)', 'numbers stay below 2^64-2', 'compare-and-exchange does not fail spuriously (x86)',
                         'skip list operations as proved in C09; the by-sequence index holds only numbers between the minimum and the maximum (established by the same functions)', 'no logger attached', 'overwriting mode (allowOverwriteSeqNum) moves the counter back by design'])
def inv(t, e):
    """counter state before a write: nothing written yet, or minimum <= counter"""
    A, M = e.v['seqNumAlloc'], e.v['minSeqNum']; S = e.v['startSeqNum']
    t.assume(z3.Or(A == NIV, z3.And(M != NIV, z3.ULE(M, A), z3.ULT(A, z3.BitVecVal(NI - 1, 64))))); t.assume(z3.ULT(S, z3.BitVecVal(NI - 1, 64)))
    t.assume(z3.Implies(A == NIV, z3.Or(M == NIV, M == S)))
    return A, M, S
def allow(t, e):
    o, n = t.field(CFG, 'allowOverwriteSeqNum'); v = t.bvs('allowOverwrite', 8); t.assume(z3.ULE(v, 1)); t.put(e.cfg.add(o), 1, v); return v == 1
def record(t, name='rec'):
    r = t.obj(name, t.size(REC)); g = t.bvs(name + '_seq'); t.set(r, REC, 'seqNum', g); return r, g
@chk.task('assignSeqNum')
def _(t):
    e = env(t); A, M, S = inv(t, e); al = allow(t, e); r, g = record(t); st0 = t.st.clone()
    def post(st, ret):
        ok = eq(ret, 0, 32); q = t.get(st, r, REC, 'seqNum'); a1, m1 = mget(t, st, e.mt, 'seqNumAlloc'), mget(t, st, e.mt, 'minSeqNum')
        none = A == NIV; auto = g == NIV
        rej = z3.And(z3.Not(auto), z3.Or(z3.And(z3.Not(none), z3.ULE(g, A), z3.Not(al)), z3.And(M != NIV, z3.ULT(g, M))))
        t.prove(st, z3.Not(rej) == bo(ok), 'rejected exactly when an explicit number is out of range')
        t.prove(st, implies(z3.And(z3.Not(auto)), eq(q, g)), 'an explicit number is kept')
        t.prove(st, implies(z3.And(auto, none), b_and(b_not(eq(q, 0)), b_not(eq(q, NI)), ule(S, q))), 'first number: the start number, at least 1')
        t.prove(st, implies(z3.And(auto, z3.Not(none)), b_and(ult(A, q), b_not(eq(q, NI)))), 'an assigned number is larger than every number before')
        t.prove(st, implies(b_and(ok, z3.Not(none), z3.Not(al)), ult(A, q)), 'without overwriting every accepted number is larger than all before')
        t.prove(st, implies(ok, eq(a1, q)), 'the counter is the accepted number')
        t.prove(st, implies(ok, b_and(ule(m1, q), b_not(eq(m1, NI)))), 'the minimum bounds the accepted number')
        t.prove(st, implies(b_and(ok, z3.Not(none)), eq(m1, M)), 'the minimum does not move once set')
        t.prove(st, implies(b_not(ok), b_and(eq(a1, A), eq(m1, M), eq(q, g))), 'a rejected number changes nothing')
        same_but(t, st, st0, e.mt, MT, ['seqNumAlloc', 'minSeqNum'], 'nothing else of the table changes'); same_but(t, st, st0, r, REC, ['seqNum'], 'nothing else of the record changes')
    t.run(MT + r'::assignSeqNum\(jungle::Record&\)', [e.mt, r], post)
@chk.task('updateMaxSeqNum')
def _(t):
    e = env(t); n = t.bvs('n'); t.assume(n != NIV); X = e.v['maxSeqNum']; st0 = t.st.clone()
    def post(st, ret):
        x = mget(t, st, e.mt, 'maxSeqNum'); t.prove(st, eq(ret, 0, 32), 'succeeds')
        t.prove(st, eq(x, z3.If(z3.Or(X == NIV, z3.ULT(X, n)), n, X)), 'the maximum of both'); same_but(t, st, st0, e.mt, MT, ['maxSeqNum'], 'nothing else changes')
    t.run(MT + r'::updateMaxSeqNum\(unsigned long\)', [e.mt, n], post)
    lf0 = t.st.clone()
    def post2(st, ret): t.prove(st, eq(mget(t, st, e.mt, 'maxSeqNum'), z3.If(z3.Or(X == NIV, z3.ULT(X, n)), n, X)), 'LogFile::updateMaxSeqNum: the maximum of both'); t.prove(st, eq(ret, 0, 32), 'LogFile::updateMaxSeqNum succeeds')
    t.run(LF + r'::updateMaxSeqNum\(unsigned long\)', [e.lf, n], post2)
@chk.task('init')
def _(t):
    e = env(t); n = t.bvs('n'); st0 = t.st.clone(); t.prog.contract(MT + r'::getReady\(\)', lambda ex, st, a, f, i: 0)
    def post(st, ret): t.prove(st, eq(mget(t, st, e.mt, 'startSeqNum'), n), 'the start number is taken'); same_but(t, st, st0, e.mt, MT, ['startSeqNum'], 'nothing else changes')
    t.run(MT + r'::init\(unsigned long\)', [e.mt, n], post)
@chk.task('by-sequence order')
def _(t):
    RS = MT + '::RecNodeSeq'; o, _ = t.field(RS, 'snode'); q = []
    for nm in 'ab':
        r, g = record(t, 'rec_' + nm); n = t.obj('node_' + nm, t.size(RS)); t.set(n, RS, 'rec', r); q.append((n.add(o), g))
    (a, x), (b, y) = q
    def post(st, ret):
        r = bv(ret, 32); t.prove(st, z3.And((r < 0) == z3.ULT(x, y), (r > 0) == z3.ULT(y, x)), 'orders by sequence number')
    t.run(RS + r'::cmp\(.*\)', [a, b, NULL], post)
def sl(e, t, pos=None):
    """the by-sequence index as proved in C09: find returns an element equal to the query or none"""
    RS = MT + '::RecNodeSeq'; so, _ = t.field(RS, 'snode'); ro, _ = t.field(RS, 'rec'); qo, _ = t.field(REC, 'seqNum')
    e.old = t.obj('storedRec', t.size(REC), kind='new'); e.node = t.obj('storedNode', t.size(RS), kind='new'); t.set(e.node, RS, 'rec', e.old)
    def find(ex, st, a, f, i):
        ex.prove(st, a[0].obj == e.bySeq.obj, t.name + '/searches the by-sequence index', 'requires')
        q = ex.rdp(st, a[1].add(ro - so)); k = ex.rdv(st, q.add(qo), 8)
        def yes(s): s.ghost['found'] = k; return e.node.add(so)
        def no(s): s.ghost['found'] = False; return NULL
        s = ex.rdv(st, e.old.add(qo), 8)
        return Outcomes([(eq(s, k), yes), (True, no)])
    def ins(ex, st, a, f, i):
        ex.prove(st, a[0].obj == e.bySeq.obj, t.name + '/inserts into the by-sequence index', 'requires'); st.ghost['ins'] = st.ghost.get('ins', ()) + (a[1].sub(so) if hasattr(a[1], 'sub') else Ptr(a[1].obj, add(a[1].off, -so)),); return 0
    def rel(ex, st, a, f, i): st.ghost['rel'] = st.ghost.get('rel', 0) + 1; return 0
    P = t.prog
    P.contract('skiplist_find', find, True); P.contract('skiplist_insert', ins, True); P.contract('skiplist_release_node', rel, True)
    P.contract('skiplist_init_node', lambda ex, st, a, f, i: 0, True); P.contract('skiplist_free_node', lambda ex, st, a, f, i: 0, True)
@chk.task('addToBySeqIndex')
def _(t):
    e = env(t); sl(e, t); r, g = record(t); t.assume(g != NIV); out = t.obj('prev_out', 8); t.put(out, 8, NULL); X = e.v['maxSeqNum']; st0 = t.st.clone(); RS = MT + '::RecNodeSeq'
    def post(st, ret):
        fd = st.ghost.get('found', None); ins = st.ghost.get('ins', ()); p = t.ex.rdp(st, out); t.prove(st, eq(ret, 0, 32), 'succeeds')
        if fd is not None and fd is not False:
            t.prove(st, eq(fd, g), 'looks for the number of the record'); t.prove(st, len(ins) == 0, 'an existing number is replaced, not doubled'); t.prove(st, p.obj == e.old.obj, 'the replaced record is handed out')
            t.prove(st, t.getp(st, e.node, RS, 'rec').obj == r.obj, 'the number now leads to the new record'); t.prove(st, st.ghost.get('rel', 0) == 1, 'its element is released')
        else:
            t.prove(st, b_or(fd is False, z3.ULT(X, g)), 'inserted only if the number is new'); t.prove(st, len(ins) == 1, 'inserted once'); t.prove(st, p.obj == 0, 'nothing is replaced')
            if ins: t.prove(st, t.getp(st, ins[0], RS, 'rec').obj == r.obj, 'inserted record is the given one'); t.prove(st, st.objs[ins[0].obj].alive, 'inserted element is alive')
            t.prove(st, st.ghost.get('rel', 0) == 0, 'nothing to release')
    t.run(MT + r'::addToBySeqIndex\(jungle::Record\*, jungle::Record\*&\)', [e.mt, r, out], post)
def putnew(t, first, over):
    ex = t.ex; e = env(t); A, M, S = inv(t, e); X = e.v['maxSeqNum']; al = allow(t, e); t.assume((A == NIV) == first); t.assume(al == over)
    t.assume(z3.Or(z3.And(A == NIV), z3.And(X != NIV, z3.ULT(X, z3.BitVecVal(NI - 1, 64))))); t.assume(z3.Implies(z3.Not(al), z3.Or(A == NIV, A == X)))
    r, g = record(t); ty = t.bvs('type', t.field(REC, 'type')[1] * 8); t.assume(z3.ULE(ty, 2)); t.set(r, REC, 'type', ty)
    vo, _ = t.field(KV, 'value'); ko, _ = t.field(KV, 'key'); kv, _ = t.field(REC, 'kv'); mo, _ = t.field(REC, 'meta')
    data = {}
    for nm, o in (('key', kv + ko), ('value', kv + vo), ('meta', mo)):
        n = t.bvs(nm + '_len', 32); d = t.obj(nm + '_data', z3.ZeroExt(32, n)); sb_make(t, nm, n, d, 0, r.add(o)); data[nm] = (n, d, o)
    t.set(e.mt, MT, 'lastInsertedRec', NULL)
    stale = t.obj('staleRec', t.size(REC), kind='new')
    def chkrec(ex_, st, p):
        q = t.get(st, p, REC, 'seqNum'); ex_.prove(st, b_and(b_not(eq(q, NI)), b_or(A == NIV, al, ult(A, q))), t.name + '/the stored record carries a number of its own', 'requires')
        ex_.prove(st, eq(t.get(st, p, REC, 'type'), ty, 8), t.name + '/stored type', 'requires')
        for nm in data:
            n, d, o = data[nm]; want = z3.If(ty == 1, z3.BitVecVal(0, 32), n) if nm == 'value' else n
            ex_.prove(st, eq(t.get(st, p.add(o), SB, 'size'), want, 32), t.name + '/stored %s length' % nm, 'requires')
            q2 = t.getp(st, p.add(o), SB, 'data')
            if q2.obj: j = t.bvs('j_' + nm); ex_.prove(st, implies(z3.ULT(j, z3.ZeroExt(32, want)), eq(ex_.byte(st, q2.obj, simp(bv(q2.off, 64) + j)), ex_.byte(st, d.obj, j), 8)), t.name + '/stored %s bytes' % nm, 'requires'); ex_.prove(st, b_or(eq(want, 0, 32), q2.obj != d.obj), t.name + '/stored %s is a copy' % nm, 'requires')
            else: ex_.prove(st, eq(want, 0, 32), t.name + '/stored %s present' % nm, 'requires')
    def bs(ex_, st, a, f, i):
        chkrec(ex_, st, a[1]); st.ghost['seq'] = st.ghost.get('seq', ()) + (a[1],)
        def old(s): ex_.store(s, a[2], 8, stale); s.ghost['stale'] = True; return 0
        def new(s): ex_.store(s, a[2], 8, NULL); return 0
        return Outcomes([(True, new), (True, old)])
    def bk(ex_, st, a, f, i): st.ghost['key'] = st.ghost.get('key', ()) + (a[1],); return VOID
    def hook(ex_, st, a, f, i): st.ghost['pushed'] = st.ghost.get('pushed', ()) + (a[0],); return VOID
    from llcv.prog import VOIDV as VOID
    t.prog.contract(MT + r'::addToBySeqIndex\(.*\)', bs); t.prog.contract(MT + r'::addToByKeyIndex\(.*\)', bk); t.prog.contract(r'std::__detail::_List_node_base::_M_hook\(.*\)', hook)
    st0 = t.st.clone()
    def post(st, ret):
        ok = eq(ret, 0, 32); s, k = st.ghost.get('seq', ()), st.ghost.get('key', ()); x1 = mget(t, st, e.mt, 'maxSeqNum')
        t.prove(st, implies(ok, len(s) == 1), 'an accepted record is stored once'); t.prove(st, implies(b_not(ok), len(s) + len(k) == 0), 'a rejected record is not stored')
        t.prove(st, implies(b_not(ok), eq(x1, X)), 'a rejected record does not move the maximum')
        if s:
            q = t.get(st, s[0], REC, 'seqNum')
            t.prove(st, b_and(ule(q, x1), b_not(eq(x1, NI)), b_or(X == NIV, ule(X, x1))), 'the maximum bounds the stored record and never falls')
            t.prove(st, b_or(eq(x1, q), eq(x1, X)), 'the maximum is a stored number')
            t.prove(st, implies(z3.And(z3.Not(al), A != NIV), eq(x1, q)), 'without overwriting the newest number is the maximum')
            t.prove(st, ule(mget(t, st, e.mt, 'minSeqNum'), q), 'the minimum bounds the stored record')
            t.prove(st, implies(ty != 2, len(k) == 1 and k[0] == s[0] if k else False), 'data records enter the key index'); t.prove(st, implies(ty == 2, len(k) == 0), 'commands do not enter the key index')
            t.prove(st, len(st.ghost.get('pushed', ())) == (1 if st.ghost.get('stale') else 0), 'a replaced record is kept for later release'); t.prove(st, st.objs[s[0].obj].alive, 'the stored record lives on')
        same_but(t, st, st0, r, REC, [], 'the given record is unchanged')
    t.run(MT + r'::putNewRecord\(jungle::Record const&\)', [e.mt, r], post)
for first in (True, False):
    for over in (True, False):
        chk.task('putNewRecord %s%s' % ('first' if first else 'next', ' overwriting' if over else ''))(lambda t, first=first, over=over: putnew(t, first, over))
META = LF + '::PurgedMemTableMeta'
@chk.task('reported numbers')
def _(t):
    e = env(t); mo, _ = t.field(LF, 'memTableOnFileMeta'); vals = {}
    for f in ('minSeq', 'maxSeq', 'flushedSeq', 'syncedSeq'): vals[f] = t.bvs('file_' + f); t.set(e.lf.add(mo), META, f, vals[f])
    st0 = t.st.clone()
    names = (('getMinSeqNum', 'minSeqNum', 'minSeq'), ('getMaxSeqNum', 'maxSeqNum', 'maxSeq'), ('getFlushedSeqNum', 'flushedSeqNum', 'flushedSeq'), ('getSyncedSeqNum', 'syncedSeqNum', 'syncedSeq'))
    for fn, a, b in names: t.run(LF + r'::%s\(\) const' % fn, [e.lf], lambda st, r, fn=fn, a=a: (t.prove(st, eq(r, e.v[a]), fn + ' reports the number of the table'), same_but(t, st, st0, e.mt, MT, [], fn + ' changes nothing')))
    t.set(e.lf, LF, 'mTable', NULL)
    for fn, a, b in names: t.run(LF + r'::%s\(\) const' % fn, [e.lf], lambda st, r, fn=fn, b=b: t.prove(st, eq(r, vals[b]), fn + ' reports the number on file when the table is purged'))
@chk.task('synced and flushed numbers')
def _(t):
    e = env(t); n = t.bvs('n'); t.assume(n != NIV); X, Y, F = e.v['maxSeqNum'], e.v['syncedSeqNum'], e.v['flushedSeqNum']; st0 = t.st.clone()
    def p1(st, r):
        t.prove(st, eq(mget(t, st, e.mt, 'syncedSeqNum'), z3.If(X == NIV, Y, z3.If(z3.UGT(n, X), X, n))), 'synced number never exceeds the maximum'); same_but(t, st, st0, e.mt, MT, ['syncedSeqNum'], 'setSyncedSeqNum changes nothing else')
    t.run(LF + r'::setSyncedSeqNum\(unsigned long\)', [e.lf, n], p1)
    def p2(st, r):
        t.prove(st, eq(mget(t, st, e.mt, 'flushedSeqNum'), z3.If(Y == NIV, F, z3.If(z3.UGT(n, Y), Y, n))), 'flushed number never exceeds the synced one'); same_but(t, st, st0, e.mt, MT, ['flushedSeqNum'], 'setFlushedSeqNum changes nothing else')
    t.run(LF + r'::setFlushedSeqNum\(unsigned long\)', [e.lf, n], p2)
@chk.task('setSN')
def _(t):
    e = env(t); al = allow(t, e); r, g = record(t); X, Y, F = e.v['maxSeqNum'], e.v['syncedSeqNum'], e.v['flushedSeqNum']; t.assume(g != 0)
    def put(ex, st, a, f, i):
        ex.prove(st, a[0].obj == e.mt.obj and a[1].obj == r.obj, t.name + '/stores the given record in this table', 'requires'); st.ghost['put'] = st.ghost.get('put', 0) + 1
        return Outcomes([(True, lambda s: (s.ghost.__setitem__('ok', True), 0)[1]), (True, lambda s: err(ex, s, 'put'))])
    t.prog.contract(MT + r'::putNewRecord\(.*\)', put)
    def post(st, ret):
        t.prove(st, st.ghost.get('put', 0) == 1, 'one record is stored'); t.prove(st, eq(ret, 0, 32) if st.ghost.get('ok') else b_not(eq(ret, 0, 32)), 'reports the outcome')
        over = z3.And(g != NIV, al, z3.ULE(g, X)); f1, y1 = mget(t, st, e.mt, 'flushedSeqNum'), mget(t, st, e.mt, 'syncedSeqNum')
        t.prove(st, eq(f1, z3.If(z3.And(over, F != NIV, z3.ULE(g, F)), g - 1, F)), 'an overwritten flushed record counts as not flushed'); t.prove(st, eq(y1, z3.If(z3.And(over, Y != NIV, z3.ULE(g, Y)), g - 1, Y)), 'an overwritten synced record counts as not synced')
    t.run(LF + r'::setSN\(jungle::Record const&\)', [e.lf, r], post)
if __name__ == '__main__': sys.exit(chk.main())
