"""C18: versions of a key and what a snapshot sees of them."""
import sys, z3
from llcv.check import Check
from llcv.exe import Outcomes
from llcv.prog import VOIDV
from llcv.sym import *
from .lib import *
from .mt import *
chk = Check('C18', ['src/memtable.cc', 'src/log_file.cc'], harness='C18.cc', harness_srcs=['src/memtable.cc', 'src/log_file.cc', 'src/skiplist.cc', 'src/bloomfilter.cc', 'src/murmurhash3.cc', 'src/crc32.cc', 'src/internal_helper.cc', 'src/logger.cc', 'src/fileops_posix.cc'],
            harness_flags=['-Wl,--unresolved-symbols=ignore-all'],
            assumptions=['records of a key arrive in increasing sequence number (C19, overwriting disabled)', 'sequential execution', 'skip list operations as proved in C09, Bloom filter as in C04, key order as in C06', 'the default order, or a custom one that distinguishes different byte strings', 'no logger attached'])
def slot_cands(t, e, x, upto, lo_=None):
    """facts about local list iterators: they stay on the list; what lies behind (or before) them was refused"""
    ex = t.ex
    def c(cx):
        out = []; st = cx.st; vals = []
        for nm, oid in slots(cx):
            v = ex.rdv(st, Ptr(oid, 0), 8); vals.append((nm, simp(bv(v, 64) - bv(e.base, 64))))
        for i, ph in enumerate(cx.phis):
            v = cx.cur[ph]
            if isinstance(v, Ptr) and v.obj == e.ring.obj: vals.append(('phi%d' % i, v.off))
        for nm, o in vals:
            o = bv(o, 64); lo = z3.BitVecVal(31, 64)
            out.append((nm + ' aligned', (o & lo) == 0)); out.append((nm + ' on the list', z3.ULE(o, e.n << 5)))
            ref = z3.And(upto != NIV, z3.UGT(e.seq(st, x), upto)); xo = x << 5
            if lo_ is not None: q_ = e.seq(st, x); out_ = z3.Or(z3.And(upto != NIV, z3.UGT(q_, upto)), z3.And(lo_ != NIV, z3.ULT(q_, lo_))); out.append((nm + ' newer not in the window', z3.Implies(z3.And(o != 0, z3.UGE(xo, o)), out_)))
            out.append((nm + ' newer refused', z3.Implies(z3.And(o != 0, z3.UGE(xo, o)), ref)))
            out.append((nm + ' newer refused, inclusive', z3.Implies(z3.UGT(xo, o), ref)))
        return out
    return c
def x_any(t, e):
    x = t.bvs('any_element'); t.assume(z3.And(x != 0, z3.ULE(x, e.n))); return x
@chk.task('getLatestRecord')
def _(t):
    ex = t.ex; e = ring(t, env(t)); lo, up = t.bvs('seq_from'), t.bvs('seq_upto'); x = t.bvs('any_element'); t.assume(z3.And(x != 0, z3.Or(z3.ULE(x, e.n), e.n == 0)))
    ex.loop_cands = slot_cands(t, e, x, up, lo); st0 = t.st.clone()
    inl = lambda q: z3.And(z3.Or(up == NIV, z3.ULE(q, up)), z3.Or(lo == NIV, z3.UGE(q, lo)))
    def post(st, r):
        on = z3.And(z3.ULE(x, e.n), e.n != 0); q = e.seq(st, x)
        if r.obj == 0:
            # sortedness at the places the proof needs: the last examined element is the newest not above the limit
            for nm, k in cursors(st): e.sorted_at(st, x, k); e.sorted_at(st, k, x)
            t.prove(st, implies(on, z3.Not(inl(q))), 'nothing is returned only if no version is visible')
        else:
            t.prove(st, r.obj == e.recs.obj, 'a version of this key'); k = simp(z3.LShR(bv(r.off, 64), 8)); t.prove(st, b_and(eq(r.off & 255 if not isint(r.off) else r.off % 256, 0), b_not(eq(k, 0)), ule(k, e.n)), 'an element of the list')
            for a, b in ((x, k), (k, x)): e.sorted_at(st, a, b)
            t.prove(st, inl(e.seq(st, k)), 'the returned version is visible'); t.prove(st, implies(z3.And(on, inl(q)), z3.ULE(q, e.seq(st, k))), 'no newer version is visible')
            t.prove(st, implies(z3.And(on, inl(q), q == e.seq(st, k)), ule(x, k)), 'of equal numbers the one written last')
    def cursors(st): return st.ghost.get('seen', [])
    # every element whose record was read (for the sortedness instances)
    hook = t.st.objs[e.ring.obj].hook; ld = hook.load
    def load(ex_, st, o, p, nb, want):
        r = ld(ex_, st, o, p, nb, want)
        if isinstance(r, Ptr) and r.obj == e.recs.obj: st.ghost['seen'] = st.ghost.get('seen', []) + [('k', simp(z3.LShR(bv(r.off, 64), 8)))]
        return r
    hook.load = load
    t.run(RN + r'::getLatestRecord\(unsigned long, unsigned long\)', [e.node, lo, up], post)
def contract_latest(t, e, vis=None):
    """getLatestRecord as proved above, for callers: k = newest visible element (0: none)"""
    def h(ex, st, a, f, i):
        lo, up = a[1], a[2]; x = e.x; st.ghost['asked'] = (a[0], lo, up)
        inl = lambda q: z3.And(z3.Or(bv(up, 64) == NIV, z3.ULE(q, bv(up, 64))), z3.Or(bv(lo, 64) == NIV, z3.UGE(q, bv(lo, 64))))
        def some(s):
            k = ex.fresh('newest', 64); ex.assume(s, z3.And(k != 0, z3.ULE(k, e.n), inl(e.seq(s, k)))); ex.assume(s, z3.Implies(z3.And(z3.ULE(x, e.n), inl(e.seq(s, x))), z3.ULE(e.seq(s, x), e.seq(s, k)))); s.ghost['newest'] = k
            return Ptr(e.recs.obj, simp(k << 8))
        def none(s): ex.assume(s, z3.Implies(z3.ULE(x, e.n), z3.Not(inl(e.seq(s, x))))); s.ghost['newest'] = None; return NULL
        return Outcomes([(e.n != 0, some), (True, none)])
    t.prog.contract(RN + r'::getLatestRecord\(.*\)', h)
@chk.task('getMinSeq')
def _(t):
    e = ring(t, env(t)); x = t.bvs('any_element'); t.assume(x != 0)
    e.sorted(z3.BitVecVal(1, 64), x)
    def post(st, r): t.prove(st, implies(z3.And(e.n != 0, z3.ULE(x, e.n)), ule(r, e.seq(st, x))), 'a lower bound of all versions'); t.prove(st, implies(e.n != 0, eq(r, e.seq(st, 1))), 'the number of the oldest version')
    t.run(RN + r'::getMinSeq\(\)', [e.node], post)
@chk.task('validKeyExist')
def _(t):
    ex = t.ex; e = ring(t, env(t)); lo, up = t.bvs('seq_from'), t.bvs('seq_upto'); tomb = t.bvs('allow_tombstone', 8); t.assume(z3.ULE(tomb, 1)); e.x = t.bvs('any_element'); t.assume(e.x != 0); contract_latest(t, e)
    e.sorted(z3.BitVecVal(1, 64), e.x)
    inl = lambda q: z3.And(z3.Or(up == NIV, z3.ULE(q, up)), z3.Or(lo == NIV, z3.UGE(q, lo)))
    def post(st, r):
        k = st.ghost.get('newest'); asked = 'newest' in st.ghost; x = e.x
        if asked: a = st.ghost['asked']; t.prove(st, b_and(eq(a[1], lo), eq(a[2], up), a[0].obj == e.node.obj), 'asks for this window')
        if k is not None: e.sorted_at(st, 1, k); t.prove(st, bo(r) == z3.Or(tomb == 1, e.type(st, k) == 0), 'live exactly if the newest visible version is not a deletion (or deletions count)')
        elif asked: t.prove(st, b_not(r), 'no visible version: not live')
        else: t.prove(st, b_not(r), 'without looking the answer is only no'); t.prove(st, z3.Implies(z3.ULE(x, e.n), z3.Not(inl(e.seq(st, x)))), 'no version is visible')
    t.run(RN + r'::validKeyExist\(unsigned long, unsigned long, bool\)', [e.node, lo, up, tomb], post)
@chk.task('key comparison')
def _(t):
    """the index order is the database's order"""
    ex = t.ex; e = env(t); no, _ = t.field(RN, 'snode'); ko, _ = t.field(RN, 'key'); ns = []
    for nm in 'ab':
        n = t.bvs('len_' + nm, 32); d = t.obj('key_' + nm, z3.ZeroExt(32, n)); p = t.obj('node_' + nm, t.size(RN)); sb_make(t, nm, n, d, 0, p.add(ko)); ns.append((p, d, n))
    (a, da, na), (b, db, nb) = ns; got = {}
    def cmp_(ex_, st, x, f, i): t.prove(st, x[0].obj == a.obj and x[1].obj == b.obj and eq(x[0].off, ko) and eq(x[1].off, ko), 'compares the two keys in order', 'requires'); v = ex_.fresh('order', 32); st.ghost['r'] = v; return v
    t.prog.contract(SB + r'::cmp\(jungle::SizedBuf const&, jungle::SizedBuf const&\)', cmp_)
    def post(st, r): t.prove(st, 'r' in st.ghost and eq(r, st.ghost['r'], 32), 'order of the keys')
    t.run(MT + r'::cmpKey\(.*\)', [a.add(no), b.add(no), NULL], post); t.run(RN + r'::cmp\(.*\)', [a.add(no), b.add(no), NULL], post)
    fo, _ = t.field(CFG, 'cmpFunc'); po, _ = t.field(CFG, 'cmpFuncParam'); par = t.obj('param', 8); t.put(e.cfg.add(po), 8, par)
    def custom(ex_, st, x, f, i):
        t.prove(st, x[0].obj == da.obj and x[2].obj == db.obj and b_and(eq(x[1], z3.ZeroExt(32, na)), eq(x[3], z3.ZeroExt(32, nb))), 'custom order gets both keys with their lengths', 'requires'); t.prove(st, x[4].obj == par.obj, 'custom order gets its parameter', 'requires'); v = ex_.fresh('custom', 32); st.ghost['r'] = v; return v
    t.put(e.cfg.add(fo), 8, FnPtr('user::cmp')); t.prog.contract('user::cmp', custom, True)
    t.run(MT + r'::cmpKey\(.*\)', [a.add(no), b.add(no), e.mt], post)
OPT = dict(GREATER_OR_EQUAL=0, GREATER=1, SMALLER_OR_EQUAL=2, SMALLER=3, EQUAL=4)
@chk.task('sequence number comparison')
def _(t):
    RS = MT + '::RecNodeSeq'; no, _ = t.field(RS, 'snode'); q = []; p = []
    for nm in 'ab': r = t.obj('rec_' + nm, t.size(REC)); n = t.obj('seqNode_' + nm, t.size(RS)); t.set(n, RS, 'rec', r); v = t.bvs('seq_' + nm); t.set(r, REC, 'seqNum', v); q.append(v); p.append(n.add(no))
    def post(st, r): r = bv(r, 32); t.prove(st, (r < 0) == z3.ULT(q[0], q[1]), 'smaller number first'); t.prove(st, (r > 0) == z3.UGT(q[0], q[1]), 'larger number last')
    t.run(RS + r'::cmp\(.*\)', [p[0], p[1], NULL], post)
def bits(t, *names):
    out = []
    for n in names: v = t.bvs(n, 8); t.assume(z3.ULE(v, 1)); out.append(v)
    return out
def index(t, e, exact=True):
    """the by-key index as proved in C09: e.node is the element the search may end at, e.twin an element with exactly the searched key"""
    no, _ = t.field(RN, 'snode'); ko, _ = t.field(RN, 'key'); e.no = no; e.ko = ko; e.twin = t.obj('twinNode', t.size(RN))
    def grab(s, n): s.ghost['refs'] = s.ghost.get('refs', ()) + (n.obj,); return n.add(no)
    def qkey(ex, st, a): ex.prove(st, a[0].obj == e.byKey.obj, t.name + '/searches the by-key index', 'requires'); q = Ptr(a[1].obj, sub(a[1].off, no)).add(ko); return t.getp(st, q, SB, 'data'), t.get(st, q, SB, 'size')
    def find(kind):
        def h(ex, st, a, f, i):
            d, n = qkey(ex, st, a); ex.prove(st, d.obj == e.kd.obj and eq(n, e.kn, 32), t.name + '/searches the given key', 'requires'); st.ghost['search'] = st.ghost.get('search', ()) + (kind,)
            def tgt(s): s.ghost['at'] = 'target'; return grab(s, e.node)
            def twin(s): s.ghost['at'] = 'twin'; return grab(s, e.twin)
            def none(s): s.ghost['at'] = None; return NULL
            return Outcomes([(True, tgt), (True, none)] + ([(True, twin)] if exact and kind != 'eq' else []))
        return h
    def step(kind):
        def h(ex, st, a, f, i):
            ex.prove(st, st.ghost.get('at') == 'twin' and a[1].obj == e.twin.obj, t.name + '/moves on only from the searched key itself', 'requires'); st.ghost['search'] = st.ghost.get('search', ()) + (kind,)
            def tgt(s): s.ghost['at'] = 'target'; return grab(s, e.node)
            def none(s): s.ghost['at'] = None; return NULL
            return Outcomes([(True, tgt), (True, none)])
        return h
    def rel(ex, st, a, f, i):
        r = list(st.ghost.get('refs', ())); ex.prove(st, a[0].obj in r, t.name + '/releases only what it holds', 'requires')
        if a[0].obj in r: r.remove(a[0].obj)
        st.ghost['refs'] = tuple(r); return 0
    P = t.prog
    P.contract('skiplist_find', find('eq'), True); P.contract('skiplist_find_greater_or_equal', find('ge'), True); P.contract('skiplist_find_smaller_or_equal', find('le'), True)
    P.contract('skiplist_next', step('next'), True); P.contract('skiplist_prev', step('prev'), True); P.contract('skiplist_release_node', rel, True)
    for nm in ('skiplist_init_node', 'skiplist_free_node'): P.contract(nm, lambda ex, st, a, f, i: 0, True)
    def cmp_(ex, st, a, f, i):
        n = [x for x in a if x.obj in (e.node.obj, e.twin.obj)]; k = [x for x in a if x.obj == e.key.obj]
        ex.prove(st, len(n) == 1 and len(k) == 1 and eq(n[0].off, ko), t.name + '/compares the key with the element', 'requires')
        v = ex.fresh('order', 32); ex.assume(st, (v == 0) if n[0].obj == e.twin.obj else (v != 0)); return v
    P.contract(SB + r'::cmp\(jungle::SizedBuf const&, jungle::SizedBuf const&\)', cmp_)
    def asg(ex, st, a, f, i): st.ghost['out'] = st.ghost.get('out', ()) + ((a[0], a[1]),); return a[0]
    P.contract(r'jungle::Record::operator=\(.*\)', asg)
    e.kn = t.bvs('key_len', 32); e.kd = t.obj('key_data', z3.ZeroExt(32, e.kn)); e.key = sb_make(t, 'key', e.kn, e.kd)
def outcome(t, e, st, r, rec, fl, tomb, nm=''):
    ok = eq(r, 0, 32); at = st.ghost.get('at'); out = st.ghost.get('out', ()); F = e.v['flushedSeqNum']
    t.prove(st, not st.ghost.get('refs'), nm + 'every element is released')
    k = st.ghost.get('newest') if at == 'target' else None
    if at == 'target': t.prove(st, 'asked' in st.ghost and st.ghost['asked'][0].obj == e.node.obj, nm + 'looks at the versions of the element found')
    if at != 'target' or k is None: t.prove(st, b_not(ok), nm + 'nothing visible: not found'); return
    q = e.seq(st, k); purged = z3.And(F != NIV, z3.ULE(q, F), fl == 0); dead = z3.And(tomb == 0, e.type(st, k) == 1)
    t.prove(st, bo(ok) == z3.Not(z3.Or(purged, dead)), nm + 'found unless already in the tables or a deletion')
    t.prove(st, implies(ok, len(out) == 1 and out[-1][0].obj == rec.obj and eq(out[-1][1].off, simp(k << 8)) if out and out[-1][1].obj == e.recs.obj else False), nm + 'hands out the newest visible version')
def lookup(opt):
    @chk.task('getRecordByKeyInternal ' + opt)
    def _(t):
        ex = t.ex; ex.auto_inv = False; e = ring(t, env(t)); e.x = t.bvs('any_element'); t.assume(e.x != 0); contract_latest(t, e); index(t, e, 'OR' not in opt); fl, tomb = bits(t, 'allow_flushed', 'allow_tombstone'); c = t.bvs('chk'); rec = t.obj('rec_out', t.size(REC))
        o = t.obj('options', 4); t.put(o, 4, OPT[opt])
        def post(st, r):
            s = st.ghost.get('search', ()); want = {'EQUAL': ('eq',), 'GREATER_OR_EQUAL': ('ge',), 'SMALLER_OR_EQUAL': ('le',), 'GREATER': ('ge', 'next'), 'SMALLER': ('le', 'prev')}[opt]
            t.prove(st, s == want[:len(s)] and len(s) >= 1, 'searches in the demanded direction'); t.prove(st, implies(eq(r, 0, 32), st.ghost.get('at') == 'target'), 'an exact match only if allowed')
            if 'asked' in st.ghost: t.prove(st, b_and(eq(st.ghost['asked'][2], c), eq(st.ghost['asked'][1], NI)), 'asks for the snapshot of the reader')
            outcome(t, e, st, r, rec, fl, tomb)
        t.run(MT + r'::getRecordByKeyInternal\(.*\)', [e.mt, c, e.key, rec, fl, tomb, OPT[opt]], post)
for o_ in OPT: lookup(o_)
def hashes(t, e):
    """get_hash_pair (C03) and the Bloom filter (C04)"""
    e.H = (t.bvs('h0'), t.bvs('h1'))
    def pair(ex, st, a, f, i):
        st.ghost['hashed'] = (a[0], a[1], a[2]); ex.store(st, a[3], 8, e.H[0]); ex.store(st, a[3].add(8), 8, e.H[1]); return e.custom
    e.custom = t.bvs('custom_hash', 1)
    t.prog.contract(r'(jungle::)?get_hash_pair\(.*\)', pair)
    def arg(ex, st, a):
        ex.prove(st, a[0].obj == e.bf.obj, t.name + '/uses the filter of this table', 'requires'); ex.prove(st, b_and(eq(ex.rdv(st, a[1], 8), e.H[0]), eq(ex.rdv(st, a[1].add(8), 8), e.H[1])), t.name + '/uses the hash pair of the key', 'requires')
    def check(ex, st, a, f, i): arg(ex, st, a); st.ghost['checked'] = True; return Outcomes([(True, lambda s: s.ghost.__setitem__('bloom', True) or 1), (True, lambda s: s.ghost.__setitem__('bloom', False) or 0)])
    def set_(ex, st, a, f, i): arg(ex, st, a); st.ghost['bloom set'] = True; return 0
    t.prog.contract(r'(jungle::)?BloomFilter::check\(.*\)', check); t.prog.contract(r'(jungle::)?BloomFilter::set\(.*\)', set_)
def front(name, pat, opt, bloom):
    @chk.task(name)
    def _(t):
        ex = t.ex; e = env(t); hashes(t, e); fl, tomb = bits(t, 'allow_flushed', 'allow_tombstone'); c = t.bvs('chk'); rec = t.obj('rec_out', t.size(REC)); kn = t.bvs('key_len', 32); key = sb_make(t, 'key', kn, t.obj('key_data', z3.ZeroExt(32, kn)))
        so = t.bvs('option', 32) if opt is None else opt
        def inner(ex_, st, a, f, i):
            ex_.prove(st, b_and(a[0].obj == e.mt.obj, eq(a[1], c), a[2].obj == key.obj, a[3].obj == rec.obj), t.name + '/passes its arguments on', 'requires')
            ex_.prove(st, z3.And(bo(a[4]) == (fl == 1), bo(a[5]) == (tomb == 1)), t.name + '/passes its switches on', 'requires')
            o = a[6] if not isinstance(a[6], Ptr) else ex_.rdv(st, a[6], 4); ex_.prove(st, eq(o, so, 32), t.name + '/passes the search option on', 'requires'); r = ex_.fresh('inner', 32); st.ghost['inner'] = r; return r
        t.prog.contract(MT + r'::getRecordByKeyInternal\(.*\)', inner)
        def post(st, r):
            g = st.ghost
            if bloom: t.prove(st, g.get('checked') and 'hashed' in g and g['hashed'][0].obj == e.cfg.obj and g['hashed'][1].obj == key.obj and eq(g['hashed'][2], 0, 1), 'filter asked for the whole key')
            if bloom and g.get('bloom') is False: t.prove(st, 'inner' not in g and b_not(eq(r, 0, 32)), 'not in the filter: not found')
            else: t.prove(st, 'inner' in g and eq(r, g['inner'], 32), 'otherwise the answer of the search')
        t.run(MT + pat, [e.mt, c, key, rec, fl, tomb] + ([so] if opt is None else []), post)
front('getRecordByKey', r'::getRecordByKey\(.*\)', 4, True); front('getNearestRecordByKey', r'::getNearestRecordByKey\(.*\)', None, False)
@chk.task('findRecordBySeq')
def _(t):
    ex = t.ex; e = env(t); q = t.bvs('seq'); rec = t.obj('rec_out', t.size(REC)); RS = MT + '::RecNodeSeq'; n = t.obj('seqNode', t.size(RS)); stored = t.obj('stored', t.size(REC)); t.set(n, RS, 'rec', stored); no, _ = t.field(RS, 'snode')
    def find(ex_, st, a, f, i):
        r = t.getp(st, Ptr(a[1].obj, sub(a[1].off, no)), RS, 'rec'); ex_.prove(st, a[0].obj == e.bySeq.obj, t.name + '/searches the by-sequence index', 'requires'); ex_.prove(st, eq(t.get(st, r, REC, 'seqNum'), q), t.name + '/searches the given number', 'requires')
        return Outcomes([(True, lambda s: s.ghost.__setitem__('held', True) or n.add(no)), (True, lambda s: NULL)])
    def rel(ex_, st, a, f, i): ex_.prove(st, a[0].obj == n.obj and st.ghost.get('held') is True, t.name + '/releases only what it holds', 'requires'); st.ghost['held'] = False; return 0
    t.prog.contract('skiplist_find', find, True); t.prog.contract('skiplist_release_node', rel, True)
    for nm in ('skiplist_init_node', 'skiplist_free_node'): t.prog.contract(nm, lambda ex, st, a, f, i: 0, True)
    def asg(ex_, st, a, f, i): st.ghost['out'] = st.ghost.get('out', ()) + ((a[0], a[1]),); return a[0]
    t.prog.contract(r'jungle::Record::operator=\(.*\)', asg)
    def post(st, r):
        F = e.v['flushedSeqNum']; gone = z3.And(F != NIV, z3.ULE(q, F)); h = st.ghost.get('held'); out = st.ghost.get('out', ())
        t.prove(st, h is not True, 'the element is released'); t.prove(st, bo(eq(r, 0, 32)) == z3.And(bo(h is not None), z3.Not(gone)), 'found exactly if stored and not yet in the tables')
        t.prove(st, implies(eq(r, 0, 32), len(out) == 1 and out[0][0].obj == rec.obj and out[0][1].obj == stored.obj), 'hands out the stored record')
    t.run(MT + r'::findRecordBySeq\(.*\)', [e.mt, q, rec], post)
class Nodes:
    """the by-key index from the first key not below the prefix: element i (the key of the pointer), its key bytes at i << 32, versions at i << 4"""
    def __init__(self, t, e): self.t = t; self.e = e; self.ko = t.field(RN, 'key')[0]; self.do = self.ko + t.field(SB, 'data')[0]; self.so = self.ko + t.field(SB, 'size')[0]; self.lo = t.field(RN, 'recList')[0]; self.size = z3.Function('key_size', z3.BitVecSort(64), z3.BitVecSort(32))
    def load(self, ex, st, o, p, nb, want):
        f = p.off; i = bv(p.key, 64)
        if not isint(f): raise EngineError('index element member')
        self.e.held(st, i)
        if f == self.do and want == 'ptr': return Ptr(self.e.keys.obj, simp(i << 32))
        if f == self.lo and want == 'ptr': return Ptr(self.e.lists.obj, simp(i << 4))
        if f == self.so and nb == 4: return self.size(i)
        raise EngineError('index element member %d' % f)
    def store(self, ex, st, o, p, n, v): raise EngineError('index modified')
@chk.task('getRecordsByPrefix')
def _(t):
    """every key with the prefix is visited once, in order; the callback gets exactly the visible live ones"""
    ex = t.ex; e = env(t); hashes(t, e); P = t.prog; fl, tomb = bits(t, 'allow_flushed', 'allow_tombstone'); c = t.bvs('chk'); pn = t.bvs('prefix_len', 32); pd = t.obj('prefix_data', z3.ZeroExt(32, pn)); pre = sb_make(t, 'prefix', pn, pd)
    m = t.bvs('elements'); t.assume(z3.ULT(m, z3.BitVecVal(1 << 28, 64))); x = t.bvs('any_element'); t.assume(z3.And(x != 0, z3.ULE(x, m)))
    BS = z3.BitVecSort(64); match = z3.Function('has_prefix', BS, z3.BoolSort()); vis = z3.Function('visible', BS, z3.BoolSort())
    sz = simp(m + 1); e.keys = t.obj('keys', simp(sz << 32)); e.lists = t.obj('lists', simp(sz << 4)); e.recs = t.obj('records', simp(sz << 8)); hk = Nodes(t, e); nodes = ex.new_obj(t.st, 'elements', t.size(RN), None, 'input', hook=hk).id; el = lambda i, d=0: Ptr(nodes, d, i)
    no, _ = t.field(RN, 'snode'); qo, _ = t.field(REC, 'seqNum'); to, tn = t.field(REC, 'type'); F = e.v['flushedSeqNum']
    seq = lambda st, i: bv(ex.rdv(st, Ptr(e.recs.obj, simp((bv(i, 64) << 8) + qo)), 8), 64); typ = lambda st, i: bv(ex.rdv(st, Ptr(e.recs.obj, simp((bv(i, 64) << 8) + to)), tn), tn * 8)
    wanted = lambda st, i: z3.And(vis(i), z3.Not(z3.And(F != NIV, z3.ULE(seq(st, i), F), fl == 0)), z3.Not(z3.And(tomb == 0, typ(st, i) == 1)))
    G = t.obj('ghost', 32); [t.put(G.add(k), 8, 0) for k in (0, 8, 16, 24)]   # last examined, times handed out at x, held element, second held element
    g = lambda st, k: bv(ex.rdv(st, G.add(8 * k), 8), 64); put = lambda st, k, v: ex.store(st, G.add(8 * k), 8, v); R = lambda st, c_, nm: ex.prove(st, c_, t.name + '/' + nm, 'requires')
    idx = lambda p, d: p.key if p.obj == nodes and isint(p.off) and p.off == d else None
    e.held = lambda st, i: R(st, z3.Or(i == g(st, 2), i == g(st, 3)), 'reads only elements it holds')
    def find(ex_, st, a, f, i):
        q = Ptr(a[1].obj, sub(a[1].off, no)).add(hk.ko); R(st, a[0].obj == e.byKey.obj, 'searches the by-key index'); R(st, t.getp(st, q, SB, 'data').obj == pd.obj and eq(t.get(st, q, SB, 'size'), pn, 32), 'starts at the prefix'); st.ghost['found'] = True
        return Outcomes([(m != 0, lambda s: put(s, 2, 1) or el(1, no)), (m == 0, lambda s: NULL)])
    def nxt(ex_, st, a, f, i):
        R(st, a[0].obj == e.byKey.obj and a[1].obj == nodes, 'moves on in the by-key index'); k = idx(a[1], no); R(st, b_and(eq(k, g(st, 2)), eq(g(st, 3), 0)), 'moves on from the held element')
        return Outcomes([(z3.ULT(bv(k, 64), m), lambda s: put(s, 3, simp(bv(k, 64) + 1)) or el(simp(bv(k, 64) + 1), no)), (z3.UGE(bv(k, 64), m), lambda s: NULL)])
    def rel(ex_, st, a, f, i):
        R(st, a[0].obj == nodes, 'releases an element'); k = idx(a[0], no); R(st, b_and(eq(k, g(st, 2)), b_not(eq(k, 0))), 'releases only what it holds'); v = g(st, 3); put(st, 2, v); put(st, 3, 0); return 0
    P.contract('skiplist_find_greater_or_equal', find, True); P.contract('skiplist_next', nxt, True); P.contract('skiplist_release_node', rel, True)
    for nm in ('skiplist_init_node', 'skiplist_free_node'): P.contract(nm, lambda ex_, st, a, f, i: 0, True)
    def latest(ex_, st, a, f, i):
        R(st, a[0].obj == nodes and b_and(eq(a[1], NI), eq(a[2], c)), 'asks for the snapshot of the reader'); k = idx(a[0], 0); R(st, eq(k, g(st, 2)), 'looks only at an element it holds'); R(st, match(bv(k, 64)), 'looks only at keys with the prefix'); R(st, eq(k, simp(g(st, 0) + 1)), 'visits the keys in order, none twice or skipped'); put(st, 0, k)
        return Outcomes([(vis(bv(k, 64)), lambda s: Ptr(e.recs.obj, simp(bv(k, 64) << 8))), (z3.Not(vis(bv(k, 64))), lambda s: NULL)])
    P.contract(RN + r'::getLatestRecord\(.*\)', latest)
    def cmp_(ex_, st, a, f, i):
        d = [t.getp(st, y, SB, 'data') for y in a]; n = [t.get(st, y, SB, 'size') for y in a]; k = [j for j in (0, 1) if d[j].obj == e.keys.obj]
        R(st, len(k) == 1 and d[1 - k[0]].obj == pd.obj and b_and(eq(n[0], pn, 32), eq(n[1], pn, 32)), 'compares the head of the key with the prefix'); i_ = simp(z3.LShR(bv(d[k[0]].off, 64), 32)); R(st, eq(d[k[0]].off, simp(bv(i_, 64) << 32)), 'compares from the start of the key'); R(st, z3.UGE(hk.size(bv(i_, 64)), pn), 'the key is at least as long')
        v = ex_.fresh('order', 32); ex_.assume(st, (v == 0) == match(bv(i_, 64))); return v
    P.contract(SB + r'::cmp\(jungle::SizedBuf const&, jungle::SizedBuf const&\)', cmp_)
    P.contract(r'jungle::SizedBuf::SizedBuf\(jungle::SizedBuf const&\)', lambda ex_, st, a, f, i: st.ghost.__setitem__(('copy', a[0].obj, a[0].off), a[1]) or VOIDV)
    P.contract(r'jungle::SizedBuf::operator=\(jungle::SizedBuf const&\)', lambda ex_, st, a, f, i: st.ghost.__setitem__(('copy', a[0].obj, a[0].off), a[1]) or a[0])
    P.contract(r'jungle::SizedBuf::~SizedBuf\(\)', lambda ex_, st, a, f, i: VOIDV)
    ex.assume(t.st, z3.BoolVal(True)); short = lambda i: z3.Implies(z3.ULT(hk.size(bv(i, 64)), pn), z3.Not(match(bv(i, 64))))
    def call(ex_, st, a, f, i):
        k = g(st, 0); p = a[1]; R(st, a[0].obj == fn.obj, 'calls the given callback'); R(st, wanted(st, k), 'hands out only visible live keys'); R(st, b_and(eq(ex_.rdv(st, p.add(qo), 8), seq(st, k)), eq(ex_.rdv(st, p.add(to), tn), typ(st, k), tn * 8)), 'hands out the visible version')
        kvo, _ = t.field(REC, 'kv'); mo, _ = t.field(REC, 'meta')
        for nm, o in (('key', kvo + t.field(KV, 'key')[0]), ('value', kvo + t.field(KV, 'value')[0]), ('meta', mo)):
            src = st.ghost.get(('copy', p.obj, add(p.off, o))); R(st, src is not None and src.obj == e.recs.obj and eq(src.off, simp((k << 8) + o)), 'hands out its %s' % nm)
        put(st, 1, simp(z3.If(k == x, g(st, 1) + 1, g(st, 1))))
        return Outcomes([(True, lambda s: 0), (True, lambda s: s.ghost.__setitem__('stopped', True) or 1)])
    fn = t.obj('callback', 32); t.put(fn.add(16), 8, FnPtr('user::manager')); t.put(fn.add(24), 8, FnPtr('user::callback')); P.contract('user::callback', call, True)
    def cands(cx):
        st = cx.st; out = []; L, N, H, H2 = (g(st, k) for k in range(4))
        for i, ph in enumerate(cx.phis):
            v = cx.cur[ph]
            if isinstance(v, Ptr) and v.obj == nodes:
                out.append(('phi%d at the next element' % i, b_and(eq(v.key, simp(L + 1)), eq(v.off, 0))))
        out.append(('one element held', z3.And(H == L + 1, H2 == 0))); out.append(('on the index', z3.ULT(L, m))); out.append(('x not yet handed out', z3.Implies(z3.UGT(x, L), N == 0)))
        out.append(('x handed out exactly if wanted', z3.Implies(z3.ULE(x, L), N == z3.If(wanted(st, x), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))))); out.append(('x has the prefix', z3.Implies(z3.ULE(x, L), match(x)))); return out
    ex.loop_cands = cands; ex.fork_inv = True
    def post(st, r):
        L, N, H, H2 = (g(st, k) for k in range(4)); one, zero = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64); ex.assume(st, short(simp(L + 1)))
        t.prove(st, b_and(eq(H, 0), eq(H2, 0)), 'every element is released'); t.prove(st, implies(ule(x, L), match(x)), 'only keys with the prefix are examined')
        if 'checked' in st.ghost: t.prove(st, b_and(eq(e.custom, 1, 1), st.ghost['hashed'][1].obj == pre.obj, eq(st.ghost['hashed'][2], 1, 1)), 'the filter is asked only with a custom hash of the prefix')
        if st.ghost.get('bloom') is False: t.prove(st, b_and(eq(L, 0), eq(N, 0), b_not(eq(r, 0, 32))), 'no key with this hash: nothing'); return
        if 'stopped' in st.ghost: t.prove(st, b_and(b_not(eq(r, 0, 32))), 'a stop is reported'); t.prove(st, implies(ult(x, L), eq(N, simp(z3.If(wanted(st, x), one, zero)))), 'before the stop: exactly the wanted keys'); t.prove(st, implies(eq(x, L), eq(N, 1)), 'the last one was handed out'); t.prove(st, implies(ult(L, x), eq(N, 0)), 'after the stop nothing'); return
        t.prove(st, z3.Or(L == m, z3.Not(match(simp(L + 1)))), 'ends only behind the last key with the prefix'); t.prove(st, eq(N, simp(z3.If(z3.And(z3.ULE(x, L), wanted(st, x)), one, zero))), 'exactly the wanted keys are handed out, once')
    t.run(MT + r'::getRecordsByPrefix\(.*\)', [e.mt, c, pre, fn, fl, tomb], post)
def peq(a, b): return a.obj == b.obj and eq(a.off, b.off)
def list_ops(t):
    """std::list link operations of the C++ library"""
    def hook(ex, st, a, f, i): n, pos = a; pr = ex.load(st, pos.add(8), 8, 'ptr'); ex.store(st, n, 8, pos); ex.store(st, n.add(8), 8, pr); ex.store(st, pr, 8, n); ex.store(st, pos.add(8), 8, n); return 0
    def unhook(ex, st, a, f, i): nx, pr = ex.load(st, a[0], 8, 'ptr'), ex.load(st, a[0].add(8), 8, 'ptr'); ex.store(st, pr, 8, nx); ex.store(st, nx.add(8), 8, pr); return 0
    t.prog.contract(r'std::__detail::_List_node_base::_M_hook\(.*\)', hook, True); t.prog.contract(r'std::__detail::_List_node_base::_M_unhook\(.*\)', unhook, True)
def mklist(t, recs, name='recList'):
    h = t.obj(name, 24); ns = [t.obj('%s_%d' % (name, k), 24, kind='new') for k in range(len(recs))]; ch = [h] + ns + [h]
    for k in range(len(ns)): t.put(ns[k], 8, ch[k + 2]); t.put(ns[k].add(8), 8, ch[k]); t.put(ns[k].add(16), 8, recs[k])
    t.put(h, 8, ch[1]); t.put(h.add(8), 8, ch[-2]); t.put(h.add(16), 8, len(ns)); return h
def walk(t, st, h, lim=12):
    """the records of a list, oldest first; the backward links must agree"""
    out = []; p = h
    for _ in range(lim):
        q = t.ex.load(st, p, 8, 'ptr'); t.prove(st, peq(t.ex.load(st, q.add(8), 8, 'ptr'), p), 'list links agree')
        if q.obj == h.obj and q.off == h.off: break
        out.append(t.ex.load(st, q.add(16), 8, 'ptr')); p = q
    else: t.prove(st, False, 'list is finite')
    t.prove(st, eq(t.ex.rdv(st, h.add(16), 8), len(out)), 'list size agrees'); return out
@chk.task('addToByKeyIndex')
def _(t):
    """the new record becomes the newest of its key, and its key is in the filter"""
    ex = t.ex; no, _ = t.field(RN, 'snode'); ko, _ = t.field(RN, 'key')
    for have in (None, 0, 1, 2):
        e = env(t); hashes(t, e); list_ops(t); P = t.prog; rec = t.obj('rec', t.size(REC)); kn = t.bvs('key_len', 32); t.assume(z3.And(kn != 0, z3.ULT(kn, z3.BitVecVal(1 << 30, 32)))); kd = t.obj('key_data', z3.ZeroExt(32, kn)); kvo, _ = t.field(REC, 'kv'); kk, _ = t.field(KV, 'key'); sb_make(t, 'key', kn, kd, 0, rec.add(kvo + kk)); j = t.bvs('any_byte')
        old = [t.obj('old_record_%d' % k, t.size(REC)) for k in range(have or 0)]; lst = mklist(t, old); node = t.obj('existingNode', t.size(RN)); t.set(node, RN, 'recList', lst); st0 = t.st.clone()
        def same_key(st, nd):
            q = Ptr(nd.obj, sub(nd.off, no)).add(ko); d = t.getp(st, q, SB, 'data'); return d, b_and(eq(t.get(st, q, SB, 'size'), kn, 32), implies(ult(j, zext(kn, 32, 64)), eq(ex.byte(st, d.obj, add(d.off, j)), ex.byte(st0, kd.obj, j), 8)))
        def insert(ex_, st, a, f, i):
            ex_.prove(st, a[0].obj == e.byKey.obj and a[1].obj not in (node.obj, 0), t.name + '/inserts a new element', 'requires'); d, c = same_key(st, a[1]); ex_.prove(st, c, t.name + '/under the key of the record', 'requires'); ex_.prove(st, d.obj != kd.obj, t.name + '/the index owns its copy of the key', 'requires')
            st.ghost['offered'] = a[1]
            return Outcomes([(True, lambda s: s.ghost.__setitem__('in', True) or 0)]) if have is None else Outcomes([(True, lambda s: s.ghost.__setitem__('in', False) or -1)])
        def find(ex_, st, a, f, i):
            q = Ptr(a[1].obj, sub(a[1].off, no)).add(ko); ex_.prove(st, a[0].obj == e.byKey.obj and t.getp(st, q, SB, 'data').obj == kd.obj and eq(t.get(st, q, SB, 'size'), kn, 32), t.name + '/searches the key of the record', 'requires'); st.ghost['held'] = True; return node.add(no)
        def rel(ex_, st, a, f, i): ex_.prove(st, a[0].obj == node.obj and st.ghost.get('held') is True, t.name + '/releases only what it holds', 'requires'); st.ghost['held'] = False; return 0
        P.contract('skiplist_insert_nodup', insert, True); P.contract('skiplist_find', find, True); P.contract('skiplist_release_node', rel, True)
        for nm in ('skiplist_init_node', 'skiplist_free_node'): P.contract(nm, lambda ex_, st, a, f, i: 0, True)
        def post(st, r):
            g = st.ghost; t.prove(st, g.get('held') is not True, 'the element is released')
            if g.get('in'):
                n = g['offered']; h = t.getp(st, Ptr(n.obj, sub(n.off, no)), RN, 'recList'); w = walk(t, st, h); t.prove(st, len(w) == 1 and peq(w[0], rec), 'new key: the record is its only version'); t.prove(st, bool(g.get('bloom set')) and g['hashed'][1].obj == rec.obj and eq(g['hashed'][1].off, kvo + kk) and eq(g['hashed'][2], 0, 1), 'new key: it is entered into the filter')
            else:
                w = walk(t, st, lst); t.prove(st, len(w) == len(old) + 1 and all(x.obj == y.obj for x, y in zip(w, old + [rec])), 'known key: the record becomes the newest version, the others stay')
        t.run(MT + r'::addToByKeyIndex\(.*\)', [e.mt, rec], post)
for n_ in range(6):
    def mk(n):
        @chk.task('discardRecords of %d versions' % n, bounded='%d versions of the key' % n)
        def _(t):
            ex = t.ex; ex.auto_inv = False; e = env(t); list_ops(t); recs = [t.obj('record_%d' % k, t.size(REC)) for k in range(n)]; q = t.bvs('seq_begin'); sq = [t.bvs('seq_%d' % k) for k in range(n)]
            for r, v in zip(recs, sq): t.set(r, REC, 'seqNum', v)
            lst = mklist(t, recs); node = t.obj('recNode', t.size(RN)); t.set(node, RN, 'recList', lst); out = t.obj('result', 24)
            def post(st, r):
                w = walk(t, st, lst); o = walk(t, st, out); ids = [x.obj for x in w]; oids = [x.obj for x in o]
                for rr, v in zip(recs, sq): t.prove(st, implies(z3.UGE(v, q), rr.obj in oids and rr.obj not in ids), 'a version at or above the bound is discarded'); t.prove(st, implies(z3.ULT(v, q), rr.obj in ids and rr.obj not in oids), 'a version below the bound stays')
                t.prove(st, len(w) + len(o) == n and ids == [x.obj for x in recs if x.obj in ids], 'none lost, the order is kept')
            t.run(RN + r'::discardRecords.*\(unsigned long\)', [out, node, q], post)
    mk(n_)
if __name__ == '__main__': sys.exit(chk.main())
