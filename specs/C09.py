"""C09: skip list.  A list of any length is described by what the code has looked at: a link that was not read yet stands for 'the first element of that layer
further on'; reading it yields the tail, a known element, or a fresh element somewhere between.  Elements have positions in the list; the comparison with the
searched key splits the positions at A and B (smaller: < A, equal: [A, B), greater: >= B).  The search, link and unlock loops are proved with structural
invariants over such states, layer by layer, so lists of every length and every assignment of heights are covered."""
import sys, z3
from llcv.check import Check
from llcv.exe import Fork, PathEnd
from llcv.sym import *
from .lib import *
ML = 12     # skiplist_init fixes 12 layers; no caller in Jungle changes it
chk = Check('C09', ['src/skiplist.cc'], harness='C09.cc', harness_srcs=['src/skiplist.cc'],
            assumptions=['single-threaded use: nobody else touches the list during a call, no element is locked or being modified when a call begins',
                         'the comparison function is a total order with equality (equal elements may repeat when duplicates are allowed) and does not modify the list',
                         '12 layers, the number skiplist_init sets and every caller in Jungle keeps', 'an element to insert is in no list; fewer than 2^31 elements', 'rand() returns any non-negative number'])
PW = 34
def pc(v): return z3.BitVecVal(v, PW)
class Ref:
    __slots__ = ('kind', 'l')
    def __init__(self, kind, l): self.kind = kind; self.l = l
    def __repr__(self): return '%s%d' % (self.kind, self.l)
F_ = {}
def off(t, n):
    if 'next' not in F_:
        for x in ('next', 'is_fully_linked', 'being_modified', 'removed', 'top_layer', 'ref_count', 'accessing_next'): F_[x] = t.field('_skiplist_node', x)
        F_['size'] = t.size('_skiplist_node')
    return F_[n]
def R(t):
    """layout of skiplist_raw"""
    if 'raw' not in F_:
        d = {x: t.field('skiplist_raw', x) for x in ('head', 'tail', 'cmp_func', 'aux', 'num_entries', 'layer_entries', 'top_layer', 'fanout', 'max_layer')}; d['size'] = (t.size('skiplist_raw'), 0); F_['raw'] = d
    return F_['raw']
def key(p): return (p.obj, p.off)
def peq(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isint(a.off) and isint(b.off) and a.off == b.off
def rawmem(st, oid, o, n=8):
    m = st.objs[oid].mem
    while isinstance(m, W):
        if isint(m.off) and m.off == o and m.n == n: return m.val
        if not isint(m.off) or not (m.off + m.n <= o or m.off >= o + n): return None
        m = m.parent
    return None
def setmem(st, oid, o, v, n=8):
    ob = st.obj_w(oid); ob.mem = W(ob.mem, o, n, v)
class ArrHook:
    """the next[] array of a list element"""
    def load(self, ex, st, o, p, n, want):
        if n != 8 or not isint(p.off) or p.off % 8: raise EngineError('link access')
        return nxt(ex, st, o.meta['node'], p.off // 8)
    def store(self, ex, st, o, p, n, val):
        if n != 8 or not isint(p.off) or p.off % 8: raise EngineError('link access')
        if not isinstance(val, Ptr): val = ex.int_ptr(st, val)
        X = o.meta['node']; l = p.off // 8; nxt(ex, st, X, l)
        st.ghost[('nx', key(X), l)] = val; st.ghost['writes'] = st.ghost.get('writes', ()) + ((key(X), l, val),); return True
AH = ArrHook()
class Stale:
    own_check = True
    def load(self, *a): raise EngineError('element kept across a loop')
    store = load
STALE = Stale()
class SlotHook:
    """the arrays of predecessors and successors kept while inserting or erasing"""
    def load(self, ex, st, o, p, n, want):
        if n != 8 or not isint(p.off): return None
        v = rawmem(st, o.id, p.off)
        return slot(ex, st, v) if isinstance(v, Ref) else None
    def store(self, ex, st, o, p, n, val): return None
SH = SlotHook()
def pos(st, p): return st.ghost[('pos', p.obj)]
def islist(st, p): return isinstance(p, Ptr) and isint(p.off) and ('pos', p.obj) in st.ghost and p.off == 0
def mk(ex, st, t, name, top=None, flag=0, inlist=True):
    o = ex.new_obj(st, name, off(t, 'size'), BZero(), 'node'); p = Ptr(o.id, 0); i = o.id; o.meta['align'] = 8
    tp = z3.BitVec('top_%d' % i, 8) if top is None else top; rc = z3.BitVec('ref_%d' % i, 16)
    if top is None: ex.assume(st, z3.ULT(tp, z3.BitVecVal(ML, 8)))
    a = ex.new_obj(st, name + '_next', add(mul(zext(tp, 8, 64), 8), 8) if not isint(tp) else (tp + 1) * 8, BZero(), 'malloc', hook=AH); a.meta['node'] = p
    for f, v in (('next', Ptr(a.id, 0)), ('is_fully_linked', 1), ('being_modified', flag), ('removed', 0), ('top_layer', tp), ('ref_count', rc), ('accessing_next', 0)): o.mem = W(o.mem, off(t, f)[0], off(t, f)[1], v)
    st.ghost[('pos', i)] = z3.BitVec('pos_%d' % i, PW); st.ghost[('top', i)] = tp; st.ghost[('ref', i)] = rc; st.ghost[('arr', i)] = a.id; st.ghost['nodes'] = st.ghost.get('nodes', ()) + (i,)
    ex.assume(st, z3.ULT(st.ghost[('pos', i)], pc(1 << 32)))
    return p
def get(ex, st, t, p, f): o, n = off(t, f); return ex.rdv(st, p.add(o), n)
def top_ge(st, t, p, l):
    if key(p) == t.H: return l < ML
    tp = st.ghost[('top', p.obj)]; return tp >= l if isint(tp) else simp(z3.UGE(tp, z3.BitVecVal(max(l, 0), 8)))
def after(st, t, a, b):
    """b stands after a in the list"""
    if key(a) == t.H: return key(b) != t.H
    if key(b) == t.TL: return True
    if key(b) == t.H or key(a) == t.TL: return False
    return z3.ULT(pos(st, a), pos(st, b))
def nxt(ex, st, X, l):
    g = st.ghost; t = TASK[0]; k = ('nx', key(X), l)
    if k in g: return g[k]
    if key(X) == t.H and l >= ML: raise EngineError('link beyond the layers in use')
    nm = 'n%d_%d_%d' % (X.obj, X.off, l); E = t.E
    if E is not None and g.get('E_in') and not peq(X, E):
        left = key(X) == t.H or ex.must(st, z3.ULT(pos(st, X), pos(st, E)))
        if not left: raise EngineError('link of an element beyond the known one')
        if l <= t.Etop:
            if ex.decide(st, z3.Bool(nm + '_E')): g[k] = g[('nx0',) + k[1:]] = E; return E
            N = mk(ex, st, t, 'next_' + nm); lo_hi(ex, st, t, X, N, l); ex.assume(st, z3.ULT(pos(st, N), pos(st, E))); g[k] = g[('nx0',) + k[1:]] = N; return N
        if ex.decide(st, z3.Bool(nm + '_T')): g[k] = g[('nx0',) + k[1:]] = Ptr(*t.TL); return g[k]
        N = mk(ex, st, t, 'next_' + nm); lo_hi(ex, st, t, X, N, l); ex.assume(st, pos(st, N) != pos(st, E)); g[k] = g[('nx0',) + k[1:]] = N; return N
    if ex.decide(st, z3.Bool(nm + '_T')): g[k] = g[('nx0',) + k[1:]] = Ptr(*t.TL); return g[k]
    N = mk(ex, st, t, 'next_' + nm); lo_hi(ex, st, t, X, N, l); g[k] = g[('nx0',) + k[1:]] = N; return N
def lo_hi(ex, st, t, X, N, l):
    if key(X) != t.H: ex.assume(st, z3.ULT(pos(st, X), pos(st, N)))
    ex.assume(st, top_ge(st, t, N, l))
TASK = [None]
# ---------------------------------------------------------------- starting state
def make(t, E=None, Ein=True, bounds=True):
    """a well-formed list; E: concrete height of a known element of it (or None)"""
    TASK[0] = t; ex, st = t.ex, t.st; r = R(t); ex.auto_inv = False; ex.unroll = 64; t.E = None
    S = ex.new_obj(st, 'slist', r['size'][0], BZero(), 'input'); t.S = S.id; t.H = (S.id, r['head'][0]); t.TL = (S.id, r['tail'][0]); st.ghost['aux'] = ex.new_obj(st, 'aux', 16).id
    for nm, k in (('head', t.H), ('tail', t.TL)):
        a = ex.new_obj(st, nm + '_next', (ML + 1) * 8, BZero(), 'malloc', hook=AH); a.meta['node'] = Ptr(*k); st.ghost[('arr', k)] = a.id
        for f, v in (('next', Ptr(a.id, 0)), ('is_fully_linked', 1), ('being_modified', 0), ('removed', 0), ('top_layer', ML), ('ref_count', z3.BitVec('ref_' + nm, 16)), ('accessing_next', 0)): setmem(st, S.id, k[1] + off(t, f)[0], v, off(t, f)[1])
    le = ex.new_obj(st, 'layer_entries', 4 * ML, BZero(), 'malloc'); t.le = le.id; t.cnt = [z3.BitVec('entries_%d' % i, 32) for i in range(ML)]; t.n = z3.BitVec('num_entries', 32); t.top = z3.BitVec('list_top', 8)
    for i in range(ML): setmem(st, le.id, 4 * i, t.cnt[i], 4)
    def cmp_(ex, st, a, f, i):
        t.prove(st, a[2].obj == st.ghost['aux'] and a[2].off == 0, 'the comparison gets the aux pointer')
        rr = z3.BitVec('cmp_%d_%d' % (a[0].obj, a[1].obj), 32); x, y = a[0], a[1]
        q = t.query
        for p in (x, y):
            if not peq(p, q) and not islist(st, p): raise EngineError('comparison of something that is not an element')
        if peq(y, q) and not peq(x, q): ex.assume(st, z3.And((rr < 0) == z3.ULT(pos(st, x), t.A), (rr == 0) == z3.And(z3.UGE(pos(st, x), t.A), z3.ULT(pos(st, x), t.B)))); return rr
        if peq(x, q): ex.assume(st, z3.And((rr > 0) == z3.ULT(pos(st, y), t.A), (rr == 0) == z3.And(z3.UGE(pos(st, y), t.A), z3.ULT(pos(st, y), t.B)))); return rr
        ex.assume(st, z3.Implies(z3.ULT(pos(st, x), pos(st, y)), rr <= 0)); ex.assume(st, z3.Implies(z3.ULT(pos(st, y), pos(st, x)), rr >= 0)); return rr
    t.prog.virt[('sl', 'cmp')] = cmp_
    for f, v in (('cmp_func', FnPtr('cmp', ('sl', 'cmp'))), ('aux', Ptr(st.ghost['aux'], 0)), ('num_entries', t.n), ('layer_entries', Ptr(le.id, 0)), ('top_layer', t.top), ('fanout', 4), ('max_layer', ML)): setmem(st, S.id, r[f][0], v, r[f][1])
    t.assume(z3.ULT(t.top, z3.BitVecVal(ML, 8)))
    for i in range(ML): t.assume(z3.Implies(t.cnt[i] != 0, z3.UGE(t.top, z3.BitVecVal(i, 8)))); t.assume(z3.ULT(t.cnt[i], z3.BitVecVal(1 << 31, 32)))
    t.assume(z3.ULT(t.n, z3.BitVecVal(1 << 31, 32)))
    t.A, t.B = z3.BitVec('A', PW), z3.BitVec('B', PW); t.assume(z3.And(z3.ULE(t.A, t.B), z3.ULE(t.B, pc(1 << 32))))
    t.query = None; t.sl = Ptr(S.id, 0); t.slots = (); t.keep = set(); t.once = set(); t.mode = 'find'; t.nodup = False
    if E is not None:
        t.Etop = E; t.E = mk(ex, st, t, 'element', E); st.ghost['E_in'] = Ein; t.keep.add(t.E.obj); t.query = t.E
        t.assume(z3.And(z3.ULE(t.A, pos(st, t.E)), z3.ULT(pos(st, t.E), t.B))) if Ein else None
        if Ein: t.assume(z3.And(t.cnt[E] != 0, t.n != 0))
    t.prog.contract(r'std::this_thread::yield\(\)|sched_yield', lambda ex, st, a, f, i: 0)
    return t.sl
def sentinels(t, ex, st, nm, hflag=0, tail=True):
    for k, fl in ((t.H, hflag), (t.TL, 0)):
        p = Ptr(*k)
        for f, v, w in (('is_fully_linked', 1, 8), ('being_modified', fl, 8), ('removed', 0, 8), ('top_layer', ML, 8), ('accessing_next', 0, 32)): t.prove(st, eq(get(ex, st, t, p, f), v, w), nm + ': sentinel ' + f)
        t.prove(st, peq(ex.rdp(st, p.add(off(t, 'next')[0])), Ptr(st.ghost[('arr', k)], 0)), nm + ': sentinel links in place')
def counters(t, ex, st, nm, dn=0, layer=None):
    r = R(t); S = Ptr(t.S, 0)
    t.prove(st, eq(ex.rdv(st, S.add(r['num_entries'][0]), 4), add(t.n, dn, 32), 32), nm + ': number of entries')
    c1 = [ex.rdv(st, Ptr(t.le, 4 * i), 4) for i in range(ML)]
    for i in range(ML): t.prove(st, eq(c1[i], add(t.cnt[i], dn if i == layer else 0, 32), 32), nm + ': entries per layer')
    tp = ex.rdv(st, S.add(r['top_layer'][0]), 1)
    t.prove(st, ult(tp, ML, 8), nm + ': top layer in range'); t.prove(st, z3.And(*[z3.Implies(bv(c1[i], 32) != 0, z3.UGE(bv(tp, 8), z3.BitVecVal(i, 8))) for i in range(ML)]), nm + ': top layer covers every element')
    if layer is None: t.prove(st, eq(tp, t.top, 8), nm + ': top layer')
    for f, v in (('aux', Ptr(st.ghost['aux'], 0)), ('layer_entries', Ptr(t.le, 0))): t.prove(st, peq(ex.rdp(st, S.add(r[f][0])), v), nm + ': ' + f)
    for f, v in (('fanout', 4), ('max_layer', ML)): t.prove(st, eq(ex.rdv(st, S.add(r[f][0]), 1), v, 8), nm + ': ' + f)
    t.prove(st, isinstance(ex.rdp(st, S.add(r['cmp_func'][0])), FnPtr), nm + ': cmp_func')
def elem(t, ex, st, p, nm, flag=0, ref=0, linked=1, removed=0):
    g = st.ghost
    for f, v, w in (('is_fully_linked', linked, 8), ('being_modified', flag, 8), ('removed', removed, 8), ('top_layer', g[('top', p.obj)], 8), ('accessing_next', 0, 32), ('ref_count', add(g[('ref', p.obj)], ref & 0xffff, 16), 16)):
        t.prove(st, eq(get(ex, st, t, p, f), v, w), nm + ': ' + f)
    t.prove(st, peq(ex.rdp(st, p.add(off(t, 'next')[0])), Ptr(g[('arr', p.obj)], 0)), nm + ': links in place'); t.prove(st, st.objs[p.obj].alive and st.objs[g[('arr', p.obj)]].alive, nm + ': not freed')
def live(st, t):
    return [Ptr(i, 0) for i in st.ghost.get('nodes', ()) if st.objs[i].hook is not STALE]
def untouched(t, ex, st, nm, ref=None, hflag=0, links=True, skip=()):
    """nothing changed except a reference held on `ref`"""
    sentinels(t, ex, st, nm, hflag); counters(t, ex, st, nm)
    for p in live(st, t):
        if p.obj not in skip: elem(t, ex, st, p, nm, ref=1 if ref is not None and peq(p, ref) else 0)
    if links: t.prove(st, not st.ghost.get('writes'), nm + ': no link written')
# ---------------------------------------------------------------- loops
def shape_(ok, what):
    """the invariant is written for loops of this direction; another direction is left to the harness"""
    if not ok: raise EngineError('loop attachment: ' + what)
class Loop:
    def __init__(self, check, generic): self.check = check; self.generic = generic
def drop(t, st, keep=()):
    for i in st.ghost.get('nodes', ()):
        if i not in t.keep and i not in keep: st.obj_w(i).hook = STALE; st.obj_w(st.ghost[('arr', i)]).hook = STALE
    for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] in ('nx', 'nx0')]: del st.ghost[k]
    for k in [k for k in st.ghost if isinstance(k, tuple) and k[0] == 'mat']: del st.ghost[k]
    st.ghost['writes'] = ()
def phivals(ex, st, f, h):
    blk = f.fn.blocks[h]; names = [i.dst for i in blk if i.op == 'phi']; s2 = st.clone(); ex.do_phis(s2, s2.frames[-1]); return names, {n: s2.frames[-1].env[n] for n in names}, {i.dst: i.a[0] for i in blk if i.op == 'phi'}
def isnode(st, t, v): return isinstance(v, Ptr) and isint(v.off) and (key(v) in (t.H, t.TL) or islist(st, v))
def junk(ex, ty, n): return Ptr(0, 0xdead) if ty[0] == 'ptr' or ty == 'ptr' else ex.fresh('dead', ty[1])
def c32(v): return sx(v, 32) if isint(v) else v
def setref(ex, st, t, p, d):
    o, n = off(t, 'ref_count')
    if key(p) in (t.H, t.TL): return
    setmem(st, p.obj, o, add(st.ghost[('ref', p.obj)], d & 0xffff, 16), n)
def snapshot(t, ex, st):
    """everything that loops over the list must leave alone: counters, the element being inserted or erased"""
    r = R(t); S = Ptr(t.S, 0); d = {}
    for f in ('num_entries', 'top_layer', 'fanout', 'max_layer'): d['list ' + f] = ex.rdv(st, S.add(r[f][0]), r[f][1])
    for f in ('cmp_func', 'aux', 'layer_entries'): d['list ' + f] = ex.rdp(st, S.add(r[f][0]))
    for i in range(ML): d['entries of layer %d' % i] = ex.rdv(st, Ptr(t.le, 4 * i), 4)
    for nm, p in (('element', t.E), ('new element', t.node)):
        if p is not None:
            for f in ('is_fully_linked', 'being_modified', 'removed', 'top_layer', 'ref_count', 'accessing_next'): d[nm + ' ' + f] = get(ex, st, t, p, f)
            d[nm + ' next'] = ex.rdp(st, p.add(off(t, 'next')[0]))
    return d
def same_val(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr): return peq(a, b)
    if isinstance(a, FnPtr) or isinstance(b, FnPtr): return isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.virt == b.virt
    if isint(a) and isint(b): return a == b
    w = a.size() if not isint(a) else b.size(); return eq(a, b, w)
def frame(t, ex, st, nm, ref=None):
    a = st.ghost['frame']; b = snapshot(t, ex, st)
    for k in a: t.prove(st, same_val(a[k], b[k]), nm + ': ' + k + ' unchanged')
def fp(d): return tuple(sorted((k, ('p', v.obj if v.obj < 40 else 0, str(v.off)) if isinstance(v, Ptr) else ('f', str(v.virt)) if isinstance(v, FnPtr) else v if isint(v) else ('z', v.hash(), str(v))) for k, v in d.items()))
def slots_of(st, hook=False):
    """the two local arrays of 64 element pointers: predecessors, successors"""
    for fr in st.frames:
        l = [a for a in fr.allocas if st.objs[a].size == 512]
        if len(l) == 2:
            if hook:
                for a in l: st.obj_w(a).hook = SH
            return l
    return None
def narr(t, ex, st): return ex.rdp(st, t.node.add(off(t, 'next')[0])).obj
def before(t, st, p):
    if key(p) == t.H: return True
    if key(p) == t.TL: return False
    return z3.ULT(pos(st, p), pos(st, t.E) if t.mode == 'erase' else t.A)
def at(t, ex, st, kind, l):
    """current content of a slot: a pointer, or the reference it was given in the generic state"""
    sl = slots_of(st); v = rawmem(st, sl[0 if kind == 'P' else 1], 8 * l) if kind != 'X' else rawmem(st, narr(t, ex, st), 8 * l)
    if isinstance(v, Ref):
        if v.l != l or v.kind != ('P' if kind == 'P' else 'N'): return None
        return st.ghost.get(('mat', v.kind, l), v)
    return v if v is None or isinstance(v, Ptr) else ex.int_ptr(st, v)      # an atomic store writes the address as an integer
def places(t, ex, st, nm, filled):
    """the recorded predecessor and successor of every passed layer are right; returns the predecessors known"""
    g = st.ghost; flagged = {}; T = t.t
    for l in filled:
        P, N = at(t, ex, st, 'P', l), at(t, ex, st, 'N', l); X = at(t, ex, st, 'X', l) if t.mode == 'insert' else None
        raws = [rawmem(st, slots_of(st)[0], 8 * l), rawmem(st, slots_of(st)[1], 8 * l)] + ([rawmem(st, narr(t, ex, st), 8 * l)] if t.mode == 'insert' else [])
        if all(isinstance(v, Ref) for v in raws) and None not in (P, N) and (t.mode != 'insert' or X is not None):
            if isinstance(P, Ptr): flagged[key(P)] = P
            continue
        nl = nm + ': recorded place'
        if not (isinstance(P, Ptr) and isinstance(N, Ptr) and isnode(st, t, P) and isnode(st, t, N)) or key(P) == t.TL or key(N) == t.H: t.prove(st, False, nl); raise PathEnd()
        flagged[key(P)] = P
        t.prove(st, top_ge(st, t, P, l), nl + ': predecessor is in the layer'); t.prove(st, before(t, st, P), nl + ': predecessor stands before')
        if t.mode == 'insert':
            t.prove(st, peq(g.get(('nx', key(P), l)), N), nl + ': successor follows the predecessor'); t.prove(st, peq(X, N), nl + ': the new element points to the successor'); t.prove(st, key(N) == t.TL or z3.UGE(pos(st, N), t.A), nl + ': successor is not smaller')
        else:
            t.prove(st, peq(g.get(('nx', key(P), l)), t.E), nl + ': the element follows the predecessor'); t.prove(st, peq(g.get(('nx', key(t.E), l)), N), nl + ': successor follows the element')
        if l + 1 <= T:
            Q = at(t, ex, st, 'P', l + 1)
            t.prove(st, isinstance(Q, Ptr) and isnode(st, t, Q) and (peq(P, Q) or after(st, t, Q, P)), nl + ': not before the upper predecessor')
    return flagged
def unlinked(t, st): return {t.node.obj} if t.node is not None else set()
def elems(t, ex, st, nm, flagged, C):
    for p in live(st, t):
        if t.E is not None and peq(p, t.E) and (t.mode == 'erase' or not st.ghost.get('E_in')): continue       # part of the frame
        elem(t, ex, st, p, nm, flag=1 if key(p) in flagged else 0, ref=1 if C is not None and peq(p, C) else 0)
def setflag(t, st, p, v): setmem(st, p.obj, p.off + off(t, 'being_modified')[0], v, 1)
def search_loop(t):
    """going right and down from the head: cur stands before the searched place; in the layers already passed the place is recorded (insert, erase)"""
    def shape(ex, st, f, h):
        if st.ghost.get('phase'): return None
        names, vals, tys = phivals(ex, st, f, h)
        cur = [n for n in names if isinstance(vals[n], Ptr) and isnode(st, t, vals[n])]
        if len(cur) > 1 and st.ghost.get('cur_phi') is None: cur = [n for n in cur if key(vals[n]) == t.H]
        if len(cur) != 1: return None
        cn = cur[0]; ints = [n for n in names if not isinstance(vals[n], (Ptr, FnPtr)) and tys[n] == ('i', 32)]
        old = st.ghost.get('layer_phi'); lay = []
        for n in ints:
            v = vals[n]
            if isint(v): ok = -1 <= c32(v) < ML
            else: ok = ex.must(st, z3.And(v <= ML - 1, v >= -1))
            if ok: lay.append(n)
        if len(lay) > 1: lay = [n for n in lay if n == old] or [n for n in lay if not isint(vals[n])]
        if len(lay) == 1 and (old is None or lay[0] == old or old not in f.env): ln = lay[0]; st.ghost['layer_phi'] = ln
        elif old is not None and old in f.env: ln = old
        else: return None
        fixed = None if ln in names else c32(f.env[ln])
        if fixed is not None and not isint(fixed): return None
        rest = [n for n in names if n != cn and n != ln]
        def check(ex, st, f, vals, when):
            g = st.ghost; C = vals[cn]; c = vals[ln] if ln in vals else f.env[ln]; c = c32(c) if isint(c) else c; nm = 'search, ' + when; T = t.t
            if not isint(c):
                t.prove(st, z3.And(c >= 0, c < ML), nm + ': layer in range')
                if T is not None: t.prove(st, c >= T, nm + ': starts at or above the height of the element')
                t.prove(st, 'layer' not in g, nm + ': layer known'); filled = ()
            else:
                t.prove(st, -1 <= c < ML if t.mode == 'erase' else 0 <= c < ML, nm + ': layer in range')
                filled = range(c + 1, T + 1) if T is not None else ()
            ok = isnode(st, t, C) and key(C) != t.TL
            t.prove(st, ok, nm + ': cur is an element or the head')
            if not ok: raise PathEnd()
            if isint(c): t.prove(st, top_ge(st, t, C, c), nm + ': cur is in this layer')
            else: t.prove(st, key(C) == t.H, nm + ': starts at the head')
            t.prove(st, before(t, st, C), nm + ': cur stands before the place'); t.prove(st, not g.get('writes'), nm + ': no link written')
            if when == 'preserved': frame(t, ex, st, nm)
            flagged = places(t, ex, st, nm, filled)
            if filled:
                Q = at(t, ex, st, 'P', filled[0])
                t.prove(st, isinstance(Q, Ptr) and (peq(C, Q) if c == -1 else peq(C, Q) or after(st, t, Q, C)), nm + ': cur not before the recorded predecessor')
            sentinels(t, ex, st, nm, 1 if t.H in flagged else g.get('hflag', 0)); elems(t, ex, st, nm, flagged, C)
        def generic(c, kind):
            def alt(ex, st, f):
                g = st.ghost; T = t.t; k = ('s', h, c, kind, fp(snapshot(t, ex, st)))
                if k in t.once: raise PathEnd()
                drop(t, st); g['layer_phi'] = ln; g['cur_phi'] = cn; g['layer'] = c; g['frame'] = snapshot(t, ex, st)
                g['hflag'] = 0; setflag(t, st, Ptr(*t.H), 0); Q = None
                if T is not None and c < T:
                    sl = slots_of(st, True)
                    if sl is None: raise EngineError('the arrays of recorded places were not found')
                    for l in range(c + 1, T + 1):
                        setmem(st, sl[0], 8 * l, Ref('P', l)); setmem(st, sl[1], 8 * l, Ref('N', l))
                        if t.mode == 'insert': setmem(st, narr(t, ex, st), 8 * l, Ref('N', l))
                    l = c + 1
                    if kind[0] == 'h': Q = Ptr(*t.H); hf = 1
                    else:
                        Q = mk(ex, st, t, 'recorded', flag=1); ex.assume(st, top_ge(st, t, Q, l)); ex.assume(st, before(t, st, Q)); hf = 0 if l == T else z3.BitVec('head_flag', 8)
                        if l != T: ex.assume(st, z3.ULE(hf, z3.BitVecVal(1, 8)))
                    setflag(t, st, Ptr(*t.H), hf); g['hflag'] = hf; g[('mat', 'P', l)] = Q
                if kind[-1] == '=': C = Q if Q is not None else Ptr(*t.H)
                else:
                    C = mk(ex, st, t, 'cur'); ex.assume(st, top_ge(st, t, C, max(c, 0))); ex.assume(st, before(t, st, C))
                    if Q is not None and key(Q) != t.H: ex.assume(st, z3.ULT(pos(st, Q), pos(st, C)))
                setref(ex, st, t, C, 1); g['C'] = C; g['Q'] = Q
                t.once.add(k)
                out = {cn: C, **{r: junk(ex, tys[r], r) for r in rest}}
                if ln in names: out[ln] = c & 0xffffffff
                return out
            return alt
        alts = []
        for c in ([fixed] if fixed is not None else range(-1 if t.mode == 'erase' else 0, ML)):
            ks = ('h=', 'h>', 'n=', 'n>') if t.t is not None and c < t.t else ('=', '>')
            if c == -1: ks = ('h=', 'n=')
            alts += [generic(c, k) for k in ks]
        return Loop(check, alts)
    return shape
def in_clear(st, f):
    sl = slots_of(st)
    return sl is not None and sl[0] not in f.allocas and any(isinstance(v, Ptr) and v.obj == sl[0] for v in f.env.values())
def link_loop(t):
    """bottom-up over the layers: the recorded predecessor is redirected"""
    T = t.t
    def shape(ex, st, f, h):
        g = st.ghost; sl = slots_of(st)
        if g.get('phase') or sl is None or sl[0] not in f.allocas or 'layer' not in g: return None
        names, vals, tys = phivals(ex, st, f, h)
        if any(not isinstance(at(t, ex, st, k, l), (Ptr, Ref)) for l in range(T + 1) for k in ('PNX' if t.mode == 'insert' else 'PN')): return None
        ints = [n for n in names if tys[n] == ('i', 32)]
        if len(ints) != 1 or c32(vals[ints[0]]) != 0: return None
        ln = ints[0]; rest = [n for n in names if n != ln]
        def check(ex, st, f, vals, when):
            g = st.ghost; l = c32(vals[ln]); nm = 'linking, ' + when
            t.prove(st, isint(l), nm + ': layer known'); C = g['C']
            if not isint(l): raise PathEnd()
            if when == 'init':
                t.prove(st, l == 0, nm + ': from the bottom'); flagged = places(t, ex, st, nm, range(T + 1)); t.prove(st, peq(C, at(t, ex, st, 'P', 0)), nm + ': cur is the lowest predecessor'); N0 = at(t, ex, st, 'N', 0); t.prove(st, not t.nodup or isinstance(N0, Ptr) and (key(N0) == t.TL or z3.UGE(pos(st, N0), t.B)), nm + ': no element is equal'); t.prove(st, not g.get('writes'), nm + ': nothing linked before')
                hf = 1 if t.H in flagged else g.get('hflag', 0)
            else:
                shape_(l == g['link'] + 1, 'layers are linked bottom-up'); frame(t, ex, st, nm); l0 = g['link']
                P, N = at(t, ex, st, 'P', l0), at(t, ex, st, 'N', l0); w = g.get('writes', ())
                ok = isinstance(P, Ptr) and isinstance(N, Ptr) and len(w) == 1 and w[0][0] == key(P) and w[0][1] == l0 and peq(w[0][2], t.node if t.mode == 'insert' else N)
                t.prove(st, ok, nm + ': exactly the recorded predecessor is redirected, in this layer')
                flagged = {key(v): v for v in [at(t, ex, st, 'P', j) for j in range(T + 1)] if isinstance(v, Ptr)}; flagged[key(C)] = C; hf = g['hflag']
                for j in range(T + 1):
                    for k in ('PNX' if t.mode == 'insert' else 'PN'): t.prove(st, isinstance(at(t, ex, st, k, j), (Ref, Ptr)) and isinstance(rawmem(st, sl2(st, k), 8 * j), Ref), nm + ': recorded places kept')
            sentinels(t, ex, st, nm, hf); elems(t, ex, st, nm, flagged, C)
        def sl2(st, k): return slots_of(st)[0] if k == 'P' else slots_of(st)[1] if k == 'N' else narr(t, ex, st)
        def generic(l):
            def alt(ex, st, f):
                g = st.ghost; C = g['C']; k = ('l', h, l, key(C) == t.H, fp(snapshot(t, ex, st)))
                if k in t.once: raise PathEnd()
                drop(t, st, {C.obj}); g['phase'] = 'link'; g['link'] = l; g['frame'] = snapshot(t, ex, st); sl = slots_of(st, True)
                for j in range(T + 1):
                    setmem(st, sl[0], 8 * j, Ref('P', j)); setmem(st, sl[1], 8 * j, Ref('N', j))
                    if t.mode == 'insert': setmem(st, narr(t, ex, st), 8 * j, Ref('N', j))
                if key(C) == t.H: hf = 1
                else: hf = z3.BitVec('head_flag_l', 8); ex.assume(st, z3.ULE(hf, z3.BitVecVal(1, 8))); setflag(t, st, C, 1)
                setflag(t, st, Ptr(*t.H), hf); g['hflag'] = hf; t.once.add(k)
                return {ln: l, **{r: junk(ex, tys[r], r) for r in rest}}
            return alt
        return Loop(check, [generic(l) for l in range(T + 2)])
    return shape
def clear_loop(t):
    """the modification marks of the recorded predecessors are taken back, each once"""
    T = t.t
    def shape(ex, st, f, h):
        g = st.ghost
        if not in_clear(st, f): return None
        names, vals, tys = phivals(ex, st, f, h); ints = [n for n in names if tys[n] == ('i', 32)]
        if len(ints) != 1: return None
        ln = ints[0]; rest = [n for n in names if n != ln]; s0 = c32(vals[ln])
        if not isint(s0) or s0 > T: return None
        def check(ex, st, f, vals, when):
            g = st.ghost; l = c32(vals[ln]); nm = 'releasing marks, ' + when; C = g['C']
            if when == 'init':
                if g.get('phase') != 'link' and t.mode == 'insert': g['equal'] = an_equal(t, ex, st)
                if g.get('phase') == 'link': t.prove(st, g['link'] == T + 1 and not g.get('writes'), nm + ': every layer was linked'); shape_(l == 0, 'marks are released bottom-up'); flagged = {key(C): C}; hf = g['hflag']
                else:
                    shape_(l == g['layer'] + 1, 'marks are released from the lowest recorded layer up'); flagged = places(t, ex, st, nm, range(l, T + 1)); t.prove(st, not g.get('writes'), nm + ': nothing linked'); hf = 1 if t.H in flagged else g.get('hflag', 0)
            else:
                l0 = g['clear']; shape_(isint(l) and l == l0 + 1, 'marks are released bottom-up'); frame(t, ex, st, nm)
                if l <= T:
                    P = at(t, ex, st, 'P', l)
                    if not isinstance(P, Ptr): raise EngineError('upper predecessor not looked at')
                    flagged = {key(P): P}; hf = 1 if key(P) == t.H else g['hflag']
                else: flagged = {}; hf = 0
            sentinels(t, ex, st, nm, hf); elems(t, ex, st, nm, flagged, C)
        linked = g.get('phase') == 'link'; C0 = g['C']; Cin = linked or (g.get('Q') is not None and peq(C0, g['Q']))
        def generic(l, kind):
            def alt(ex, st, f):
                g = st.ghost; C = g['C']; k = ('c', h, l, kind, s0, linked, Cin, key(C) == t.H, fp(snapshot(t, ex, st)))
                if k in t.once: raise PathEnd()
                drop(t, st, {C.obj}); g['phase'] = 'clear'; g['clear'] = l; g['frame'] = snapshot(t, ex, st); sl = slots_of(st, True)
                for j in range(s0, T + 1): setmem(st, sl[0], 8 * j, Ref('P', j)); setmem(st, sl[1], 8 * j, Ref('N', j))
                if key(C) != t.H: setflag(t, st, C, 0)
                hf = 0
                if l <= T:
                    if kind == 'C': P = C; ex.assume(st, top_ge(st, t, C, l))
                    elif kind == 'h': P = Ptr(*t.H)
                    else:
                        P = mk(ex, st, t, 'recorded'); ex.assume(st, top_ge(st, t, P, l)); ex.assume(st, z3.ULT(pos(st, P), pos(st, C)))
                    if key(P) == t.H: hf = 1
                    else:
                        setflag(t, st, P, 1)
                        if l < T: hf = z3.BitVec('head_flag_c', 8); ex.assume(st, z3.ULE(hf, z3.BitVecVal(1, 8)))
                    g[('mat', 'P', l)] = P
                setflag(t, st, Ptr(*t.H), hf); g['hflag'] = hf; t.once.add(k)
                return {ln: l, **{r: junk(ex, tys[r], r) for r in rest}}
            return alt
        ch = key(C0) == t.H; alts = []
        for l in range(s0, T + 1):
            if ch: ks = ('h',)
            elif l == s0: ks = ('C',) if Cin else ('h', 'n')
            else: ks = ('C', 'h', 'n') if Cin else ('h', 'n')
            alts += [generic(l, k) for k in ks]
        return Loop(check, alts + [generic(T + 1, '-')])
    return shape
def slot(ex, st, v):
    t = TASK[0]; g = st.ghost; T = t.t; m = g.get(('mat', v.kind, v.l))
    if m is not None: return m
    ph = g.get('phase'); l = v.l; C = g.get('C')
    if v.kind == 'N' and ph == 'link':
        if t.mode == 'erase': N = nxt(ex, st, t.E, l)
        elif ex.decide(st, z3.Bool('N%d_T' % l)): N = Ptr(*t.TL)
        else: N = mk(ex, st, t, 'successor'); ex.assume(st, z3.UGE(pos(st, N), t.A)); ex.assume(st, top_ge(st, t, N, l))
        g[('mat', 'N', l)] = N; return N
    if v.kind != 'P' or ph not in ('link', 'clear'): raise EngineError('slot of layer %d read' % l)
    if ph == 'link':
        N = slot(ex, st, Ref('N', l)) if t.mode == 'insert' else t.E      # decisions first: they re-execute the instruction
        if key(C) == t.H or l == 0: P = C
        elif ex.decide(st, z3.Bool('P%d_C' % l)): P = C; ex.assume(st, top_ge(st, t, C, l))
        elif ex.decide(st, z3.Bool('P%d_H' % l)): P = Ptr(*t.H); ex.assume(st, bv(g['hflag'], 8) == 1)
        else: P = mk(ex, st, t, 'predecessor', flag=1); ex.assume(st, top_ge(st, t, P, l)); ex.assume(st, z3.ULT(pos(st, P), pos(st, C)))
        if key(P) != t.H: ex.assume(st, before(t, st, P))
        g[('nx', key(P), l)] = N; g[('mat', 'P', l)] = P; return P
    D = g.get(('mat', 'P', l - 1))
    if D is None: raise EngineError('slot of layer %d read' % l)
    hf = g['hflag']
    if key(D) == t.H: P = D
    elif ex.decide(st, z3.Bool('P%d_same' % l)): P = D; ex.assume(st, top_ge(st, t, D, l))
    elif ex.decide(st, z3.Bool('P%d_H' % l)): P = Ptr(*t.H); ex.assume(st, bv(hf, 8) == 1)
    else: P = mk(ex, st, t, 'predecessor', flag=1); ex.assume(st, top_ge(st, t, P, l)); ex.assume(st, z3.ULT(pos(st, P), pos(st, D)))
    if key(P) != t.H and l == T: ex.assume(st, bv(hf, 8) == 0)
    g[('mat', 'P', l)] = P; return P
def loops(t, *shapes):
    def sel(ex, st, f, h):
        for s in shapes:
            r = s(ex, st, f, h)
            if r is not None: return r
        return None
    t.ex.shape = sel
# ---------------------------------------------------------------- searching
def found(t, ex, st, r, nm, ref=True):
    t.prove(st, islist(st, r), nm); 
    return islist(st, r)
def find_task(fn, mode, cov):
    """mode 0: equal; -1: equal or last smaller; 1: equal or first greater"""
    @chk.task(fn, covers=cov)
    def _(t):
        ex, st = t.ex, t.st; sl = make(t); t.node = None; t.t = None; q = ex.new_obj(st, 'query', off(t, 'size'), BZero(), 'input'); t.query = Ptr(q.id, 0); loops(t, search_loop(t))
        def post(st, r):
            untouched(t, ex, st, 'after', ref=r); neighbour(t, ex, st, r, mode)
        t.run(fn, [sl, t.query], post)
def neighbour(t, ex, st, r, mode):
    """r is the answer demanded by the order; the place is known from the last element looked at in the bottom layer"""
    g = st.ghost; gap = bottom_gap(t, st)
    if r.obj and islist(st, r) and ex.must(st, z3.And(z3.UGE(pos(st, r), t.A), z3.ULT(pos(st, r), t.B))): t.prove(st, mode in (-1, 0, 1), 'an equal element'); t.cover('equal'); return
    t.prove(st, gap is not None, 'otherwise the bottom layer was searched')
    if gap is None: return
    a, b = gap; t.prove(st, before(t, st, a), 'everything up to here is smaller'); t.prove(st, key(b) == t.TL or z3.UGE(pos(st, b), t.A), 'everything from here on is not smaller')
    noeq = key(b) == t.TL or z3.UGE(pos(st, b), t.B)
    if mode in (0,): t.prove(st, r.obj == 0 and r.off == 0, 'null'); t.prove(st, noeq, 'null only if no element is equal'); t.cover('none'); return
    if mode < 0:
        if key(a) == t.H: t.prove(st, r.obj == 0, 'null: nothing is smaller')
        else: t.prove(st, peq(r, a), 'the last smaller element')
        if mode == -1: t.prove(st, noeq, 'no element is equal')
        t.cover('smaller'); return
    if key(b) == t.TL: t.prove(st, r.obj == 0, 'null: nothing is greater')
    else: t.prove(st, peq(r, b), 'the first greater element')
    t.cover('greater')
def bottom_gap(t, st):
    g = st.ghost; C = g.get('C'); n = g.get(('nx', key(C), 0)) if C is not None else None
    return (C, n) if n is not None else None
for _f, _m, _c in (('skiplist_find', 0, ('equal', 'none')), ('skiplist_find_smaller_or_equal', -1, ('equal', 'smaller')), ('skiplist_find_greater_or_equal', 1, ('equal', 'greater'))): find_task(_f, _m, _c)

# ---------------------------------------------------------------- inserting
def nodestate(t, ex, st, nm, linked, removed, top, arr=None):
    p = t.node
    for f, v, w in (('is_fully_linked', linked, 8), ('being_modified', 0, 8), ('removed', removed, 8), ('top_layer', top, 8), ('accessing_next', 0, 32), ('ref_count', t.nref, 16)): t.prove(st, eq(get(ex, st, t, p, f), v, w), nm + ': ' + f)
    a = ex.rdp(st, p.add(off(t, 'next')[0])); t.prove(st, isinstance(a, Ptr) and a.obj != 0 and st.objs[a.obj].alive and (st.objs[a.obj].size >= 8 * (t.t + 1) if isint(st.objs[a.obj].size) else ex.must(st, z3.UGE(st.objs[a.obj].size, z3.BitVecVal(8 * (t.t + 1), 64)))), nm + ': links for every layer of its height')
def an_equal(t, ex, st): return any(ex.must(st, z3.And(z3.UGE(pos(st, p), t.A), z3.ULT(pos(st, p), t.B))) for p in live(st, t))
def insert_task(fn, T, reused):
    @chk.task('%s: height %d%s' % (fn, T, ('', ', element used before', ', element used before with this height')[reused]), covers=('inserted',) + (('refused',) if 'nodup' in fn else ()))
    def _(t):
        ex, st = t.ex, t.st; sl = make(t); t.t = T; t.mode = 'insert'; nodup = t.nodup = 'nodup' in fn
        n = ex.new_obj(st, 'element', off(t, 'size'), BZero(), 'node'); n.meta['align'] = 8; t.node = t.query = Ptr(n.id, 0); t.nref = z3.BitVec('ref_new', 16)
        if reused:
            old = T if reused == 2 else z3.BitVec('old_height', 8); rm = z3.BitVec('was_removed', 8); t.assume(z3.ULE(rm, z3.BitVecVal(1, 8)))
            if reused == 1: t.assume(z3.And(z3.ULT(old, z3.BitVecVal(ML, 8)), old != T))
            arr = ex.new_obj(st, 'old_links', 8 * (T + 1) if reused == 2 else add(mul(zext(old, 8, 64), 8), 8), None, 'malloc'); nx = Ptr(arr.id, 0)
        else: old, rm, nx = 0, 0, Ptr(0, 0)
        for f, v in (('next', nx), ('is_fully_linked', 0), ('being_modified', 0), ('removed', rm), ('top_layer', old), ('ref_count', t.nref), ('accessing_next', 0)): setmem(st, n.id, off(t, f)[0], v, off(t, f)[1])
        t.prog.contract(r'_sl_decide_top_layer\(.*', lambda ex, st, a, f, i: (t.prove(st, peq(a[0], sl), 'the height is drawn for this list'), T)[1])
        loops(t, search_loop(t), link_loop(t), clear_loop(t))
        def post(st, r):
            g = st.ghost; C = g.get('C')
            if nodup and isint(r) and c32(r) == -1:
                t.prove(st, g.get('equal') or an_equal(t, ex, st), 'refused: an equal element exists'); t.prove(st, 'link' not in g, 'refused: nothing linked')
                nodestate(t, ex, st, 'refused', 0, 0, T); untouched(t, ex, st, 'refused'); t.cover('refused'); return
            t.prove(st, isint(r) and c32(r) == 0, 'success'); ok = g.get('phase') == 'clear' and g['clear'] == T + 1 and g.get('link') == T + 1
            t.prove(st, ok, 'the element is linked in every layer of its height and the marks are released')
            nodestate(t, ex, st, 'inserted', 1, 0, T); t.prove(st, not g.get('writes'), 'nothing else linked'); sentinels(t, ex, st, 'inserted'); counters(t, ex, st, 'inserted', 1, T)
            for p in live(st, t): elem(t, ex, st, p, 'inserted')
            t.cover('inserted')
        t.run(fn, [sl, t.query], post)
for _T in range(ML):
    for _f in ('skiplist_insert', 'skiplist_insert_nodup'):
        for _r in (0, 1, 2): insert_task(_f, _T, _r)

# ---------------------------------------------------------------- erasing
def erase_task(T):
    @chk.task('skiplist_erase_node_passive: height %d' % T, covers=('erased',))
    def _(t):
        ex, st = t.ex, t.st; sl = make(t, E=T); t.t = T; t.mode = 'erase'; t.node = None; E = t.E; loops(t, search_loop(t), link_loop(t), clear_loop(t))
        def post(st, r):
            g = st.ghost; t.prove(st, isint(r) and c32(r) == 0, 'success'); ok = g.get('phase') == 'clear' and g['clear'] == T + 1 and g.get('link') == T + 1
            t.prove(st, ok, 'the element is taken out of every layer of its height and the marks are released')
            elem(t, ex, st, E, 'the erased element', linked=0, removed=1); t.prove(st, not g.get('writes'), 'nothing else linked'); sentinels(t, ex, st, 'erased'); counters(t, ex, st, 'erased', -1, T)
            for p in live(st, t):
                if not peq(p, E): elem(t, ex, st, p, 'erased')
            t.cover('erased')
        t.run('skiplist_erase_node_passive', [sl, E], post)
for _T in range(ML): erase_task(_T)
def not_in_list(t, linked, removed, flag=0):
    ex, st = t.ex, t.st; sl = make(t, E=0, Ein=False); t.t = None; t.node = None
    for f, v in (('is_fully_linked', linked), ('removed', removed), ('being_modified', flag)): setmem(st, t.E.obj, off(t, f)[0], v, 1)
    return sl, t.E
def refused_erase(nm, code, linked, removed, flag=0):
    @chk.task('skiplist_erase_node_passive: ' + nm)
    def _(t):
        ex, st = t.ex, t.st; sl, E = not_in_list(t, linked, removed, flag)
        def post(st, r):
            t.prove(st, eq(r, code & 0xffffffff, 32), 'refused'); untouched(t, ex, st, 'refused', skip=(E.obj,)); elem(t, ex, st, E, 'refused', flag=flag, linked=linked, removed=removed)
        t.run('skiplist_erase_node_passive', [sl, E], post)
refused_erase('removed before', -1, 0, 1); refused_erase('not in the list', -3, 0, 0); refused_erase('busy', -2, 1, 0, 1)
def passive(t, seen):
    """contract of skiplist_erase_node_passive as proved above, for a list no other thread works on"""
    def h(ex, st, a, f, i):
        t.prove(st, peq(a[0], Ptr(t.S, 0)) and peq(a[1], seen), 'the given element is erased from this list'); t.prove(st, not st.ghost.get('erased'), 'erased once')
        r = ex.fresh('erase_result', 32); ex.assume(st, z3.Or(r == 0, r == z3.BitVecVal(-1 & 0xffffffff, 32), r == z3.BitVecVal(-3 & 0xffffffff, 32))); st.ghost['erased'] = True; st.ghost['result'] = r; return r
    t.prog.contract('skiplist_erase_node_passive', h)
@chk.task('skiplist_erase_node')
def _(t):
    ex, st = t.ex, t.st; sl = make(t, E=0); t.t = None; t.node = None; passive(t, t.E)
    def post(st, r): t.prove(st, st.ghost.get('erased') and eq(r, st.ghost['result'], 32), 'reports what erasing reported'); untouched(t, ex, st, 'after')
    t.run('skiplist_erase_node', [sl, t.E], post)
@chk.task('skiplist_erase', covers=('absent', 'erased'))
def _(t):
    ex, st = t.ex, t.st; sl = make(t, E=0); t.t = None; t.node = None; E = t.E; passive(t, E); q = ex.new_obj(st, 'query', off(t, 'size'), BZero(), 'input'); here = z3.Bool('found')
    def find(ex, st, a, f, i):
        """contract of skiplist_find: an equal element with a reference taken, or null"""
        t.prove(st, peq(a[0], sl) and peq(a[1], Ptr(q.id, 0)), 'searches for the given key in this list')
        if not ex.decide(st, here): return Ptr(0, 0)
        setmem(st, E.obj, off(t, 'ref_count')[0], add(st.ghost[('ref', E.obj)], 1, 16), 2); return E
    t.prog.contract('skiplist_find', find)
    def post(st, r):
        untouched(t, ex, st, 'after')
        if st.ghost.get('erased'): t.prove(st, eq(r, st.ghost['result'], 32), 'reports what erasing reported'); t.cover('erased')
        else: t.prove(st, here == False, 'an element found is erased'); t.prove(st, eq(r, -4 & 0xffffffff, 32), 'reports that no element is equal'); t.cover('absent')
    t.run('skiplist_erase', [sl, Ptr(q.id, 0)], post)

# ---------------------------------------------------------------- stepping
@chk.task('skiplist_prev', covers=('none', 'some'))
def _(t):
    ex, st = t.ex, t.st; sl = make(t, E=0); t.t = None; t.node = None; loops(t, search_loop(t)); t.keep = {t.E.obj}
    def post(st, r):
        stepping(t, ex, st, r); C, n = bottom_gap(t, st) or (None, None); t.prove(st, C is not None, 'the bottom layer was searched')
        if C is None: return
        t.prove(st, before(t, st, C), 'the place: everything up to here is smaller'); t.prove(st, key(n) == t.TL or z3.UGE(pos(st, n), t.A), 'the place: everything from here on is not smaller')
        if key(C) == t.H: t.prove(st, r.obj == 0 and r.off == 0, 'null: no element is smaller'); t.cover('none')
        else: t.prove(st, peq(r, C), 'the last smaller element'); t.cover('some')
    t.run('skiplist_prev', [sl, t.E], post)
def stepping(t, ex, st, r):
    rr = r if r.obj and islist(st, r) else None
    untouched(t, ex, st, 'after', ref=rr)
@chk.task('skiplist_next', covers=('none', 'some'))
def _(t):
    ex, st = t.ex, t.st; sl = make(t, E=0); t.t = None; t.node = None
    def post(st, r):
        n = nxt(ex, st, t.E, 0); stepping(t, ex, st, r)
        if key(n) == t.TL: t.prove(st, r.obj == 0 and r.off == 0, 'null after the last element'); t.cover('none')
        else: t.prove(st, peq(r, n), 'the following element'); t.cover('some')
    t.run('skiplist_next', [sl, t.E], post)
@chk.task('skiplist_next of an element taken out of the list', covers=('none', 'some'))
def _(t):
    ex, st = t.ex, t.st; sl, E = not_in_list(t, 0, 1); t.query = E; loops(t, search_loop(t)); t.keep = {E.obj}
    def post(st, r):
        untouched(t, ex, st, 'after', ref=r if r.obj and islist(st, r) else None, skip=(E.obj,)); elem(t, ex, st, E, 'the given element', linked=0, removed=1)
        gap = bottom_gap(t, st); t.prove(st, gap is not None, 'the bottom layer was searched')
        if gap is None: return
        C, n = gap; t.prove(st, before(t, st, C), 'the place: everything up to here is smaller'); t.prove(st, key(n) == t.TL or z3.UGE(pos(st, n), t.A), 'the place: everything from here on is not smaller')
        if key(n) == t.TL: t.prove(st, r.obj == 0 and r.off == 0, 'null: no element follows'); t.cover('none')
        else: t.prove(st, peq(r, n), 'the first element that is not smaller'); t.cover('some')
    t.run('skiplist_next', [sl, E], post)
@chk.task('skiplist_begin', covers=('none', 'some'))
def _(t):
    ex, st = t.ex, t.st; sl = make(t); t.t = None; t.node = None
    def post(st, r):
        n = nxt(ex, st, Ptr(*t.H), 0); stepping(t, ex, st, r)
        if key(n) == t.TL: t.prove(st, r.obj == 0 and r.off == 0, 'null for an empty list'); t.cover('none')
        else: t.prove(st, peq(r, n), 'the first element'); t.cover('some')
    t.run('skiplist_begin', [sl], post)
@chk.task('skiplist_end', covers=('none', 'some'))
def _(t):
    ex, st = t.ex, t.st; sl = make(t); t.t = None; t.node = None; t.assume(t.A == pc(1 << 32)); loops(t, search_loop(t))
    def post(st, r):
        stepping(t, ex, st, r); gap = bottom_gap(t, st); t.prove(st, gap is not None, 'the bottom layer was searched')
        if gap is None: return
        C, n = gap; t.prove(st, key(n) == t.TL, 'nothing follows')
        if key(C) == t.H: t.prove(st, r.obj == 0 and r.off == 0, 'null for an empty list'); t.cover('none')
        else: t.prove(st, peq(r, C), 'the last element'); t.cover('some')
    t.run('skiplist_end', [sl], post)

# ---------------------------------------------------------------- the rest
@chk.task('drawing a height', covers=('lowest', 'highest'))
def _(t):
    ex, st = t.ex, t.st; sl = make(t); t.t = None; t.node = None
    def rnd(ex, st, a, f, i): r = ex.fresh('rand', 32); ex.assume(st, r >= 0); return r
    t.prog.contract('rand', rnd)
    def post(st, r):
        t.prove(st, z3.ULT(bv(r, 64), z3.BitVecVal(ML, 64)), 'the height is within the layers'); untouched(t, ex, st, 'after')
        if not isint(r): return
        if r == 0: t.cover('lowest')
        if r == ML - 1: t.cover('highest')
    t.run(r'_sl_decide_top_layer\(.*', [sl], post)
@chk.task('skiplist_init')
def _(t):
    ex, st = t.ex, t.st; r = R(t); TASK[0] = t; ex.unroll = 64; ex.auto_inv = False; S = t.obj('slist', r['size'][0]); cf = FnPtr('cmp', ('sl', 'cmp'))
    def post(st, _r):
        for f, v in (('fanout', 4), ('max_layer', ML), ('num_entries', 0), ('top_layer', 0)): t.prove(st, eq(ex.rdv(st, S.add(r[f][0]), r[f][1]), v, 8 * r[f][1]), f)
        c = ex.rdp(st, S.add(r['cmp_func'][0])); t.prove(st, isinstance(c, FnPtr) and c.virt == cf.virt, 'cmp_func'); a = ex.rdp(st, S.add(r['aux'][0])); t.prove(st, a.obj == 0 and a.off == 0, 'aux')
        le = ex.rdp(st, S.add(r['layer_entries'][0])); t.prove(st, le.obj != 0 and le.off == 0 and st.objs[le.obj].size == 4 * ML, 'a counter per layer')
        for i in range(ML): t.prove(st, eq(ex.rdv(st, le.add(4 * i), 4), 0, 32), 'no entry in any layer')
        for nm in ('head', 'tail'):
            p = S.add(r[nm][0])
            for f, v, w in (('is_fully_linked', 1, 8), ('being_modified', 0, 8), ('removed', 0, 8), ('top_layer', ML, 8), ('accessing_next', 0, 32), ('ref_count', 0, 16)): t.prove(st, eq(get(ex, st, t, p, f), v, w), nm + ' ' + f)
            a = ex.rdp(st, p.add(off(t, 'next')[0])); t.prove(st, a.obj != 0 and a.off == 0 and st.objs[a.obj].size >= 8 * ML, nm + ' links')
            for i in range(ML):
                n = ex.rdp(st, a.add(8 * i)); t.prove(st, peq(n, S.add(r['tail'][0])) if nm == 'head' else n.obj == 0 and n.off == 0, nm + ' links: an empty layer')
    t.run('skiplist_init', [S, cf], post)
@chk.task('skiplist_init_node')
def _(t):
    TASK[0] = t; ex, st = t.ex, t.st; n = t.obj('node', off(t, 'size'))
    def post(st, _r):
        for f in ('is_fully_linked', 'being_modified', 'removed', 'top_layer', 'accessing_next', 'ref_count', 'next'): t.prove(st, eq(get(ex, st, t, n, f), 0, 8 * off(t, f)[1]), f)
    t.run('skiplist_init_node', [n], post)
@chk.task('skiplist_free_node')
def _(t):
    ex, st = t.ex, t.st; sl, E = not_in_list(t, 0, 1); arr = st.ghost[('arr', E.obj)]
    def post(st, _r): t.prove(st, not st.objs[arr].alive, 'the links are freed'); a = ex.rdp(st, E.add(off(t, 'next')[0])); t.prove(st, a.obj == 0 and a.off == 0, 'and forgotten'); sentinels(t, ex, st, 'after'); counters(t, ex, st, 'after')
    t.run('skiplist_free_node', [E], post)
@chk.task('skiplist_free')
def _(t):
    ex, st = t.ex, t.st; sl = make(t); t.t = None; t.node = None
    def post(st, _r):
        for k in (t.H, t.TL): t.prove(st, not st.objs[st.ghost[('arr', k)]].alive, 'the links of both ends are freed')
        t.prove(st, not st.objs[t.le].alive, 'the counters are freed')
    t.run('skiplist_free', [sl], post)
CFG = ('fanout', 'maxLayer', 'aux')
def cfg(t, f): return t.field('skiplist_raw_config', f)
@chk.task('skiplist_get_config')
def _(t):
    ex, st = t.ex, t.st; sl = make(t); t.t = None; t.node = None; ret = t.obj('config', t.size('skiplist_raw_config'))
    def post(st, r):
        for f, v in (('fanout', 4), ('maxLayer', ML)): t.prove(st, eq(ex.rdv(st, ret.add(cfg(t, f)[0]), cfg(t, f)[1]), v, 64), f)
        t.prove(st, peq(ex.rdp(st, ret.add(cfg(t, 'aux')[0])), Ptr(st.ghost['aux'], 0)), 'aux'); untouched(t, ex, st, 'after')
    t.run('skiplist_get_config', [ret, sl], post)
@chk.task('skiplist_set_config')
def _(t):
    ex, st = t.ex, t.st; sl = make(t); t.t = None; t.node = None; c = t.obj('config', t.size('skiplist_raw_config')); new = t.obj('new_aux', 16); r = R(t); old = t.le
    for f, v in (('fanout', 4), ('maxLayer', ML), ('aux', new)): t.put(c.add(cfg(t, f)[0]), cfg(t, f)[1], v)
    def post(st, _r):
        sentinels(t, ex, st, 'after'); le = ex.rdp(st, sl.add(r['layer_entries'][0])); t.prove(st, le.obj not in (0, old) and le.off == 0 and st.objs[le.obj].size == 4 * ML, 'a counter per layer'); t.prove(st, not st.objs[old].alive, 'the old counters are freed')
        for i in range(ML): t.prove(st, eq(ex.rdv(st, le.add(4 * i), 4), 0, 32), 'no entry in any layer')
        for f, v in (('fanout', 4), ('max_layer', ML), ('num_entries', t.n), ('top_layer', t.top)): t.prove(st, eq(ex.rdv(st, sl.add(r[f][0]), r[f][1]), v, 8 * r[f][1]), f)
        t.prove(st, peq(ex.rdp(st, sl.add(r['aux'][0])), new), 'aux'); t.prove(st, isinstance(ex.rdp(st, sl.add(r['cmp_func'][0])), FnPtr), 'cmp_func')
    t.run('skiplist_set_config', [sl, c], post)
@chk.task('skiplist_get_size')
def _(t):
    ex, st = t.ex, t.st; sl = make(t); t.t = None; t.node = None
    def post(st, r): t.prove(st, eq(r, zext(t.n, 32, 64), 64), 'the number of elements'); untouched(t, ex, st, 'after')
    t.run('skiplist_get_size', [sl], post)
@chk.task('skiplist_grab_node and skiplist_release_node')
def _(t):
    for fn, d in (('skiplist_grab_node', 1), ('skiplist_release_node', -1)):
        ex, st = t.ex, t.st; sl = make(t, E=0); t.t = None; t.node = None; E = t.E
        def post(st, r): untouched(t, ex, st, fn, skip=(E.obj,)); elem(t, ex, st, E, fn, ref=d)
        t.run(fn, [E], post)
@chk.task('skiplist_is_valid_node and skiplist_is_safe_to_free')
def _(t):
    for fn in ('skiplist_is_valid_node', 'skiplist_is_safe_to_free'):
        ex, st = t.ex, t.st; sl, E = not_in_list(t, 0, 1); v = {f: z3.BitVec(f + fn[-2:], w) for f, w in (('is_fully_linked', 8), ('being_modified', 8), ('removed', 8), ('accessing_next', 32), ('ref_count', 16))}
        for f in v: setmem(st, E.obj, off(t, f)[0], v[f], off(t, f)[1])
        for f in ('is_fully_linked', 'being_modified', 'removed'): t.assume(z3.ULE(v[f], z3.BitVecVal(1, 8)))
        def post(st, r):
            sentinels(t, ex, st, fn); counters(t, ex, st, fn)
            for f in v: t.prove(st, eq(get(ex, st, t, E, f), v[f], v[f].size()), fn + ': element unchanged')
            want = v['is_fully_linked'] == 1 if 'valid' in fn else z3.And(v['accessing_next'] == 0, v['being_modified'] == 0, v['removed'] == 1, v['ref_count'] == 0)
            t.prove(st, z3.If(want, bv(r, 32) == 1, bv(r, 32) == 0), fn + ': result')
        t.run(fn, [E], post)
if __name__ == '__main__': sys.exit(chk.main())
