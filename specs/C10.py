"""C10: AVL tree.  The heap is described by partially unfolded trees: a field holds a node pointer, or an abstract reference
   Sub  - a whole subtree (ghost height, open key interval), unfolded when the code reads the field
   Ctx  - everything above a node (a one-hole tree expecting a given height), unfolded upwards when the parent is read
   Seg  - the part of a left spine between two nodes
Loops are proved with structural invariants over such states, so trees of every size and shape are covered."""
import sys, z3
from llcv.check import Check
from llcv.exe import Outcomes
from llcv.prog import VOIDV
from llcv.sym import *
from .lib import *
chk = Check('C10', ['src/avltree.cc'], harness='C10.cc', harness_srcs=['src/avltree.cc'],
            assumptions=['the comparison function is a strict total order on the nodes of a tree (keys are distinct in a tree) and does not modify the tree', 'a node to insert is in no tree; a node to remove is in the given tree',
                         'tree height below 1000 (a taller AVL tree does not fit in an address space)', 'nodes are at least 4-byte aligned'])
KW = 32; MIN, MAX = 0, (1 << KW) - 1
def K(v): return z3.BitVecVal(v, KW)
HM = 1000
def nid(ex): ex.nfresh += 1; return ex.nfresh
class Ref:
    __slots__ = ('kind', 'id', 'tag')
    def __init__(self, kind, id, tag=0): self.kind = kind; self.id = id; self.tag = tag
    def __repr__(self): return '%s%d' % (self.kind, self.id)
PAR, LFT, RGT = 0, 8, 16
def H(n): return z3.BitVec(n, 16)
def hv(v): return z3.BitVecVal(v, 16)
def hmax(a, b): return z3.If(z3.UGE(a, b), a, b)
def raw(st, oid, off):
    m = st.objs[oid].mem
    while isinstance(m, W):
        if isint(m.off) and m.off == off: return m.val
        if not isint(m.off) or not (m.off + m.n <= off or m.off >= off + 8): break
        m = m.parent
    raise EngineError('field of unknown content')
def setraw(st, oid, off, v):
    o = st.obj_w(oid); o.mem = W(o.mem, off, 8, v)
class Stale:
    own_check = True
    def load(self, *a): raise EngineError('stale node used after a loop')
    store = load
STALE = Stale()
class NodeHook:
    def load(self, ex, st, o, p, n, want):
        if not isint(p.off) or n != 8 or p.off not in (0, 8, 16): raise EngineError('node access')
        v = raw(st, o.id, p.off)
        if isinstance(v, Ref): return resolve(ex, st, o.id, p.off, v)
        return v if want == 'ptr' else ex.ptr_int(st, v)
    def store(self, ex, st, o, p, n, val):
        if not isint(p.off) or n != 8 or p.off not in (0, 8, 16): raise EngineError('node access')
        if not isinstance(val, Ptr): val = ex.int_ptr(st, val)
        v = raw(st, o.id, p.off)
        if isinstance(v, Ref) and v.kind in ('Sub', 'Seg', 'Ctx'): 
            # an overwritten reference that was never read: remember it is gone from here
            st.ghost[('lost', v.kind, v.id)] = True
        setraw(st, o.id, p.off, val); return True
class TreeHook:
    def load(self, ex, st, o, p, n, want):
        if isint(p.off) and p.off == 0:
            v = raw(st, o.id, 0)
            if isinstance(v, Ref):
                if v.kind == 'Root': return resolve_root(ex, st, o.id)
                return resolve(ex, st, o.id, 0, v)
            return v
        return Ptr(st.ghost['aux'], 0) if want == 'ptr' else None
    def store(self, ex, st, o, p, n, val):
        if isint(p.off) and p.off == 0: setraw(st, o.id, 0, val); return True
        raise EngineError('tree field')
NH, TH = NodeHook(), TreeHook()
def mk_node(ex, st, name, key, left, right, par, al=8):
    o = ex.new_obj(st, name, 24, BZero(), 'node', hook=NH); o.meta['align'] = al
    setraw(st, o.id, PAR, par); setraw(st, o.id, LFT, left); setraw(st, o.id, RGT, right)
    st.ghost[('key', o.id)] = key; return o.id
def mk_sub(st, ex, holder, off, h, lo, hi, nz=False):
    """reference to a subtree of height h with keys in (lo,hi), stored in holder.off; nz: height 1 or leaning"""
    s = nid(ex); st.ghost[('sub', s)] = (holder, off, h, lo, hi, nz); setraw(st, holder, off, Ref('Sub', s)); return s
def hgt(ex, st, h, lo=0): ex.assume(st, z3.And(z3.ULE(h, hv(HM)), z3.UGE(h, hv(lo))))
def tag_of(ex, st, hl, hr):
    """tag bits (balance + 1); kept symbolic while only read, split into cases where the code computes with them"""
    if ex.lowtags: return simp(z3.If(hl == hr, z3.BitVecVal(1, 64), z3.If(z3.ULT(hl, hr), z3.BitVecVal(2, 64), z3.BitVecVal(0, 64))))
    return 1 if ex.decide(st, hl == hr) else 2 if ex.decide(st, z3.ULT(hl, hr)) else 0
def resolve(ex, st, oid, off, v):
    """read of a field holding an abstract reference: unfold it"""
    g = st.ghost
    if v.kind == 'Sub':
        s = v.id; holder, hoff, h, lo, hi, nz = g[('sub', s)]
        if ex.decide(st, h == hv(0)):
            g[('exp', s)] = None; setraw(st, oid, off, NULL); return NULL
        hl, hr, k = H('hl_%d' % s), H('hr_%d' % s), z3.BitVec('key_%d' % s, KW)
        if ('hf', s) not in g:
            g[('hf', s)] = True; hgt(ex, st, hl); hgt(ex, st, hr)
            ex.assume(st, z3.And(h == hmax(hl, hr) + 1, z3.ULE(hl, hr + 1), z3.ULE(hr, hl + 1), z3.ULT(lo, k), z3.ULT(k, hi)))
            if nz: ex.assume(st, z3.Or(h == hv(1), hl != hr))
        tg = tag_of(ex, st, hl, hr)
        par = Ptr(0, tg) if st.objs[holder].hook is TH else Ptr(holder, tg)
        n = mk_node(ex, st, 'node_s%d' % s, k, NULL, NULL, par); g[('iv', n)] = (lo, hi)
        a = mk_sub(st, ex, n, LFT, hl, lo, k); b = mk_sub(st, ex, n, RGT, hr, k, hi)
        g[('exp', s)] = ('n', a, n, b); setraw(st, oid, off, Ptr(n, 0)); return Ptr(n, 0)
    if v.kind == 'Ctx':
        c = v.id; node, h, lo, hi = g[('ctx', c)]
        isroot = z3.Bool('isroot_%d' % c)
        if ex.decide(st, isroot):
            ex.assume(st, z3.And(lo == K(MIN), hi == K(MAX)))
            g[('up', c)] = 'root'; setraw(st, oid, off, Ptr(0, v.tag)); return Ptr(0, v.tag)
        left = ex.decide(st, z3.Bool('isleft_%d' % c)); ho = H('ho_%d' % c); b = z3.BitVec('bound_%d' % c, KW)
        if ('hf', 'c', c) not in g:
            g[('hf', 'c', c)] = True; hgt(ex, st, ho); ex.assume(st, z3.And(z3.ULE(h, ho + 1), z3.ULE(ho, h + 1)))
            if left: ex.assume(st, z3.And(z3.ULT(hi, K(MAX)), z3.ULT(hi, b)))
            else: ex.assume(st, z3.And(z3.UGT(lo, K(MIN)), z3.ULT(b, lo)))
        tg = tag_of(ex, st, *((h, ho) if left else (ho, h)))
        c2 = nid(ex); key = hi if left else lo
        P = mk_node(ex, st, 'parent_c%d' % c, key, NULL, NULL, Ref('Ctx', c2, tg))
        g[('ctx', c2)] = (P, hmax(h, ho) + 1, lo if left else b, b if left else hi); g[('iv', P)] = (lo if left else b, b if left else hi)
        if left: setraw(st, P, LFT, Ptr(node, 0)); s = mk_sub(st, ex, P, RGT, ho, hi, b)
        else: setraw(st, P, RGT, Ptr(node, 0)); s = mk_sub(st, ex, P, LFT, ho, b, lo)
        g[('up', c)] = ('p', P, left, s); g['top'] = (P, c2)
        g['old'] = (g['old'] + [P] + [('s', s)]) if left else ([('s', s)] + [P] + g['old'])
        setraw(st, oid, off, Ptr(P, v.tag)); return Ptr(P, v.tag)
    raise EngineError('read of ' + repr(v))
def resolve_root(ex, st, tree):
    g = st.ghost; top, c = g['top']
    if ex.decide(st, z3.Bool('isroot_%d' % c)):
        node, h, lo, hi = g[('ctx', c)]; ex.assume(st, z3.And(lo == K(MIN), hi == K(MAX))); g[('up', c)] = 'root'
        setraw(st, tree, 0, Ptr(top, 0))
        v = raw(st, top, PAR)
        if isinstance(v, Ref): setraw(st, top, PAR, Ptr(0, v.tag))
        return Ptr(top, 0)
    return Ptr(g['ancestor'], 0)
# ---------------------------------------------------------------- checking a state
def flat(g, s):
    if ('exp', s) not in g: return [('s', s)]
    e = g[('exp', s)]
    if e is None: return []
    if e[0] == 'seg': return [e[2]] + flat(g, e[3]) + [e[4]] + flat(g, e[5]) + [('seg', e[1])]
    return flat(g, e[1]) + [e[2]] + flat(g, e[3])
def flatten(g, l):
    out = []
    for x in l: out += flat(g, x[1]) if isinstance(x, tuple) and x[0] == 's' else [x]
    return out
class Bad(Exception): pass
def walk(ex, st, v, holder, off, lo, hi, dev, bst, conds, depth=0):
    """v: raw field content -> (height as seen by the holder, in-order list); conditions to prove are appended to conds"""
    g = st.ghost
    if depth > 12: raise Bad('cycle')
    if isinstance(v, Ref):
        if v.kind == 'Sub':
            h0, o0, h, l, u, nz = g[('sub', v.id)]
            if (h0, o0) != (holder, off): raise Bad('subtree moved without fixing its parent')
            if bst: conds.append(('order', z3.And(z3.UGE(l, lo), z3.ULE(u, hi))))
            return h, [('s', v.id)]
        if v.kind == 'Seg':
            seg = g[('seg', v.id)]
            if seg['holder'] != (holder, off): raise Bad('spine moved')
            hq, l = walk_node(ex, st, seg['Q'], ('seg', v.id), lo, hi, dev, False, conds, depth + 1)
            conds.append(('spine expects the old height', hq == seg['hq'])); return seg['h'], l + [('seg', v.id)]
        raise Bad('reference ' + repr(v))
    if not isinstance(v, Ptr): raise Bad('not a pointer')
    if v.obj == 0: 
        if v.off != 0: raise Bad('tagged null')
        return hv(0), []
    if v.off != 0: raise Bad('tagged child pointer')
    return walk_node(ex, st, v.obj, holder, lo, hi, dev, bst, conds, depth + 1)
def walk_node(ex, st, n, holder, lo, hi, dev, bst, conds, depth):
    g = st.ghost; o = st.objs[n]
    if o.hook is not NH: raise Bad('link to something that is not a node of this tree')
    par = raw(st, n, PAR)
    if isinstance(par, Ref):
        if par.kind == 'Ctx':
            if holder != ('ctx', par.id): raise Bad('parent pointer goes to a different place')
        elif par.kind == 'SegUp':
            if holder != ('seg', par.id): raise Bad('parent pointer leaves the spine')
        else: raise Bad('parent')
        tag = par.tag
    else:
        tag = par.off
        want = 0 if holder is None else holder
        if par.obj != want: raise Bad('parent pointer of %s is wrong' % o.name)
    if isint(tag) and tag not in (0, 1, 2): raise Bad('balance out of range')
    k = g[('key', n)]
    if bst: conds.append(('order', z3.And(z3.ULT(lo, k), z3.ULT(k, hi))))
    hl, ll = walk(ex, st, raw(st, n, LFT), n, LFT, lo, k, dev, bst, conds, depth); hr, lr = walk(ex, st, raw(st, n, RGT), n, RGT, k, hi, dev, bst, conds, depth)
    if dev and n in dev:
        # actual heights differ from the recorded ones at this node: dev gives the recorded (old) child heights and the height seen above
        hl, hr, hseen = dev[n](hl, hr, conds)
    else: hseen = hmax(hl, hr) + 1
    conds.append(('recorded balance is the height difference', z3.SignExt(8, hr) - z3.SignExt(8, hl) == (z3.BitVecVal((tag - 1) & mask(24), 24) if isint(tag) else z3.Extract(23, 0, tag) - 1)))
    return hseen, ll + [n] + lr
def total(t, ex, st, name, want, dev=None, bst=False):
    """the whole tree is well formed with in-order sequence want"""
    g = st.ghost; conds = []; tree = t.tree
    try:
        if 'top' in g:
            top, c = g['top']; node, h, lo, hi = g[('ctx', c)]
            if g.get(('up', c)) == 'root':
                r = raw(st, tree, 0)
                if isinstance(r, Ref): r = Ptr(top, 0)
                hh, l = walk(ex, st, r, None, 0, K(MIN), K(MAX), dev, bst, conds)
            else:
                if not isinstance(raw(st, tree, 0), Ref): raise Bad('root changed')
                hh, l = walk_node(ex, st, top, ('ctx', c), lo, hi, dev, bst, conds, 0); rt = ex.must(st, z3.Bool('isroot_%d' % c))
                conds.append(('height expected above', z3.Or(z3.Bool('isroot_%d' % c), hh == h)))
        else:
            r = raw(st, tree, 0)
            hh, l = (walk(ex, st, r, tree, 0, K(MIN), K(MAX), dev, bst, conds) if isinstance(r, Ref) else walk(ex, st, r, None, 0, K(MIN), K(MAX), dev, bst, conds))
        if l != want: raise Bad('in-order sequence %s, expected %s' % (l, want))
    except Bad as e:
        t.prove(st, False, name + ': ' + 'links and order', info=str(e)); return False
    t.prove(st, True, name + ': links and order')
    cs = [c for nm, c in conds if not z3.is_true(z3.simplify(c))]
    if cs and ex.must(st, z3.And(*cs)):
        for nm in sorted({nm for nm, c in conds}): t.prove(st, True, name + ': ' + nm)   # discharged by the solver call above
    else:
        for nm, c in conds: t.prove(st, c, name + ': ' + nm)
    return True
def oldlist(st): return flatten(st.ghost, st.ghost['old'])
# ---------------------------------------------------------------- starting states
def mk_tree(t):
    ex = t.ex; st = t.st; o = ex.new_obj(st, 'tree', 16, BZero(), 'input', hook=TH); t.tree = o.id; st.ghost['aux'] = ex.new_obj(st, 'aux', 16).id
    a = ex.new_obj(st, 'ancestor', 24, BZero(), 'node', hook=STALE); a.meta['align'] = 8; st.ghost['ancestor'] = a.id
    t.keep = {o.id, a.id, st.ghost['aux']}; return Ptr(o.id, 0)
def whole(t, ex, st):
    """the tree is one abstract subtree"""
    h = H('height'); hgt(ex, st, h); s = mk_sub(st, ex, t.tree, 0, h, K(MIN), K(MAX)); st.ghost['old'] = [('s', s)]; st.ghost.pop('top', None); return s
def stale(t, st, keep=()):
    for oid, o in list(st.objs.items()):
        if o.hook is NH and oid not in keep and oid not in t.keep: st.obj_w(oid).hook = STALE
    st.ghost.pop('top', None); st.ghost.pop('hole', None)
def focus(t, ex, st, tag, hl, hr, hseen, nz=(False, False)):
    """a generic node somewhere in a generic tree: recorded balance tag-1, child heights, height expected above"""
    i = nid(ex); lo, hi, k = (z3.BitVec('%s_%d' % (x, i), KW) for x in ('lo', 'hi', 'key')); ex.assume(st, z3.And(z3.ULT(lo, k), z3.ULT(k, hi)))
    c = nid(ex); n = mk_node(ex, st, 'focus_%d' % i, k, NULL, NULL, Ref('Ctx', c, tag))
    a = mk_sub(st, ex, n, LFT, hl, lo, k, nz[0]); b = mk_sub(st, ex, n, RGT, hr, k, hi, nz[1])
    st.ghost[('bf', c)] = (hl, hr); st.ghost[('ctx', c)] = (n, hseen, lo, hi); st.ghost[('iv', n)] = (lo, hi); st.ghost['top'] = (n, c); st.ghost['old'] = [('s', a), n, ('s', b)]
    setraw(st, t.tree, 0, Ref('Root', 0)); return n
def sound(t, ex, st):
    """a generic node of a well-formed tree"""
    i = nid(ex); hl, hr = H('fl_%d' % i), H('fr_%d' % i); hgt(ex, st, hl); hgt(ex, st, hr); ex.assume(st, z3.And(z3.ULE(hl, hr + 1), z3.ULE(hr, hl + 1)))
    return focus(t, ex, st, tag_of(ex, st, hl, hr), hl, hr, hmax(hl, hr) + 1)
def load(ex, st, n, off): return ex.load(st, Ptr(n, off), 8, 'ptr')
def pick(ex, name): return z3.Bool('%s_%d' % (name, nid(ex)))
# ---------------------------------------------------------------- comparison contract
def cmp_contract(t):
    def cmp_(ex, st, a, f, i):
        ka, kb = (st.ghost.get(('key', x.obj)) for x in a[:2])
        if ka is None or kb is None or a[0].off != 0 or a[1].off != 0: raise EngineError('comparison of something that is not a node')
        t.prove(st, a[2].obj == st.ghost['aux'], 'the comparison gets the aux pointer')
        r = ex.fresh('cmp', 32); ex.assume(st, z3.And((r > 0) == z3.UGT(ka, kb), (r == 0) == (ka == kb))); return r
    t.prog.virt[('cmp', 'cmp')] = cmp_; return FnPtr('cmp', ('cmp', 'cmp'))
class Loop:
    def __init__(self, check, generic): self.check = check; self.generic = generic
def peq(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isint(a.off) and a.off == b.off
def isnode(st, v): return isinstance(v, Ptr) and v.obj in st.objs and st.objs[v.obj].hook is NH and isint(v.off) and v.off == 0
def ord_(st, ex, T_, n): return z3.And(z3.ULT(st.ghost[('iv', n)][0], T_), z3.ULT(T_, st.ghost[('iv', n)][1]))
# ---------------------------------------------------------------- going down from the root (search, first, last, insert)
def descent(t, kind, T_=None, quick=False):
    """kind: 'key' (towards key T_), 'min', 'max'.  Pointer registers: the cursor and, if kept, its parent"""
    def shape(ex, st, f, h):
        blk = f.fn.blocks[h]; names = [i.dst for i in blk if i.op == 'phi']
        s2 = st.clone(); ex.do_phis(s2, s2.frames[-1]); vals = {n: s2.frames[-1].env[n] for n in names}
        if not all(isinstance(v, Ptr) for v in vals.values()): return None
        root = raw(st, t.tree, 0)
        cur = [n for n in names if peq(vals[n], root)]; prev = [n for n in names if n not in cur]
        if not isinstance(root, Ptr) or not cur or (root.obj == 0 and len(names) > 2): return None
        if root.obj == 0 and len(names) == 2:
            # both null: the cursor is the register tested by the loop / used as the compare operand; try the one whose entry value was loaded
            ent = {}
            for i in blk:
                if i.op == 'phi':
                    for v, b in i.a[1]:
                        if b == f.prev: ent[i.dst] = v
            cur = [n for n in names if ent[n][0] not in ('null', 'none', 'zero', 'c', 'ci')] if any(isinstance(e, tuple) for e in ent.values()) else cur
            prev = [n for n in names if n not in cur]
        if len(cur) != 1 or len(prev) > 1: return None
        cn, pn = cur[0], prev[0] if prev else None
        def check(ex, st, f, vals, when):
            g = st.ghost; cur = vals[cn]; P = vals[pn].obj if pn else 0; nm = 'descent, %s' % when
            t.prove(st, cur.obj == 0 or isnode(st, cur), nm + ': the cursor is null or a node')
            total(t, ex, st, nm, oldlist(st))
            if pn and not P: t.prove(st, peq(cur, raw(st, t.tree, 0)), nm + ': starts at the root'); return
            if P:
                t.prove(st, isnode(st, vals[pn]), nm + ': the parent is a node'); lo, hi = g[('iv', P)]; k = g[('key', P)]; l, r = raw(st, P, LFT), raw(st, P, RGT)
                if kind == 'min': t.prove(st, peq(cur, l), nm + ': goes left'); t.prove(st, lo == K(MIN), nm + ': nothing smaller was passed')
                elif kind == 'max': t.prove(st, peq(cur, r), nm + ': goes right'); t.prove(st, hi == K(MAX), nm + ': nothing greater was passed')
                else:
                    t.prove(st, ord_(st, ex, T_, P), nm + ': the key belongs into this subtree')
                    t.prove(st, b_or(b_and(peq(cur, l), z3.ULT(T_, k)), b_and(peq(cur, r), z3.UGT(T_, k))), nm + ': the side taken is the one the key belongs to')
            elif cur.obj: t.prove(st, ord_(st, ex, T_, cur.obj), nm + ': the key belongs into this subtree')
            else:
                # no parent register: some empty place of this (well-formed) tree fragment is where the key belongs
                ok = [z3.BoolVal(peq(root_of(st, t), NULL))]
                for oid, o in st.objs.items():
                    if o.hook is NH and ('iv', oid) in g:
                        lo, hi = g[('iv', oid)]; k = g[('key', oid)]
                        if peq(raw(st, oid, LFT), NULL): ok.append(z3.And(z3.ULT(lo, T_), z3.ULT(T_, k)))
                        if peq(raw(st, oid, RGT), NULL): ok.append(z3.And(z3.ULT(k, T_), z3.ULT(T_, hi)))
                t.prove(st, z3.Or(*ok), nm + ': the empty place is where the key belongs')
        def at_root(ex, st, f):
            stale(t, st); whole(t, ex, st); c = ex.load(st, Ptr(t.tree, 0), 8, 'ptr'); return {cn: c, **({pn: NULL} if pn else {})}
        def below(ex, st, f):
            stale(t, st); n = sound(t, ex, st); lo, hi = st.ghost[('iv', n)]; k = st.ghost[('key', n)]
            side = LFT if kind == 'min' else RGT if kind == 'max' else LFT if ex.decide(st, pick(ex, 'goes_left')) else RGT
            if kind == 'key': ex.assume(st, z3.And(z3.ULT(lo, T_), z3.ULT(T_, hi), z3.ULT(T_, k) if side == LFT else z3.UGT(T_, k)))
            else: ex.assume(st, lo == K(MIN) if kind == 'min' else hi == K(MAX))
            return {cn: load(ex, st, n, side), pn: Ptr(n, 0)}
        def lone(ex, st, f):
            stale(t, st)
            if ex.decide(st, pick(ex, 'somewhere')): n = sound(t, ex, st); ex.assume(st, ord_(st, ex, T_, n)); return {cn: Ptr(n, 0)}
            n = sound(t, ex, st); ex.assume(st, ord_(st, ex, T_, n)); k = st.ghost[('key', n)]; side = LFT if ex.decide(st, z3.ULT(T_, k)) else RGT; ex.assume(st, T_ != k)
            v = load(ex, st, n, side)
            if v.obj: raise PathEnd()
            st.ghost['hole'] = True; return {cn: NULL}
        if quick:
            # only used to reach the second loop, whose own invariant describes every state: the empty tree is enough
            def empty(ex, st, f):
                stale(t, st); s = whole(t, ex, st); ex.assume(st, st.ghost[('sub', s)][2] == hv(0)); return {cn: ex.load(st, Ptr(t.tree, 0), 8, 'ptr'), **({pn: NULL} if pn else {})}
            return Loop(check, [empty])
        return Loop(check, [at_root] + ([below] if pn else [lone]))
    return shape
def root_of(st, t): return raw(st, t.tree, 0)
from llcv.exe import PathEnd
def kinds(t, ex, *shapes):
    """the first structural invariant whose shape fits a loop"""
    def sel(ex, st, f, h):
        for s in shapes:
            r = s(ex, st, f, h)
            if r is not None: return r
        return None
    ex.shape = sel
# ---------------------------------------------------------------- walking from a node (next / prev)
def steps(t, side, k0, bound):
    """side: the side entered first (RGT for next).  Either the cursor runs down the other side below the node's subtree, or it climbs while coming from `side`.
    k0: the starting node's key; bound: the far bound of the empty place next to it"""
    other = LFT if side == RGT else RGT; near = 0 if side == RGT else 1; far = 1 - near
    def shape(ex, st, f, h):
        blk = f.fn.blocks[h]; names = [i.dst for i in blk if i.op == 'phi']; s2 = st.clone(); ex.do_phis(s2, s2.frames[-1]); vals = {n: s2.frames[-1].env[n] for n in names}
        if len(names) != 2 or not all(isinstance(v, Ptr) for v in vals.values()): return None
        a, b = names; down = None
        for p, c in ((a, b), (b, a)):
            if not isnode(st, vals[p]): continue
            P = vals[p].obj
            if vals[c].obj and peq(raw(st, P, side), vals[c]): down = (p, c); up = None; break
            par = raw(st, P, PAR)
            if isinstance(par, Ptr) and (par.obj == vals[c].obj) and vals[c].off == 0: up = (p, c); down = None; break
        else: return None
        p, c = down or up
        first = [True]
        def check(ex, st, f, vals, when):
            g = st.ghost; P = vals[p]; c_ = vals[c]; nm = ('down' if down else 'up') + ', ' + when
            t.prove(st, isnode(st, P), nm + ': p is a node'); P = P.obj; total(t, ex, st, nm, oldlist(st))
            if down:
                if when == 'init': t.prove(st, peq(c_, raw(st, P, side)) and isnode(st, c_), nm + ': cursor is the child'); t.prove(st, b_and(g[('key', P)] == k0), nm + ': from the node')
                else: t.prove(st, peq(c_, raw(st, P, other)), nm + ': cursor is the child'); t.prove(st, g[('iv', P)][near] == k0, nm + ': nothing lies between the node and this subtree')
            else:
                par = raw(st, P, PAR); par = Ptr(par.obj, 0) if isinstance(par, Ptr) else None
                t.prove(st, peq(c_, par) , nm + ': cursor is the parent'); t.prove(st, g[('iv', P)][far] == bound, nm + ': the empty place next to the node ends where this subtree ends')
        def g_first(ex, st, f):
            stale(t, st); n = sound(t, ex, st); ex.assume(st, st.ghost[('key', n)] == k0); v = load(ex, st, n, side)
            if not v.obj: raise PathEnd()
            return {p: Ptr(n, 0), c: v}
        def g_down(ex, st, f):
            stale(t, st); n = sound(t, ex, st); ex.assume(st, st.ghost[('iv', n)][near] == k0); return {p: Ptr(n, 0), c: load(ex, st, n, other)}
        def g_up(ex, st, f):
            stale(t, st); n = sound(t, ex, st); ex.assume(st, st.ghost[('iv', n)][far] == bound); q = load(ex, st, n, PAR); return {p: Ptr(n, 0), c: Ptr(q.obj, 0)}
        return Loop(check, [g_first, g_down] if down else [g_up])
    return shape

# ---------------------------------------------------------------- tasks: reading
def start(t, whole_tree=True):
    tp = mk_tree(t); t.st.ghost['old'] = []; t.ex.lowtags = True; t.ex.nulltags = True
    t.prog.int_ptr_hook = lambda ex, st, v: Ptr(0, v) if ex.must(st, z3.ULE(v, 3)) else None
    if whole_tree: whole(t, t.ex, t.st)
    return tp
def unchanged(t, st, nm='tree unchanged'): total(t, t.ex, st, nm, oldlist(st))
def extreme(fn, kind, side, which, bound):
    @chk.task(fn)
    def _(t):
        ex = t.ex; tp = start(t); kinds(t, ex, descent(t, kind))
        def post(st, r):
            unchanged(t, st); g = st.ghost
            if r.obj == 0: t.prove(st, peq(root_of(st, t), NULL), 'null only for the empty tree'); t.cover('empty'); return
            t.prove(st, isnode(st, r), 'a node'); t.prove(st, peq(raw(st, r.obj, side), NULL), 'nothing beyond it in its subtree'); t.prove(st, g[('iv', r.obj)][which] == K(bound), 'nothing beyond it in the rest of the tree'); t.cover('found')
        t.run(fn, [tp], post)
extreme('avl_first', 'min', LFT, 0, MIN); extreme('avl_last', 'max', RGT, 1, MAX)
def step_task(fn, side):
    far = 1 if side == RGT else 0
    @chk.task(fn)
    def _(t):
        ex = t.ex; tp = start(t, False); st = t.st; n = neutral(t, ex, st); k0 = st.ghost[('key', n)]; bound = st.ghost[('iv', n)][far]; t.k0 = k0
        kinds(t, ex, steps(t, side, k0, bound))
        def post(st, r):
            unchanged(t, st); g = st.ghost; end = K(MAX if side == RGT else MIN); right = g.get(('exp', t.subs[side]), 0)
            if r.obj == 0: t.prove(st, right is None, 'null only without a subtree on that side'); t.prove(st, bound == end, 'null only at the end of the order'); t.cover('end'); return
            t.prove(st, isnode(st, r), 'a node'); R = r.obj; k = g[('key', R)]
            if right is None: t.prove(st, k == bound, 'the neighbour is the far end of the empty place next to the node'); t.cover('up')
            else: t.prove(st, peq(raw(st, R, LFT if side == RGT else RGT), NULL) , 'nothing between: no subtree on the near side'); t.prove(st, g[('iv', R)][1 - far] == k0, 'nothing between: the empty place starts at the node'); t.cover('down')
        t.run(fn, [Ptr(n, 0)], post)
    @chk.task(fn + ' of null')
    def _(t): t.run(fn, [NULL], lambda st, r: t.prove(st, r.obj == 0, 'null'))
def neutral(t, ex, st):
    """generic node whose balance is left symbolic until it matters"""
    i = nid(ex); hl, hr = H('fl_%d' % i), H('fr_%d' % i); hgt(ex, st, hl); hgt(ex, st, hr); t.assume(z3.And(z3.ULE(hl, hr + 1), z3.ULE(hr, hl + 1)))
    n = focus(t, ex, st, tag_of(ex, st, hl, hr), hl, hr, hmax(hl, hr) + 1); t.subs = {o: raw(st, n, o).id for o in (LFT, RGT)}; return n
step_task('avl_next', RGT); step_task('avl_prev', LFT)
def search(fn, side):
    """side 0: exact only; RGT: smallest not smaller; LFT: greatest not greater"""
    @chk.task(fn)
    def _(t):
        ex = t.ex; st = t.st; tp = start(t); T_ = z3.BitVec('target', KW); t.assume(z3.And(z3.ULT(K(MIN), T_), z3.ULT(T_, K(MAX)))); q = mk_node(ex, st, 'query', T_, NULL, NULL, NULL); t.keep.add(q)
        cf = cmp_contract(t); kinds(t, ex, descent(t, 'key', T_)); nb = 'avl_next' if side == RGT else 'avl_prev'
        def neigh(ex, st, a, f, i):
            n = a[0]; t.prove(st, isnode(st, n), 'neighbour asked of a node of the tree')
            v = load(ex, st, n.obj, side); lo, hi = st.ghost[('iv', n.obj)]; b, e = (hi, MAX) if side == RGT else (lo, MIN)
            if v.obj: o = ex.new_obj(st, 'some_neighbour', 24, BZero(), 'node', hook=STALE); st.ghost['far'] = None; return Ptr(o.id, 0)
            if ex.decide(st, b == K(e)): st.ghost['far'] = 'end'; return NULL
            o = ex.new_obj(st, 'neighbour', 24, BZero(), 'node', hook=STALE); st.ghost[('key', o.id)] = b; st.ghost[('iv', o.id)] = None; st.ghost['far'] = n.obj; return Ptr(o.id, 0)
        if side: t.prog.contract(nb, neigh)
        def hole(st):
            g = st.ghost; out = []
            if peq(root_of(st, t), NULL): return [(K(MIN), K(MAX))]
            for oid, o in st.objs.items():
                if o.hook is NH and ('iv', oid) in g and g[('iv', oid)]:
                    lo, hi = g[('iv', oid)]; k = g[('key', oid)]
                    if peq(raw(st, oid, LFT), NULL): out.append((lo, k))
                    if peq(raw(st, oid, RGT), NULL): out.append((k, hi))
            return out
        def post(st, r):
            g = st.ghost; unchanged(t, st); k = g.get(('key', r.obj)) if r.obj else None
            t.prove(st, r.obj == 0 or (k is not None and r.obj != q), 'null or a node of the tree')
            if k is not None and ex.must(st, k == T_): t.prove(st, isnode(st, r), 'an exact match is the node itself'); t.cover('exact'); return
            if r.obj == 0 or not side:
                t.prove(st, r.obj == 0, 'otherwise null'); t.prove(st, z3.Or(*[z3.And(z3.ULT(l, T_), z3.ULT(T_, h), *([] if not side else [h == K(MAX) if side == RGT else l == K(MIN)])) for l, h in hole(st)] + [z3.BoolVal(False)]), 'null only if no node qualifies'); t.cover('none'); return
            t.prove(st, z3.Or(*[z3.And(z3.ULT(l, T_), z3.ULT(T_, h), (h if side == RGT else l) == k) for l, h in hole(st)] + [z3.BoolVal(False)]), 'the nearest node on that side'); t.cover('near')
        t.run(fn, [tp, Ptr(q, 0), cf], post)
search('avl_search', 0); search('avl_search_greater', RGT); search('avl_search_smaller', LFT)

# ---------------------------------------------------------------- rebalancing loops
def d16(x): return z3.ZeroExt(16, x)
def rebalance(t, mode, fixed, phase='all', ptag=None, pbf=None, where=None):
    """mode 'ins' / 'del': the subtree below the cursor has changed its height by one on the side told by bf; everything above still records the old height"""
    def facts(bf, tag, hl, hr, nzl, nzr):
        """(condition on bf, recorded balance and actual child heights; the height recorded above)"""
        b32 = lambda v: z3.BitVecVal(v & 0xffffffff, 32)
        if isint(bf): bf = b32(bf)
        rb = b32(tag - 1) if isint(tag) else z3.Extract(31, 0, tag) - 1; rng = z3.BoolVal(tag in (0, 1, 2)) if isint(tag) else z3.ULE(tag, 2); diff = d16(hr) - d16(hl) == rb + bf
        if mode == 'ins':
            leaf = z3.And(bf == b32(0), hl == hv(0), hr == hv(0), rb == b32(0))
            grown = z3.Or(z3.And(bf == b32(-1), z3.UGE(hl, hv(1)), nzl), z3.And(bf == b32(1), z3.UGE(hr, hv(1)), nzr))
            cond = z3.And(rng, z3.Or(leaf, z3.And(grown, diff)))
            old = z3.If(bf == b32(0), hv(0), hmax(z3.If(bf == b32(-1), hl - 1, hl), z3.If(bf == b32(1), hr - 1, hr)) + 1)
        else:
            cond = z3.And(rng, z3.Or(bf == b32(1), bf == b32(-1)), diff); old = hmax(z3.If(bf == b32(1), hl + 1, hl), z3.If(bf == b32(-1), hr + 1, hr)) + 1
        return cond, old
    def leaning(ex, st, v, conds):
        """height one, or left and right heights differ"""
        if isinstance(v, Ref): h, nz = st.ghost[('sub', v.id)][2], st.ghost[('sub', v.id)][5]; return z3.BoolVal(bool(nz)) if nz else h == hv(1)
        if v.obj == 0: return z3.BoolVal(False)
        par = raw(st, v.obj, PAR); tag = par.tag if isinstance(par, Ref) else par.off
        if tag in (0, 2): return z3.BoolVal(True)
        return z3.BoolVal(peq(raw(st, v.obj, LFT), NULL) and peq(raw(st, v.obj, RGT), NULL))
    def shape(ex, st, f, h):
        blk = f.fn.blocks[h]; names = [i.dst for i in blk if i.op == 'phi']; s2 = st.clone(); ex.do_phis(s2, s2.frames[-1]); vals = {n: s2.frames[-1].env[n] for n in names}
        cur = [n for n in names if isnode(st, vals[n])]; bfs = [n for n in names if not isinstance(vals[n], Ptr)]
        if not cur or len(bfs) != 1: return None
        # the cursor is the node pointer the loop starts from; others must be dead
        if len(cur) > 1: return None
        cn, bn = cur[0], bfs[0]; rest = [n for n in names if n not in (cn, bn)]
        def check(ex, st, f, vals, when):
            nm = 'rebalancing, ' + when; c = vals[cn]; bf = vals[bn]
            if peq(c, NULL): t.prove(st, False, nm + ': the cursor is a node'); return
            t.prove(st, isnode(st, c), nm + ': the cursor is a node'); n = c.obj
            if not isint(bf):
                b2 = simp(bf); bf = b2
            par = raw(st, n, PAR); tag = par.tag if isinstance(par, Ref) else par.off
            nzl, nzr = leaning(ex, st, raw(st, n, LFT), None), leaning(ex, st, raw(st, n, RGT), None)
            def dev(hl, hr, conds):
                cond, old = facts(bf, tag, hl, hr, nzl, nzr); conds.append(('the cursor\'s imbalance is what bf says', cond))
                if isint(bf): b = sx(bf, 32)
                else: b = None
                # recorded heights of the children
                if mode == 'ins': ol, orr = (z3.If(bv(bf, 32) == z3.BitVecVal(0xffffffff, 32), hl - 1, hl), z3.If(bv(bf, 32) == z3.BitVecVal(1, 32), hr - 1, hr))
                else: ol, orr = (z3.If(bv(bf, 32) == z3.BitVecVal(1, 32), hl + 1, hl), z3.If(bv(bf, 32) == z3.BitVecVal(0xffffffff, 32), hr + 1, hr))
                return ol, orr, old
            g = st.ghost; extra = g.get('added'); gone = g.get('removed'); want = oldlist(st)
            if extra and when == 'init':
                ok = total(t, ex, st, nm, insert_want(st, extra, want), {n: dev}, bst=True)
            else: total(t, ex, st, nm, [x for x in want if x != gone] if when == 'init' else want, {n: dev})
        def generic(ex, st, f):
            stale(t, st, fixed(st)); i = nid(ex); hl, hr = H('fl_%d' % i), H('fr_%d' % i); hgt(ex, st, hl); hgt(ex, st, hr)
            if phase == 'descent': raise PathEnd()
            # an arbitrary state of this shape does not depend on how the loop was reached: once is enough
            if getattr(t, 'once', False): raise PathEnd()
            t.once = True; ex.lowtags = False
            tag = ptag; bf = pbf & mask(32)
            nz = (mode == 'ins' and bf == mask(32), mode == 'ins' and bf == 1)
            cond, old = facts(bf, tag, hl, hr, z3.BoolVal(True), z3.BoolVal(True)); ex.assume(st, cond)
            n = focus(t, ex, st, tag, hl, hr, simp(old) if False else old, nz); st.ghost['generic'] = True
            c = st.ghost['top'][1]
            if where == 'root': ex.assume(st, z3.Bool('isroot_%d' % c))
            elif where: ex.assume(st, z3.And(z3.Not(z3.Bool('isroot_%d' % c)), z3.Bool('isleft_%d' % c) == (where == 'left')))
            return {cn: Ptr(n, 0), bn: bf, **{r: Ptr(0, 0xdead) for r in rest}}
        return Loop(check, [generic])
    return shape
def insert_want(st, new, want):
    """where the new node sits in the current in-order sequence (its order is proved separately)"""
    g = st.ghost
    def go(v, seen=0):
        if isinstance(v, Ref): return [('s', v.id)] if v.kind == 'Sub' else []
        if v.obj == 0: return []
        return go(raw(st, v.obj, LFT)) + [v.obj] + go(raw(st, v.obj, RGT))
    top = Ptr(g['top'][0], 0) if 'top' in g else raw(st, t_tree(st), 0)
    l = go(top)
    if l.count(new) != 1: return want + [new]
    i = l.index(new)
    return l if [x for x in l if x != new] == want else want + [new]
def t_tree(st): return next(i for i, o in st.objs.items() if o.hook is TH)
def insert_task(name, phase, tag=None, bf=None, where=None):
    @chk.task(name)
    def _(t):
        ex = t.ex; st = t.st; tp = start(t); T_ = z3.BitVec('new_key', KW); t.assume(z3.And(z3.ULT(K(MIN), T_), z3.ULT(T_, K(MAX))))
        junk = [z3.BitVec('uninitialised_%d' % i, 64) for i in range(3)]; q = mk_node(ex, st, 'new_node', T_, Ptr(0, junk[0]), Ptr(0, junk[1]), Ptr(0, junk[2])); t.keep.add(q)
        cf = cmp_contract(t); reb = rebalance(t, 'ins', lambda st: (), phase, tag, bf, where); desc = descent(t, 'key', T_, phase == 'rebalance'); t.noreturn_ok = True
        def down(ex, st, f, h): return None if touched(st, q) else desc(ex, st, f, h)
        def up(ex, st, f, h):
            if not touched(st, q): return None
            st.ghost['added'] = q; return reb(ex, st, f, h)
        kinds(t, ex, down, up)
        def post(st, r):
            g = st.ghost; want = oldlist(st)
            if not g.get('generic'):
                if r.obj != q:
                    t.prove(st, isnode(st, r), 'duplicate: the existing node is returned'); t.prove(st, g[('key', r.obj)] == T_, 'duplicate: its key is equal'); total(t, ex, st, 'duplicate: nothing changes', want); t.cover('duplicate'); return
                total(t, ex, st, 'inserted', insert_want(st, q, want), bst=True); t.prove(st, q in insert_want(st, q, want), 'inserted: the node is in the tree'); t.prove(st, r.obj == q, 'the inserted node is returned'); return
            t.prove(st, r.obj == q, 'the inserted node is returned'); total(t, ex, st, 'inserted', want); t.cover('balanced')
        t.run('avl_insert', [tp, Ptr(q, 0), cf], post)
insert_task('avl_insert: finding the place and linking', 'descent')
for _t, _b in [(1, 0)] + [(t_, b_) for t_ in (0, 1, 2) for b_ in (1, -1)]:
    for _w in ('root', 'left', 'right'): insert_task('avl_insert: rebalancing, recorded balance %d, change %d, %s' % (_t - 1, _b, _w), 'rebalance', _t, _b, _w)
def raw_parent(st, q):
    v = raw(st, q, PAR); return Ptr(v.obj, 0) if isinstance(v, Ptr) else v
def touched(st, q):
    v = raw(st, q, LFT); return isinstance(v, Ptr) and v.obj == 0 and isint(v.off) and v.off == 0

# ---------------------------------------------------------------- removal
def remove_task(name, phase, tag=None, bf=None, where=None):
    @chk.task(name)
    def _(t):
        ex = t.ex; st = t.st; tp = start(t, False); ex.lowtags = phase == 'unlink'; i = nid(ex); hl, hr = H('fl_%d' % i), H('fr_%d' % i); hgt(ex, st, hl); hgt(ex, st, hr); t.noreturn_ok = True
        t.assume(z3.And(z3.ULE(hl, hr + 1), z3.ULE(hr, hl + 1)))
        if phase != 'unlink': t.assume(hl == hr)
        tg = tag_of(ex, st, hl, hr); n = focus(t, ex, st, tg, hl, hr, hmax(hl, hr) + 1)
        if phase != 'unlink': t.assume(hl == hv(1))
        st.ghost['removed'] = n; reb = rebalance(t, 'del', lambda st: (), 'descent' if phase == 'unlink' else 'rebalance', tag, bf, where)
        def first(ex, st, a, f, i):
            """avl_first on a tree whose root is the right child: null or the last node of the left spine (contract proved above)"""
            g = st.ghost; R = ex.load(st, a[0], 8, 'ptr')
            if R.obj == 0: return NULL
            t.prove(st, isnode(st, R) and R.obj != n, 'avl_first gets a tree of this tree\'s nodes'); R = R.obj; v = raw(st, R, LFT)
            if not isinstance(v, Ref): X = v
            elif v.kind == 'Seg': return Ptr(g[('seg', v.id)]['next'], 0)
            else:
                h = g[('sub', v.id)][2]
                if ex.decide(st, h == hv(0)): X = load(ex, st, R, LFT)
                elif ex.decide(st, z3.Bool('deep_%d' % v.id)): return Ptr(spine(ex, st, R, v.id), 0)
                else: X = load(ex, st, R, LFT)
            if X.obj == 0: return Ptr(R, 0)
            y = raw(st, X.obj, LFT)
            if isinstance(y, Ref): ex.assume(st, g[('sub', y.id)][2] == hv(0))
            if load(ex, st, X.obj, LFT).obj: raise PathEnd()
            return X
        def spine(ex, st, R, s):
            """R's left subtree is a spine of unknown length ending in Q, whose left child is the first node"""
            g = st.ghost; holder, off, h, lo, hi, nz = g[('sub', s)]; hq, hqr, hn, hnr = (H('%s_%d' % (x, s)) for x in ('hq', 'hqr', 'hn', 'hnr')); kq, kn = z3.BitVec('kq_%d' % s, KW), z3.BitVec('kn_%d' % s, KW)
            for x in (hq, hqr, hn, hnr): hgt(ex, st, x)
            ex.assume(st, z3.And(hn == hnr + 1, z3.ULE(hnr, hv(1)), hq == hmax(hn, hqr) + 1, z3.ULE(hn, hqr + 1), z3.ULE(hqr, hn + 1), z3.ULE(hq, h), z3.ULT(lo, kn), z3.ULT(kn, kq), z3.ULT(kq, hi)))
            tq = tag_of(ex, st, hn, hqr); tn = tag_of(ex, st, hv(0), hnr); sid = nid(ex)
            Q = mk_node(ex, st, 'spine_end', kq, NULL, NULL, Ref('SegUp', sid, tq)); N = mk_node(ex, st, 'first_node', kn, NULL, NULL, Ptr(Q, tn)); g[('iv', Q)] = (lo, hi); g[('iv', N)] = (lo, kq)
            a = mk_sub(st, ex, N, RGT, hnr, kn, kq); b = mk_sub(st, ex, Q, RGT, hqr, kq, hi); setraw(st, Q, LFT, Ptr(N, 0)); setraw(st, R, LFT, Ref('Seg', sid))
            g[('exp', s)] = ('seg', sid, N, a, Q, b); g[('seg', sid)] = dict(holder=(R, LFT), Q=Q, hq=hq, h=h, next=N); return N
        t.prog.contract('avl_first', first); kinds(t, ex, reb)
        def post(st, r):
            g = st.ghost; want = oldlist(st)
            total(t, ex, st, 'removed', want if g.get('generic') else [x for x in want if x != n]); t.cover('end')
        t.run('avl_remove', [tp, Ptr(n, 0)], post)
remove_task('avl_remove: unlinking', 'unlink')
for _t in (0, 1, 2):
    for _b in (1, -1):
        for _w in ('root', 'left', 'right'): remove_task('avl_remove: rebalancing, recorded balance %d, change %d, %s' % (_t - 1, _b, _w), 'rebalance', _t, _b, _w)
@chk.task('avl_remove of null')
def _(t):
    tp = start(t)
    def post(st, r): unchanged(t, st)
    t.run('avl_remove', [tp, NULL], post)
if __name__ == '__main__': sys.exit(chk.main())
