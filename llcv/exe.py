"""Path-based modular symbolic executor / VC generator over LLVM IR."""
import re, time, z3
from . import ir
from .sym import *
from . import smt

class PathEnd(Exception): pass
class Throw:
    def __init__(self, ptr, tinfo): self.ptr = ptr; self.tinfo = tinfo
class Outcomes:
    """handler result: list of (cond, fn(st)->value)"""
    def __init__(self, alts): self.alts = alts

class Oblig:
    __slots__ = ('name', 'kind', 'status', 'backend', 'where', 'model', 'tainted', 'info', 'hint')
    def as_dict(self):
        return dict(name=self.name, kind=self.kind, status=self.status, backend=self.backend, where=self.where, tainted=self.tainted, info=self.info)

FP = {}
def fpuf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in FP: FP[k] = z3.Function('fp_' + name, *sorts)
    return FP[k]

class LoopCtx:
    """passed to candidate generators"""
    def __init__(self, ex, st, frame, header, phis, entry, cur, k, ivs):
        self.ex = ex; self.st = st; self.frame = frame; self.header = header
        self.phis = phis; self.entry = entry; self.cur = cur; self.k = k; self.ivs = ivs

class Exec:
    def __init__(self, prog, task, tier='quick'):
        self.prog = prog          # Program: modules + resolution
        self.task = task          # name
        self.tier = tier
        self.solver = z3.Solver(); self.solver.set('timeout', 3000)
        self.obligs = {}          # name -> Oblig (worst status kept)
        self.n_obl = 0; self.n_dis = 0; self.backends = {}
        self.handlers = []        # (predicate/regex, fn)
        self.nfresh = 0; self.nobj = 0
        self.unroll = 70; self.max_paths = 4000; self.paths = 0
        self.abstract = set(); self.assume_proved = True; self.cand_timeout = 8000; self.default_iv_only = False
        self.loop_cands = None    # fn(LoopCtx)->list of (name, formula)
        self.loop_lemmas = None
        self.loop_frame = None
        self.inlined = set(); self.externs = set(); self.contracts_used = set(); self.covered = set()
        self.addr = {}; self.globals_cache = {}
        self.dry = 0              # >0: do not record obligations (loop pre-pass)
        self.houdini = None
        self.check_mem = True
        self.prove_timeout = 20000; self.memcpy_cut = None
        self.deadline = None
        self.returns = 0
        self.trace_calls = False
        self.base_objs = {}
        self.max_depth = 40
        self.auto_inv = True; self.fork_inv = False   # fork_inv: a loop whose exit test was reached through an undetermined branch needs an invariant
        self.on_unreach = None
        self.assume_no_overflow = False
        self.uncaught = None
        self.lemma_hooks = []
        self.shape = None         # fn(ex, st, frame, header) -> ShapeLoop or None
        self.on_end = None; self.lowtags = False; self.nulltags = False
        self.max_steps = 200000

    # ---------- symbols, objects
    def fresh(self, name, w):
        self.nfresh += 1
        nm = '%s!%d' % (name, self.nfresh)
        return z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)
    def sym(self, name, w):
        return z3.Bool(name) if w == 1 else z3.BitVec(name, w)
    def new_obj(self, st, name, size, mem=None, kind='heap', ro=False, hook=None):
        self.nobj += 1
        if mem is None:
            f = z3.Function('mem_%s_%d' % (re.sub(r'\W', '_', name), self.nobj), z3.BitVecSort(64), z3.BitVecSort(8)); mem = BSym(f)
        o = Obj(self.nobj, name, size, mem, kind, ro, hook)
        st.objs[o.id] = o
        return o
    def addr_of(self, oid):
        if oid not in self.addr:
            a = z3.BitVec('addr_%d' % oid, 64); self.addr[oid] = a
        return self.addr[oid]
    def addr_facts(self, st, oid):
        key = ('addrf', oid)
        if key in st.ghost: return
        st.ghost[key] = True
        a = self.addr_of(oid); o = st.objs[oid]
        al = o.meta.get('align', 16)
        fs = [a != 0, z3.ULE(a, z3.BitVecVal(0x7fffffffffff, 64))]
        if not isint(al) or al > 1: fs.append(z3.URem(a, bv(al, 64)) == 0 if not isint(al) else (a & (al - 1)) == 0)
        for f in fs: self.assume(st, f)
    def ptr_int(self, st, p):
        if isinstance(p, FnPtr):
            return z3.BitVec('fn_' + str(p.name), 64)
        if p.obj == 0: return p.off
        if p.key is not None: return add(p.key, p.off)
        self.addr_facts(st, p.obj)
        return add(self.addr_of(p.obj), p.off)
    def int_ptr(self, st, v):
        if isint(v): return Ptr(0, v)
        v = simp(v)
        if isint(v): return Ptr(0, v)
        for oid, a in self.addr.items():
            d = simp(bv(v, 64) - a)
            if isint(d): return Ptr(oid, d)
            if not uses(d, a) and uses(v, a): return Ptr(oid, d)
        h = self.prog.int_ptr_hook
        if h:
            r = h(self, st, v)
            if r is not None: return r
        raise EngineError('int->ptr without provenance: %s' % str(v)[:80])

    # ---------- logic
    def assume(self, st, c):
        if c is True: return
        if c is False: raise PathEnd()
        c = bo(c)
        st.pc.append(c); self.solver.add(c)
    def feasible(self, st, c):
        if c is True: return True
        if c is False: return False
        c2 = simp(c)
        if isinstance(c2, bool): return c2
        self.solver.push(); self.solver.add(bo(c2)); self.solver.set('timeout', 3000)
        r = self.solver.check(); self.solver.pop()
        return r != z3.unsat
    def must(self, st, c):
        if isinstance(c, bool): return c
        c = simp(c)
        if isinstance(c, bool): return c
        self.solver.push(); self.solver.add(z3.Not(bo(c))); self.solver.set('timeout', 3000)
        r = self.solver.check(); self.solver.pop()
        return r == z3.unsat
    def decide(self, st, c):
        """True/False if determined by the path; otherwise Fork"""
        if isinstance(c, bool): return c
        c = simp(c)
        if isinstance(c, bool): return c
        t = self.feasible(st, c); f = self.feasible(st, b_not(c))
        if t and not f: return True
        if f and not t: return False
        if not t and not f: raise PathEnd()
        raise Fork(c)
    def prove(self, st, goal, name, kind='ensures', where=None, info=None):
        """record an obligation on this path"""
        if self.dry: return True
        if isinstance(goal, bool) and goal:
            st_, m, be = 'proved', None, 'const'
        else:
            g = bo(goal)
            g2 = z3.simplify(g)
            if z3.is_true(g2): st_, m, be = 'proved', None, 'simplify'
            else: st_, m, be = smt.check_valid(st.pc, g, self.solver, self.prove_timeout, self.tier)
            if st_ == 'failed' and m is None:
                pass
        self.n_obl += 1
        self.backends[be] = self.backends.get(be, 0) + 1
        if st_ == 'proved': self.n_dis += 1
        o = self.obligs.get(name)
        rank = {'proved': 0, 'unknown': 1, 'failed': 2}
        if o is None or rank[st_] > rank[o.status] or (st_ == 'failed' and o.status == 'failed' and o.tainted and not st.tainted):
            o = Oblig(); o.name = name; o.kind = kind; o.status = st_; o.backend = be; o.where = where or self.where(st); o.model = m
            o.tainted = st.tainted; o.info = info; o.hint = None
            if st_ != 'proved':
                o.info = dict(info=info, goal=str(goal)[:600], path=st.trace[-12:], model=model_str(m))
            self.obligs[name] = o
        if st_ == 'proved' and not isinstance(goal, bool) and self.assume_proved: self.assume(st, goal)
        return st_ == 'proved'
    def fail(self, st, name, kind='safety', info=None):
        """an obligation that is false on this (feasible) path"""
        return self.prove(st, False, name, kind, info=info)
    def where(self, st):
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk]
            i = b[min(f.ip, len(b) - 1)]
            ln = f.fn.mod.line(i.dbg)
            return '%s:%s' % (f.fn.mod.dem.get(f.fn.name[1:], f.fn.name), ln)
        return '?'

    # ---------- memory
    def load(self, st, p, n, want='int', chk=True):
        """want: 'int' -> int|BV(8n); 'ptr' -> Ptr"""
        if isinstance(p, FnPtr): raise EngineError('load from function pointer')
        if not isinstance(p, Ptr): raise EngineError('load from non-pointer %r' % (p,))
        o = self.deref(st, p, n, 'read') if chk else st.objs[p.obj]
        if o.hook:
            r = o.hook.load(self, st, o, p, n, want)
            if r is not None: return r
        v = self.rd(st, o.mem, p.off, n, want)
        if want == 'ptr':
            if isinstance(v, (Ptr, FnPtr)): return v
            return self.int_ptr(st, v)
        if isinstance(v, (Ptr, FnPtr)): 
            if n != 8: raise EngineError('partial pointer read')
            return self.ptr_int(st, v)
        return v
    def deref(self, st, p, n, what):
        nm = self.task + '/mem-safety'
        if p.obj == 0:
            if not isint(n) and self.must(st, eq(n, 0)): return None
            self.fail(st, nm + '/null-' + what, info='null/invalid pointer dereference')
            raise PathEnd()
        o = st.objs.get(p.obj)
        if o is None: raise EngineError('unknown object')
        if o.hook and getattr(o.hook, 'own_check', False): return o
        if not o.alive:
            self.fail(st, nm + '/use-after-free', info='access to freed %s' % o.name); raise PathEnd()
        if what == 'write' and o.ro:
            self.fail(st, nm + '/write-readonly', info='write to read-only %s' % o.name); raise PathEnd()
        if self.check_mem and o.size is not None:
            if isint(p.off) and isint(o.size) and isint(n):
                if p.off + n > o.size:
                    self.fail(st, nm + '/bounds', info='%s of %d at %d of %s size %d' % (what, n, p.off, o.name, o.size)); raise PathEnd()
            else:
                e = add(p.off, n)
                c = b_and(ule(e, o.size), ule(p.off, e))
                if isinstance(n, int) and n == 0: c = True
                elif not isint(n): c = b_or(eq(n, 0), c)
                ok = self.prove(st, c, nm + '/bounds', 'safety', info='%s %s bytes at %s of %s size %s' % (what, n, p.off, o.name, o.size))
                if not ok and not self.dry:
                    self.assume(st, c)
        return o
    def rel(self, st, off, n, woff, wn):
        """relation of read [off,off+n) to write [woff,woff+wn): ('same',0)|('dis',)|('in',delta)|('?',)"""
        d = sub(off, woff)
        if isint(d) and isint(wn) and isint(n):
            s = sx(d, 64)
            if s == 0 and n == wn: return ('same', 0)
            if s >= wn or s + n <= 0: return ('dis', 0)
            if s >= 0 and s + n <= wn: return ('in', s)
            return ('part', s)
        dis = b_or(ule(add(woff, wn), off) , ule(add(off, n), woff))
        # (offsets are < 2^63 by the object-size assumption, so the sums do not wrap)
        if self.must(st, dis): return ('dis', 0)
        if isint(n) and isint(wn) and n == wn and self.must(st, eq(off, woff)): return ('same', 0)
        inn = b_and(ule(woff, off), ule(add(off, n), add(woff, wn)))
        if self.must(st, inn): return ('insym', d)
        return ('?', d)
    def rd(self, st, node, off, n, want='int'):
        while True:
            if isinstance(node, W):
                r = self.rel(st, off, n, node.off, node.n)
                if r[0] == 'dis': node = node.parent; continue
                if r[0] == 'same': return node.val
                if r[0] == 'in':
                    if isinstance(node.val, (Ptr, FnPtr)): 
                        v = bv(self.ptr_int(st, node.val), 64)
                    else: v = node.val
                    return concat_le([byte_of(v, r[1] + i) for i in range(n)])
                if isinstance(node.val, (Ptr, FnPtr)) or want == 'ptr':
                    if n == node.n:
                        c = eq(off, node.off)
                        if self.decide(st, c): return node.val
                        if self.must(st, b_or(ule(add(node.off, node.n), off), ule(add(off, n), node.off))): node = node.parent; continue
                        raise EngineError('partial overlap with pointer')
                if n == 1 or r[0] == 'insym': break
                if isint(node.n) and n == node.n:
                    ovl = b_not(b_or(ule(add(node.off, node.n), off), ule(add(off, n), node.off)))
                    e = eq(off, node.off)
                    if not isinstance(e, bool) and self.must(st, b_or(b_not(ovl), e)):
                        a = node.val; b = self.rd(st, node.parent, off, n)
                        if isinstance(b, (Ptr, FnPtr)): b = self.ptr_int(st, b)
                        return simp(z3.If(e, bv(a, 8 * n), bv(b, 8 * n)))
                break
            elif isinstance(node, (F, C)):
                if isint(node.len) and node.len == 0: node = node.parent; continue
                r = self.rel(st, off, n, node.off, node.len)
                if r[0] == 'dis': node = node.parent; continue
                if r[0] in ('same', 'in', 'insym'):
                    if isinstance(node, F):
                        return concat_le([node.b] * n)
                    off = add(sub(off, node.off), node.soff); node = node.src; continue
                if n == 1: break
                # whole-access in or out?
                if want == 'ptr' :
                    inn = b_and(ule(node.off, off), ule(add(off, n), add(node.off, node.len)))
                    if self.decide(st, inn): continue
                    if self.must(st, b_or(ule(add(node.off, node.len), off), ule(add(off, n), node.off))): node = node.parent; continue
                    raise EngineError('partial overlap with copied pointer')
                break
            elif isinstance(node, BZero): return 0 if want != 'ptr' else NULL
            elif isinstance(node, BConst): return self.rd_const(st, node, off, n, want)
            else:
                if want == 'ptr' and not isinstance(node, BFun):
                    raise EngineError('load of unconstrained pointer')
                return concat_le([node.byte(add(off, i)) for i in range(n)])
        if n > 1:
            return concat_le([self.rd(st, node, add(off, i), 1) for i in range(n)])
        # single byte, undetermined
        if isinstance(node, W):
            d = sub(off, node.off)
            v = node.val
            if isinstance(v, (Ptr, FnPtr)): v = bv(self.ptr_int(st, v), 64)
            if self.must(st, ult(d, node.n)): rest = None
            else:
                rest = self.rd(st, node.parent, off, 1)
                rest = bv(rest, 8)
            for i in range(node.n):
                b = bv(byte_of(v, i), 8)
                rest = b if rest is None else z3.If(bv(d, 64) == i, b, rest)
            return simp(rest)
        inn = simp(b_and(ule(node.off, off), ult(sub(off, node.off), node.len)))
        if isinstance(node, F): a = bv(node.b, 8)
        else: a = bv(self.rd(st, node.src, add(sub(off, node.off), node.soff), 1), 8)
        b = bv(self.rd(st, node.parent, off, 1), 8)
        return simp(z3.If(bo(inn), a, b))
    def rd_const(self, st, node, off, n, want):
        if isint(off):
            if off in node.vals and node.vals[off][0] == n: return node.vals[off][1]
            for o2, (m, v) in node.vals.items():
                if o2 < off + n and off < o2 + m: raise EngineError('partial reloc read')
            return int.from_bytes(node.data[off:off + n], 'little')
        if want == 'ptr' or node.vals:
            for i in range(0, len(node.data) - n + 1, n):
                if self.decide(st, eq(off, i)): return self.rd_const(st, node, i, n, want)
            raise PathEnd()
        # table lookup at symbolic offset: index*stride+base
        return self.table(st, node, off, n)
    def table(self, st, node, off, n):
        """constant-table lookup; GF(2)-linear 256-entry sub-tables become xor networks (checked entry by entry)"""
        off = simp(off)
        base, idx, shift = split_off(off)
        N = len(node.data)
        if idx is not None:
            w = idx.size(); cnt = 1 << w; stride = 1 << shift
            if cnt <= 4096 and base + (cnt - 1) * stride + n <= N:
                key = (base, w, shift, n)
                if key not in node.lin:
                    T = [int.from_bytes(node.data[base + i * stride: base + i * stride + n], 'little') for i in range(cnt)]
                    lin = all(T[i] ^ T[0] == xor_all([T[1 << j] ^ T[0] for j in range(w) if (i >> j) & 1]) for i in range(cnt))
                    node.lin[key] = (T, lin)
                T, lin = node.lin[key]
                if lin:
                    r = z3.BitVecVal(T[0], 8 * n)
                    for j in range(w):
                        r = r ^ z3.If(z3.Extract(j, j, idx) == 1, z3.BitVecVal(T[1 << j] ^ T[0], 8 * n), z3.BitVecVal(0, 8 * n))
                    return r
                return ite_tree(T, idx, w, 8 * n)
        r = None
        for i in range(0, N - n + 1):
            if N > 4096: raise EngineError('large table lookup')
            v = z3.BitVecVal(int.from_bytes(node.data[i:i + n], 'little'), 8 * n)
            r = v if r is None else z3.If(off == i, v, r)
        return r
    def store(self, st, p, n, val, chk=True):
        if isinstance(p, FnPtr) or not isinstance(p, Ptr): raise EngineError('store to non-pointer')
        o = self.deref(st, p, n, 'write') if chk else st.objs[p.obj]
        if o.hook:
            if o.hook.store(self, st, o, p, n, val): return
        o = st.obj_w(p.obj)
        if st.written is not None: st.written.setdefault(p.obj, []).append((p.off, n))
        # prune exactly overwritten predecessor
        par = o.mem
        if isinstance(par, W) and isint(p.off) and isint(par.off) and par.off == p.off and par.n == n: par = par.parent
        o.mem = W(par, p.off, n, val)
    def copy(self, st, dst, src, ln, chk=True):
        if isint(ln) and ln == 0: return
        so = self.deref(st, src, ln, 'read') if chk else st.objs[src.obj]
        do = self.deref(st, dst, ln, 'write') if chk else st.objs[dst.obj]
        if so.hook or do.hook: 
            if so.hook and hasattr(so.hook, 'copy'): return so.hook.copy(self, st, dst, src, ln)
            raise EngineError('memcpy on hooked object')
        mem = so.mem
        o = st.obj_w(dst.obj)
        if st.written is not None: st.written.setdefault(dst.obj, []).append((dst.off, ln))
        o.mem = C(o.mem, dst.off, ln, mem, src.off)
    def fill(self, st, dst, b, ln, chk=True):
        if isint(ln) and ln == 0: return
        do = self.deref(st, dst, ln, 'write') if chk else st.objs[dst.obj]
        if do.hook: raise EngineError('memset on hooked object')
        o = st.obj_w(dst.obj)
        if st.written is not None: st.written.setdefault(dst.obj, []).append((dst.off, ln))
        o.mem = F(o.mem, dst.off, ln, trunc(b, 8))
    def flat(self, node):
        """byte map of the concrete writes on top of a node (first hit wins) and the node below them"""
        out = {}
        while isinstance(node, W) and isint(node.off) and isint(node.n):
            if isinstance(node.val, (Ptr, FnPtr)):
                for i in range(node.n): out.setdefault(node.off + i, None)
            else:
                for i in range(node.n):
                    if node.off + i not in out: out[node.off + i] = byte_of(node.val, i)
            node = node.parent
        return out, node
    def byte(self, st, oid, off):
        """spec-level byte read (no obligations)"""
        return self.rd(st, st.objs[oid].mem, off, 1)
    def rdv(self, st, p, n):
        """spec-level integer read"""
        v = self.rd(st, st.objs[p.obj].mem, p.off, n)
        return self.ptr_int(st, v) if isinstance(v, (Ptr, FnPtr)) else v
    def rdp(self, st, p):
        v = self.rd(st, st.objs[p.obj].mem, p.off, 8, 'ptr')
        return v if isinstance(v, (Ptr, FnPtr)) else self.int_ptr(st, v)

    # ---------- globals & constants
    def global_ptr(self, st, mod, name):
        if name in mod.funcs or name in mod.decls: return FnPtr(name)
        key = name if not is_local(mod, name) else (mod.path, name)
        if key in self.globals_cache:
            oid = self.globals_cache[key]
            if oid in st.objs: return Ptr(oid, 0)
            st.objs[oid] = self.base_objs[oid]
            return Ptr(oid, 0)
        if name not in mod.globals: raise EngineError('global? ' + name)
        m2 = mod; t, v, const = mod.global_def(name)
        if v is None:
            m2 = self.prog.global_module(name) or mod
            t, v, const = m2.global_def(name)
        if isinstance(v, tuple) and v[0] == 'alias':
            return self.const(st, m2, PTR_T, v[1])
        g = self.prog.global_hooks.get(name)
        size = m2.size(t) if t[0] not in ('meta',) and m2.rt(t)[0] != 'opaque' else None
        o = self.new_obj(st, name, size, None, 'global', ro=const)
        self.globals_cache[key] = o.id; self.base_objs[o.id] = o
        if g: g(self, st, o)
        elif v is not None and const:
            data = bytearray(size); vals = {}
            self.fill_init(st, m2, t, v, 0, data, vals)
            o.mem = BConst(bytes(data), vals)
        elif v is not None:
            # mutable global: arbitrary content (no assumption on history)
            o.mem = BSym(z3.Function('glob_' + re.sub(r'\W', '_', name), z3.BitVecSort(64), z3.BitVecSort(8)))
        return Ptr(o.id, 0)
    def fill_init(self, st, mod, t, v, off, data, vals):
        rt = mod.rt(t)
        k = v[0]
        if k in ('zero', 'undef', 'null'): return
        if k == 'int':
            n = mod.size(t); data[off:off + n] = (v[1] & mask(8 * n)).to_bytes(n, 'little'); return
        if k == 'str': data[off:off + len(v[1])] = v[1]; return
        if k == 'agg':
            for i, (tt, vv) in enumerate(v[1]):
                o = off + (mod.field_off(rt, i) if rt[0] == 'struct' else i * mod.size(rt[2]))
                self.fill_init(st, mod, tt, vv, o, data, vals)
            return
        if k in ('g', 'ce'):
            p = self.const(st, mod, t, v); vals[off] = (mod.size(t), p); return
        if k == 'fp': return
        raise EngineError('init ' + str(v)[:60])
    def const(self, st, mod, t, v):
        k = v[0]
        if k == 'int':
            return bool(v[1]) if t == ir.I1 else v[1]
        if k == 'null': return NULL
        if k == 'undef':
            rt = mod.rt(t)
            if rt[0] == 'ptr': return NULL
            if rt[0] == 'i': return self.fresh('undef', rt[1])
            if rt[0] == 'struct': return Agg([self.const(st, mod, x, v) for x in rt[1]])
            return 0
        if k == 'zero':
            rt = mod.rt(t)
            if rt[0] == 'ptr': return NULL
            if rt[0] == 'struct': return Agg([self.const(st, mod, x, v) for x in rt[1]])
            return 0
        if k == 'g': return self.global_ptr(st, mod, v[1])
        if k == 'agg': return Agg([self.const(st, mod, tt, vv) for tt, vv in v[1]])
        if k == 'fp': return z3.BitVec('fpc_%s' % v[1], t[1])
        if k == 'ce':
            op = v[1]
            if op == 'getelementptr':
                ops = v[3]; base = self.const(st, mod, *ops[0])
                return self.gep(st, mod, v[2], base, [(tt, self.const(st, mod, tt, vv)) for tt, vv in ops[1:]])
            if op in ('bitcast', 'addrspacecast'): return self.const(st, mod, *v[2])
            if op == 'ptrtoint':
                p = self.const(st, mod, *v[2]); return trunc(self.ptr_int(st, p), v[3][1])
            if op == 'inttoptr': return self.int_ptr(st, self.const(st, mod, *v[2]))
            if op in ('sub', 'add'):
                a = self.const(st, mod, *v[2][0]); b = self.const(st, mod, *v[2][1])
                return (sub if op == 'sub' else add)(a, b, v[2][0][0][1])
            if op == 'icmp':
                return self.icmp(st, v[2], v[3][0][0], self.const(st, mod, *v[3][0]), self.const(st, mod, *v[3][1]))
        raise EngineError('const ' + str(v)[:80])
    def val(self, st, f, t, v):
        if v[0] == 'l':
            try: return f.env[v[1]]
            except KeyError: raise EngineError('undefined ' + v[1])
        return self.const(st, f.fn.mod, t, v)
    def gep(self, st, mod, t, base, idx):
        p = base
        if isinstance(p, FnPtr): return p
        if not isinstance(p, Ptr): raise EngineError('gep base %r' % (p,))
        i0t, i0 = idx[0]
        off = 0
        d = self.idx64(i0t, i0)
        off = mul(d, mod.size(t)) if not (isint(d) and d == 0) else 0
        cur = t
        for it, iv in idx[1:]:
            r = mod.rt(cur)
            if r[0] == 'struct':
                off = add(off, mod.field_off(r, iv)); cur = r[1][iv]
            elif r[0] in ('arr', 'vec'):
                off = add(off, mul(self.idx64(it, iv), mod.size(r[2]))); cur = r[2]
            else: raise EngineError('gep into %s' % (r,))
        return p.add(off) if not (isint(off) and off == 0) else p
    def idx64(self, t, v):
        w = t[1]
        if isint(v): return sx(v, w) & mask(64)
        if isinstance(v, bool): v = int(v)
        return v if w == 64 else simp(z3.SignExt(64 - w, v)) if w < 64 else simp(z3.Extract(63, 0, v))

    # ---------- operations
    def binop(self, st, op, w, a, b, flags=()):
        if isinstance(a, (Ptr, FnPtr)): a = self.ptr_int(st, a)
        if isinstance(b, (Ptr, FnPtr)): b = self.ptr_int(st, b)
        if w == 1:
            if op == 'and': return b_and(a, b)
            if op == 'or': return b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                if b is True: return b_not(a)
                if a is True: return b_not(b)
                return simp(z3.Xor(bo(a), bo(b)))
            raise EngineError('i1 ' + op)
        if isint(a) and isint(b):
            M = mask(w)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sx(a, w) >> min(b, w - 1)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.fail(st, self.task + '/div-zero'); raise PathEnd()
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op in ('sdiv', 'srem'):
                x, y = sx(a, w), sx(b, w); q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                return (q if op == 'sdiv' else x - q * y) & M
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            nz = b_not(eq(b, 0, w))
            if not self.must(st, nz):
                self.prove(st, nz, self.task + '/div-zero', 'safety')
                self.assume(st, nz)
        if w == 64 and op in ('and', 'or'):
            r = self.tagged(st, op, a, b) if isint(b) else self.tagged(st, op, b, a) if isint(a) else None
            if r is not None: return r
            if op == 'or' and self.addr and not isint(a) and not isint(b):
                for x, y in ((a, b), (b, a)):
                    if any(x.eq(ad) for ad in self.addr.values()) and self.must(st, z3.ULE(y, 3)): return simp(x + y)
        A, B = bv(a, w), bv(b, w)
        if op in self.abstract and not (isint(a) or (isint(b) and op == 'mul')):
            # machine operation as an uninterpreted function with the facts used
            r = fpuf('i' + op, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))(A, B)
            if op == 'urem': self.assume(st, z3.And(z3.ULT(r, B), z3.ULE(r, A)))
            return r
        if op in ('udiv', 'sdiv') and isint(b) and 1 < b < (1 << 20) and w == 64:
            y = factor(A, b)
            if y is not None and self.must(st, ult(y, (1 << 62) // b)): return y
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        elif op[0] == 'f': return fpuf(op, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))(A, B)
        else: raise EngineError(op)
        return simp(r)
    def tagged(self, st, op, a, m):
        """low tag bits of an object's address (objects are at least 4-aligned)"""
        if m not in (0, 1, 2, 3, mask(64) - 3) or not self.addr: return None
        for oid, ad in self.addr.items():
            if not uses(a, ad): continue
            d = simp(bv(a, 64) - ad)
            o = st.objs.get(oid)
            if o is None or (isint(o.meta.get('align', 16)) and o.meta.get('align', 16) < 4): return None
            if not isint(d):
                if uses(d, ad) or op != 'and' or m < 3 or not self.must(st, z3.ULE(d, 3)): return None
                return ad if m > 3 else d
            if d > 3: return None
            if op == 'and': return d & m if m <= 3 else simp(ad + (d & m))
            return simp(ad + (d | m)) if m <= 3 else None
        if op == 'and' and m > 3 and self.nulltags and self.must(st, z3.ULE(bv(a, 64), 3)): return 0
        return None
    def icmp(self, st, pr, t, a, b):
        if t[0] == 'ptr':
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if pr not in ('eq', 'ne'): raise EngineError('fnptr order')
                if isinstance(a, FnPtr) and isinstance(b, FnPtr): e = (a.name == b.name and a.virt == b.virt)
                else:
                    e = False
                return e if pr == 'eq' else not e
            if pr in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                return e if pr == 'eq' else b_not(e)
            if a.obj == b.obj and a.key is None and b.key is None:
                a, b = a.off, b.off
            else: a, b = self.ptr_int(st, a), self.ptr_int(st, b)
            w = 64
        else: w = t[1]
        if isinstance(a, (Ptr, FnPtr)): a = self.ptr_int(st, a)
        if isinstance(b, (Ptr, FnPtr)): b = self.ptr_int(st, b)
        if w == 1:
            if pr == 'eq' or pr == 'ne':
                if isinstance(a, bool) and isinstance(b, bool): e = a == b
                else: e = simp(bo(a) == bo(b))
                return e if pr == 'eq' else b_not(e)
            a = bv(a, 1); b = bv(b, 1)
        if isint(a) and isint(b):
            if pr[0] == 's': a, b = sx(a, w), sx(b, w)
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr if len(pr) == 2 else pr[1:]]
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B),
             'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[pr]()
        return simp(r)
    def ptr_eq(self, st, a, b):
        if a.key is not None or b.key is not None:
            ka = a.key if a.key is not None else (0 if a.obj == 0 and isint(a.off) and a.off == 0 else None)
            kb = b.key if b.key is not None else (0 if b.obj == 0 and isint(b.off) and b.off == 0 else None)
            if ka is None or kb is None: return False
            if a.key is not None and b.key is not None and a.obj != b.obj:
                return b_and(eq(ka, 0), eq(kb, 0))
            if a.key is not None and b.key is not None:
                return b_and(eq(ka, kb), eq(a.off, b.off))
            p = a if a.key is not None else b
            if not isint(p.off) or p.off != 0: return False
            return eq(ka, kb)
        if a.obj == b.obj: return eq(a.off, b.off)
        return False
    def cast(self, st, op, t, v, t2, mod):
        if op in ('bitcast', 'addrspacecast'): return v
        if op == 'ptrtoint':
            x = self.ptr_int(st, v); return trunc(x, t2[1]) if t2[1] < 64 else x
        if op == 'inttoptr':
            return self.int_ptr(st, v)
        if op in ('trunc', 'zext', 'sext'):
            w0, w1 = t[1], t2[1]
            if isinstance(v, (Ptr, FnPtr)): v = self.ptr_int(st, v)
            if op == 'trunc':
                if isint(v): return bool(v & 1) if w1 == 1 else v & mask(w1)
                if w1 == 1: return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(w1 - 1, 0, v))
            if w0 == 1:
                if isinstance(v, bool): return (mask(w1) if op == 'sext' else 1) if v else 0
                one = z3.BitVecVal(mask(w1) if op == 'sext' else 1, w1)
                return z3.If(bo(v), one, z3.BitVecVal(0, w1))
            if isint(v): return v if op == 'zext' else sx(v, w0) & mask(w1)
            return simp(z3.ZeroExt(w1 - w0, v) if op == 'zext' else z3.SignExt(w1 - w0, v))
        # fp
        w0 = t[1]; w1 = t2[1]
        return fpuf(op + '_%d_%d' % (w0, w1), z3.BitVecSort(w0), z3.BitVecSort(w1))(bv(v, w0))

    # ---------- driving
    def start(self, st, fn, args, onret=None):
        fn.parse()
        f = Frame(); f.fn = fn; f.blk = fn.entry; f.prev = None; f.ip = 0; f.env = {}; f.allocas = []; f.dst = None; f.call = None; f.loops = {}; f.onret = onret
        for (t, nm), a in zip(fn.params, args):
            if t[0] == 'i' and t[1] == 1 and isint(a): a = bool(a)
            f.env[nm] = a
        st.frames.append(f)
    def run(self, st, on_end):
        """explore all paths from st; on_end(st, ret) at top-level return; solver scope is managed by the caller"""
        while True:
            self.on_end = on_end
            if self.deadline and time.time() > self.deadline: raise EngineError('time limit')
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk][f.ip]
            st.steps += 1
            if st.steps > self.max_steps: raise EngineError('step limit')
            try:
                alts = self.step(st, f, ins)
            except Fork as fk:
                alts = [(fk.cond, None), (b_not(fk.cond), None)]
            except PathEnd:
                self.paths += 1; return
            if alts is None: continue
            if isinstance(alts, tuple) and alts[0] == 'end':
                self.paths += 1
                try: on_end(st, alts[1])
                except PathEnd: pass
                return
            live = [(c, act) for c, act in alts if self.feasible(st, c)]
            if not live: return
            if len(live) == 1:
                c, act = live[0]
                try:
                    self.assume(st, simp(c) if not isinstance(c, bool) else c)
                    if act and act(st) == 'end': return
                except PathEnd: return
                continue
            if self.paths > self.max_paths: raise EngineError('path limit')
            for c, act in live:
                s2 = st.clone()
                self.solver.push()
                try:
                    try:
                        self.assume(s2, c)
                        s2.trace.append(self.where(st) )
                        if act and act(s2) == 'end': continue
                        self.run(s2, on_end)
                    except PathEnd: self.paths += 1
                finally:
                    self.solver.pop()
            return

    def jump(self, st, f, target):
        """enter block target: loop handling, phis"""
        src = f.blk
        # leaving loops
        if f.loops:
            for h in list(f.loops):
                if target not in f.fn.loops[h]: del f.loops[h]
        f.prev = src; f.blk = target; f.ip = 0
        if target in f.fn.loops:
            r = self.loop_enter(st, f, target, src)
            if r is not None: return r
        self.do_phis(st, f)
        return None
    def do_phis(self, st, f):
        blk = f.fn.blocks[f.blk]; vals = []
        i = 0
        while i < len(blk) and blk[i].op == 'phi':
            t, inc = blk[i].a
            for v, b in inc:
                if b == f.prev: vals.append((blk[i].dst, self.val(st, f, t, v))); break
            else: raise EngineError('phi edge')
            i += 1
        for d, v in vals: f.env[d] = v
        f.ip = i
    def loop_enter(self, st, f, h, src):
        info = f.loops.get(h)
        if info is None:
            sp = self.shape(self, st, f, h) if self.shape else None
            if sp is not None: return self.shape_inv(st, f, h, sp)
            mode = self.loop_mode(st, f, h)
            if mode == 'inv':
                return self.loop_inv(st, f, h)
            f.loops[h] = ('unroll', 1)
            return None
        if info[0] == 'unroll':
            n = info[1] + 1
            if n > self.unroll: 
                raise EngineError('unroll limit in %s' % self.where(st))
            # the exit condition was determined so far; from here on it may not be
            if n > 1 and self.auto_inv and self.loop_mode(st, f, h) == 'inv':
                return self.loop_inv(st, f, h)
            f.loops[h] = ('unroll', n)
            return None
        # inv mode: back edge
        return info[1](st, f)

    def shape_inv(self, st, f, h, sp):
        """loop rule with a structural invariant: sp.check proves it (at entry and at every back edge), sp.generic lists the ways to build an arbitrary state satisfying it"""
        def phis(): return [i.dst for i in f.fn.blocks[h] if i.op == 'phi']
        names = phis(); self.do_phis(st, f)
        sp.check(self, st, f, {n: f.env[n] for n in names}, 'init')
        on_end = self.on_end
        def onback(s2, g2):
            self.do_phis(s2, g2); sp.check(self, s2, g2, {n: g2.env[n] for n in names}, 'preserved'); return ('cut',)
        def go(alt, base):
            save = self.nfresh
            s2 = base.clone(); g = s2.frames[-1]; self.solver.push()
            try:
                try:
                    try: vals = alt(self, s2, g)
                    except Fork as fk: vals = fk
                    if not isinstance(vals, Fork):
                        for n in names:
                            if n not in vals: raise EngineError('structural loop: no value for ' + n)
                            g.env[n] = vals[n]
                        g.loops[h] = ('inv', onback); s2.tainted = False
                        self.run(s2, on_end); return
                except PathEnd: self.paths += 1; return
            finally: self.solver.pop()
            # the arbitrary state splits into cases: redo it under each (same symbol names)
            for c in (vals.cond, b_not(vals.cond)):
                s3 = base.clone(); self.nfresh = save; self.solver.push()
                try:
                    try: self.assume(s3, c)
                    except PathEnd: continue
                    go(alt, s3)
                finally: self.solver.pop()
        for alt in sp.generic: go(alt, st)
        self.on_end = on_end
        return ('cut',)
    def loop_mode(self, st, f, h):
        """'inv' iff leaving/continuing the loop is undetermined at the first visit"""
        if not self.auto_inv: return 'unroll'
        s2 = st.clone(); g = s2.frames[-1]
        body = g.fn.loops[h]
        depth = len(s2.frames); forked = False
        self.solver.push(); self.dry += 1
        try:
            try: self.do_phis(s2, g)
            except EngineError: return 'unroll'
            for _ in range(3000):
                g = s2.frames[-1]
                ins = g.fn.blocks[g.blk][g.ip]
                if len(s2.frames) == depth and ins.op in ('condbr', 'switch'):
                    outs = [x for x in g.fn.succs(g.blk) if x not in body]
                    if outs and len(outs) < len(set(g.fn.succs(g.blk))):
                        c = self.val(s2, g, *ins.a[0])
                        if isinstance(c, bool) or isint(c): return 'unroll' if not forked and self.unroll_ok(st, f, h) else 'inv'
                        if ins.op == 'condbr':
                            t = self.feasible(s2, c); n = self.feasible(s2, b_not(c))
                            if t != n: 
                                # determined by the path condition
                                return 'unroll' if self.unroll_sym(st, f, h) else 'inv'
                        return 'inv'
                try: alts = self.step(s2, g, ins, probe=h)
                except Fork as fk: alts = [(fk.cond, None), (b_not(fk.cond), None)]
                except PathEnd: return 'inv'
                if alts is None: continue
                if isinstance(alts, tuple): return 'inv'
                ok = False
                if self.fork_inv and len(alts) > 1 and sum(1 for c, _ in alts if self.feasible(s2, c)) > 1: forked = True
                for c, act in alts:
                    if self.feasible(s2, c):
                        self.assume(s2, c)
                        if act and act(s2) == 'end': return 'inv'
                        ok = True; break
                if not ok: return 'inv'
            return 'inv'
        finally:
            self.dry -= 1; self.solver.pop()
    def unroll_ok(self, st, f, h):
        return True
    def unroll_sym(self, st, f, h):
        return True

    # ---- loop invariants: automatic induction variables + Houdini over candidate facts
    def loop_inv(self, st, f, h):
        blk = f.fn.blocks[h]
        phis = [i for i in blk if i.op == 'phi']
        entry = {}
        for i in phis:
            t, inc = i.a
            for v, b in inc:
                if b == f.prev: entry[i.dst] = (t, self.val(st, f, t, v))
        depth = len(st.frames)
        self.nfresh += 1; tag = self.nfresh
        k = z3.BitVec('k!%d' % tag, 64)
        def havoc(base, ivs, memobjs):
            s = base.clone(); g = s.frames[-1]
            cur = {}
            for d, (t, v) in entry.items():
                if d in ivs:
                    c = ivs[d]
                    if t[0] == 'ptr': nv = v.add(mul(k, c))
                    else:
                        w = t[1]
                        kk = trunc(k, w) if w < 64 else k
                        nv = simp(bv(v, w) + bv(kk, w) * z3.BitVecVal(c & mask(w), w))
                elif t[0] == 'ptr':
                    if isinstance(v, Ptr) and v.obj != 0 and v.key is None: nv = Ptr(v.obj, self.fresh('hp', 64))
                    elif isinstance(v, Ptr) and v.key is not None: nv = Ptr(v.obj, 0, self.fresh('hk', 64))
                    else:
                        # a pointer without an object (null): assumed unchanged here, checked on every back edge
                        if not (isinstance(v, Ptr) and v.obj == 0 and isint(v.off)): raise EngineError('loop-carried pointer')
                        nv = v
                elif t[0] == 'i': nv = self.fresh('h', t[1])
                else: raise EngineError('loop-carried %s' % (t,))
                g.env[d] = nv; cur[d] = nv
            for oid, ranges in memobjs.items():
                o = s.obj_w(oid)
                if o.hook and hasattr(o.hook, 'havoc'): o.hook.havoc(self, s, o)
                else: self.havoc_obj(s, o, ranges)
            g.ip = len(phis); g.blk = h
            s.tainted = True
            return s, cur
        def back_vals(s, g):
            out = {}
            for i in phis:
                t, inc = i.a
                for v, b in inc:
                    if b == g.prev: out[i.dst] = self.val(s, g, t, v); break
            for d, (t, v) in entry.items():
                if t[0] == 'ptr' and isinstance(v, Ptr) and v.obj == 0 and not (isinstance(out[d], Ptr) and out[d].obj == 0 and out[d].key is None and isint(out[d].off) and out[d].off == v.off): raise EngineError('loop-carried pointer')
            return out
        def explore(s0, assume, onback, full):
            """run the body once from havoced state"""
            for c in assume: self.assume(s0, c)
            g = s0.frames[-1]
            g.loops[h] = ('inv', onback)
            return s0
        # pass 1: written objects + induction variables
        ivs = {}; written = {}; steps = {}
        self.dry += 1
        try:
            prev = None
            for _round in range(8):
                self.solver.push()
                try:
                    s, cur = havoc(st, {}, written)
                    s.written = {}
                    steps = {d: set() for d in entry}
                    wr = {}
                    def onback(s2, g2):
                        nv = back_vals(s2, g2)
                        for d, v in nv.items():
                            t = entry[d][0]; c0 = cur[d]
                            if t[0] == 'ptr':
                                if isinstance(v, Ptr) and isinstance(c0, Ptr) and v.obj == c0.obj and v.key is None and c0.key is None: dd = sub(v.off, c0.off)
                                else: dd = None
                            else: dd = sub(v, c0, t[1]) if t[1] > 1 else None
                            steps[d].add(dd if isint(dd) else None)
                        for o, rg in s2.written.items(): wr.setdefault(o, []).extend(rg)
                        return ('cut',)
                    s.frames[-1].loops[h] = ('inv', onback)
                    self.cut_on_exit = getattr(self, 'cut_on_exit', None)
                    self.run_body(s, h, depth, lambda s2: [wr.setdefault(o, []).extend(rg) for o, rg in s2.written.items()])
                finally: self.solver.pop()
                nw = {}
                for o, rg in wr.items():
                    if o not in st.objs: continue
                    # constant write positions: only those bytes are havoced; otherwise the whole object
                    nw[o] = tuple(sorted(set(rg))) if all(isint(a) and isint(b) for a, b in rg) else None
                stable = True
                for o, rg in nw.items():
                    if o not in written: written[o] = rg; stable = False
                    elif written[o] is not None and (rg is None or not set(rg) <= set(written[o])):
                        written[o] = None if rg is None else tuple(sorted(set(rg) | set(written[o]))); stable = False
                if stable: break
            else: raise EngineError('loop frame does not stabilise')
            if not any(steps.values()):
                # no back edge feasible: the loop runs at most once
                pass
            for d, ss in steps.items():
                if len(ss) == 1:
                    c = next(iter(ss))
                    if c is not None: ivs[d] = c
        finally: self.dry -= 1
        names = [i.dst for i in phis]; st_entry = st.clone()
        # pass 2: Houdini
        self.dry += 1
        try:
            self.solver.push()
            try:
                s0, cur0 = havoc(st, ivs, written)
                mem_after = {o: s0.objs[o].mem for o in written if not s0.objs[o].hook}
                hook_after = {o: dict(s0.objs[o].meta) for o in written if s0.objs[o].hook}
            finally: self.solver.pop()
            def mkctx(s, cur): 
                return LoopCtx(self, s, f, h, names, entry, cur, k, ivs)
            def cands_at(s, cur, kv):
                cx = mkctx(s, cur); cx.k = kv; cx.st0 = st_entry
                out = []
                out += self.default_cands(cx)
                if self.loop_cands: out += list(self.loop_cands(cx))
                return out
            # entry
            ent = {d: v for d, (t, v) in entry.items()}
            c_entry = cands_at(st, ent, 0)
            alive = {}
            for nm, fm in c_entry:
                ok = True if fm is True else (False if fm is False else self.valid(st, fm))
                alive[nm] = ok
            while True:
                drop = set()
                self.solver.push()
                try:
                    s = s0.clone()
                    ch = cands_at(s, cur0, k)
                    lem = self.loop_lemmas(mkctx_k(mkctx(s, cur0), k, st)) if self.loop_lemmas else []
                    for c in lem: self.assume(s, c)
                    bad = False
                    for nm, fm in ch:
                        if alive.get(nm): 
                            if fm is False: bad = True
                            elif fm is not True: self.assume(s, fm)
                    def onback2(s2, g2):
                        nv = back_vals(s2, g2)
                        cb = cands_at(s2, nv, add(k, 1))
                        for nm, fm in cb:
                            if alive.get(nm) and nm not in drop:
                                if fm is True: continue
                                if fm is False or not self.valid(s2, fm): drop.add(nm)
                        got = {nm for nm, _ in cb}
                        for nm in alive:
                            if alive[nm] and nm not in got: drop.add(nm)
                        return ('cut',)
                    s.frames[-1].loops[h] = ('inv', onback2)
                    if not bad: self.run_body(s, h, depth, None)
                finally: self.solver.pop()
                if not drop: break
                for d in drop: alive[d] = False
        finally: self.dry -= 1
        # final: record the invariants as obligations (init + preservation), then continue with the body and the exits
        lname = '%s/loop@%s' % (self.task, f.fn.mod.dem.get(f.fn.name[1:], f.fn.name))
        for nm, fm in c_entry:
            if alive.get(nm): self.prove(st, fm, lname + '/init:' + nm, 'loop-init')
        self.loop_report = getattr(self, 'loop_report', [])
        if not self.dry:
            self.loop_report.append((lname, sorted(n for n in alive if alive[n]), {d: c for d, c in ivs.items()}, sorted(n for n in alive if not alive[n])))
        s = s0.clone()
        s.trace = list(st.trace); s.steps = st.steps
        # replace st's content by s
        def adopt():
            st.frames = s.frames; st.objs = s.objs; st.pc = list(st.pc) ; st.tainted = True; st.ghost = s.ghost
            # writes inside this loop count for an enclosing loop's frame
            if st.written is not None:
                for o in written: st.written.setdefault(o, []).extend([(None, None)] if written[o] is None else written[o])
        adopt()
        cx = mkctx(st, cur0)
        if self.loop_lemmas:
            for c in self.loop_lemmas(mkctx_k(cx, k, st)): self.assume(st, c)
        for nm, fm in cands_at(st, cur0, k):
            if alive.get(nm) and fm is not True: self.assume(st, fm)
        def onback3(s2, g2):
            nv = back_vals(s2, g2)
            for nm, fm in cands_at(s2, nv, add(k, 1)):
                if alive.get(nm): self.prove(s2, fm, lname + '/preserved:' + nm, 'loop-preserved')
            return ('cut',)
        st.frames[-1].loops[h] = ('inv', onback3)
        return ('looped',)
    def havoc_obj(self, s, o, ranges):
        self.nfresh += 1
        fr = self.loop_frame(self, s, o) if self.loop_frame else None
        fn = z3.Function('hv_%s_%d' % (re.sub(r'\W', '_', o.name), self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8))
        if fr is None and ranges is not None:
            for lo, n in ranges: o.mem = W(o.mem, lo, n, self.fresh('hv_' + re.sub(r'\W', '_', o.name)[-24:], 8 * n)) if n <= 16 else C(o.mem, lo, n, BSym(fn), lo)
        elif fr is None: o.mem = BSym(fn)
        else:
            lo, ln = fr; o.mem = C(o.mem, lo, ln, BSym(fn), lo)
    def generalise(self, st, term, facts, name='cut'):
        """replace a term in the registers of the current frame by a fresh variable of which only the (proved) facts are known: forgets, never adds"""
        if not z3.is_expr(term) or z3.is_bv_value(term) or z3.is_const(term): return None
        if not self.valid(st, b_and(*facts(term))): return None
        v = self.fresh(name, term.size())
        self.assume(st, bo(b_and(*facts(v))))
        env = st.frames[-1].env
        for k, e in env.items():
            if z3.is_expr(e): env[k] = z3.substitute(e, (term, v))
            elif isinstance(e, Ptr) and z3.is_expr(e.off): env[k] = Ptr(e.obj, z3.substitute(e.off, (term, v)))
        return v
    def valid(self, st, fm):
        r, m, b = smt.check_valid(st.pc, bo(fm), self.solver, self.cand_timeout, self.tier, cli=self.cand_timeout >= 4000)
        return r == 'proved'
    def default_cands(self, cx):
        """facts about induction variables: they do not pass their entry value / zero"""
        out = []
        for d in cx.phis:
            t, v0 = cx.entry[d]
            v = cx.cur[d]
            if t[0] == 'i' and t[1] > 1:
                w = t[1]
                nmi = cx.phis.index(d)
                if self.default_iv_only and d not in cx.ivs: continue
                out.append(('phi%d<=entry' % nmi, ule(v, v0, w)))
                out.append(('phi%d>=entry' % nmi, ule(v0, v, w)))
                out.append(('phi%d>=0s' % nmi, simp(bv(v, w) >= 0)))
                out.append(('phi%d<=0s' % nmi, simp(bv(v, w) <= 0)))
                out.append(('phi%d!=0' % nmi, b_not(eq(v, 0, w))))
                c = cx.ivs.get(d)
                if c is not None:
                    s = sx(c, w)
                    if s < 0:
                        # decreasing: k*|s| <= entry
                        kk = trunc(cx.k, w) if w < 64 else cx.k
                        m_ = simp(bv(kk, w) * z3.BitVecVal(-s, w)) if not isint(kk) else (kk * -s) & mask(w)
                        out.append(('phi%d:k*step<=entry' % nmi, b_and(ule(m_, v0, w), ule(cx.k, simp(z3.ZeroExt(64 - w, bv(v0, w))) if w < 64 else v0))))
                        if s < -1: out.append(('phi%d:k<=entry/step' % nmi, ule(cx.k, simp(z3.UDiv(z3.ZeroExt(64 - w, bv(v0, w)) if w < 64 else bv(v0, w), z3.BitVecVal(-s, 64))))))
        return out
    def run_body(self, s, h, depth, onexit):
        """explore one iteration; paths leaving the loop are cut"""
        self.paths_saved = self.paths
        body = s.frames[-1].fn.loops[h]
        old = getattr(self, 'exit_guard', None)
        self.exit_guard = (h, depth, body, onexit, old)
        try:
            self.run(s, lambda st, r: onexit(st) if onexit else None)
        finally: self.exit_guard = old

    # ---------- instructions
    def step(self, st, f, ins, probe=None):
        op = ins.op; a = ins.a
        if op == 'br':
            f.ip += 1
            return self.goto(st, f, a[0], probe)
        if op == 'condbr':
            c = self.val(st, f, *a[0])
            if isinstance(c, bool) or isint(c): return self.goto(st, f, a[1] if c else a[2], probe)
            if a[1] == a[2]: return self.goto(st, f, a[1], probe)
            def mk(t):
                def act(s):
                    r = self.goto(s, s.frames[-1], t, probe)
                    if r is not None:
                        return 'end' if r[0] == 'cut' else None
                return act
            return [(c, mk(a[1])), (b_not(c), mk(a[2]))]
        if op == 'switch':
            (t, v), d, cs = a
            c = self.val(st, f, t, v)
            if isinstance(c, bool): c = int(c)
            if isint(c):
                for cv, l in cs:
                    if cv == c: return self.goto(st, f, l, probe)
                return self.goto(st, f, d, probe)
            def mk2(t_):
                def act(s):
                    r = self.goto(s, s.frames[-1], t_, probe)
                    if r is not None and r[0] == 'cut': return 'end'
                return act
            alts = [(eq(c, cv, t[1]), mk2(l)) for cv, l in cs]
            alts.append((b_and(*[b_not(eq(c, cv, t[1])) for cv, _ in cs]), mk2(d)))
            return alts
        if op == 'ret':
            v = None if a is None else self.val(st, f, *a)
            return self.do_ret(st, f, v)
        if op == 'call' or op == 'invoke':
            return self.do_call(st, f, ins)
        if op == 'unreachable':
            if self.on_unreach: self.on_unreach(st)
            raise PathEnd()
        if op == 'resume':
            return self.unwind(st)
        v = self.compute(st, f, ins, op, a)
        if ins.dst is not None: f.env[ins.dst] = v
        f.ip += 1
        return None
    def goto(self, st, f, target, probe=None):
        g = getattr(self, 'exit_guard', None)
        if g and len(st.frames) == g[1] and target not in g[2] and f.fn.loops.get(g[0]) is g[2]:
            if g[3]: g[3](st)
            raise PathEnd()
        r = self.jump(st, f, target)
        if r is not None and r[0] == 'cut': raise PathEnd()
        return None
    def compute(self, st, f, ins, op, a):
        mod = f.fn.mod
        if op == 'bin':
            o, t, x, y, fl = a
            if t[0] == 'vec': raise EngineError('vector op')
            return self.binop(st, o, t[1], self.val(st, f, t, x), self.val(st, f, t, y), fl)
        if op == 'icmp':
            pr, t, x, y = a
            return self.icmp(st, pr, t, self.val(st, f, t, x), self.val(st, f, t, y))
        if op == 'load':
            t, (pt, pv), at = a
            p = self.val(st, f, pt, pv)
            return self.load_t(st, mod, t, p)
        if op == 'store':
            (t, v), (pt, pv), at = a
            p = self.val(st, f, pt, pv)
            self.store_t(st, mod, t, p, self.val(st, f, t, v)); return None
        if op == 'gep':
            t, ops = a
            return self.gep(st, mod, t, self.val(st, f, *ops[0]), [(tt, self.val(st, f, tt, vv)) for tt, vv in ops[1:]])
        if op == 'cast':
            o, t, v, t2 = a
            return self.cast(st, o, t, self.val(st, f, t, v), t2, mod)
        if op == 'alloca':
            t, n = a
            cnt = 1 if n is None else self.val(st, f, *n)
            o = self.new_obj(st, 'stk:%s%s' % (f.fn.name[1:30], ins.dst), mul(cnt, mod.size(t)), None, 'stack')
            f.allocas.append(o.id)
            return Ptr(o.id, 0)
        if op == 'select':
            (ct, cv), (xt, xv), (yt, yv) = a
            c = self.val(st, f, ct, cv); x = self.val(st, f, xt, xv); y = self.val(st, f, yt, yv)
            if isinstance(c, bool): return x if c else y
            if isinstance(x, (Ptr, FnPtr, Agg)) or isinstance(y, (Ptr, FnPtr, Agg)):
                return x if self.decide(st, c) else y
            if xt == ir.I1: return simp(z3.If(bo(c), bo(x), bo(y)))
            return simp(z3.If(bo(c), bv(x, xt[1]), bv(y, xt[1])))
        if op == 'extractvalue':
            (t, v), ix = a; x = self.val(st, f, t, v)
            for i in ix: x = x.v[i]
            return x
        if op == 'insertvalue':
            (t, v), (t2, v2), ix = a
            x = self.val(st, f, t, v); y = self.val(st, f, t2, v2)
            def ins_(x, ix, rt):
                l = list(x.v)
                l[ix[0]] = y if len(ix) == 1 else ins_(l[ix[0]], ix[1:], None)
                return Agg(l)
            return ins_(x, ix, None)
        if op == 'cmpxchg':
            p = self.val(st, f, *a[0]); e = self.val(st, f, *a[1]); n = self.val(st, f, *a[2]); t = a[1][0]
            old = self.load_t(st, mod, t, p)
            c = self.icmp(st, 'eq', t, old, e)
            if isinstance(c, bool): s_ = c
            else: s_ = self.decide(st, c)
            if s_: self.store_t(st, mod, t, p, n)
            return Agg([old, s_])
        if op == 'atomicrmw':
            o, (pt, pv), (t, v) = a
            p = self.val(st, f, pt, pv); x = self.val(st, f, t, v)
            old = self.load_t(st, mod, t, p)
            if o == 'xchg': nv = x
            elif o in ('add', 'sub', 'and', 'or', 'xor'): nv = self.binop(st, o, t[1], old, x)
            else: raise EngineError('atomicrmw ' + o)
            self.store_t(st, mod, t, p, nv)
            return old
        if op == 'fence': return None
        if op == 'freeze': return self.val(st, f, *a)
        if op == 'landingpad':
            ptr, sel = st.ghost.pop('lpad')
            return Agg([ptr, sel])
        if op == 'fneg':
            t, v = a; w = t[1]; return fpuf('neg', z3.BitVecSort(w), z3.BitVecSort(w))(bv(self.val(st, f, t, v), w))
        if op == 'fcmp':
            pr, t, x, y = a; w = t[1]
            return fpuf('cmp_' + pr, z3.BitVecSort(w), z3.BitVecSort(w), z3.BoolSort())(bv(self.val(st, f, t, x), w), bv(self.val(st, f, t, y), w))
        if op == 'phi': raise EngineError('phi out of place')
        raise EngineError('unsupported instruction: ' + ins.txt[:80])
    def load_t(self, st, mod, t, p):
        rt = mod.rt(t)
        if rt[0] == 'ptr': return self.load(st, p, 8, 'ptr')
        if rt[0] == 'i':
            n = mod.size(t); v = self.load(st, p, n, 'int')
            if rt[1] == 1:
                return bool(v & 1) if isint(v) else simp(z3.Extract(0, 0, v) == 1)
            if rt[1] < 8 * n: v = trunc(v, rt[1])
            return v
        if rt[0] == 'fp': return self.load(st, p, mod.size(t), 'int')
        if rt[0] == 'struct':
            return Agg([self.load_t(st, mod, x, p.add(mod.field_off(rt, i))) for i, x in enumerate(rt[1])])
        raise EngineError('load %s' % (rt,))
    def store_t(self, st, mod, t, p, v):
        rt = mod.rt(t)
        if rt[0] in ('ptr', 'fp'): return self.store(st, p, mod.size(t), v)
        if rt[0] == 'i':
            n = mod.size(t)
            if rt[1] == 1: v = int(v) if isinstance(v, bool) else bv(v, 8)
            elif rt[1] < 8 * n: v = zext(v, rt[1], 8 * n)
            return self.store(st, p, n, v)
        if rt[0] == 'struct':
            for i, x in enumerate(rt[1]): self.store_t(st, mod, x, p.add(mod.field_off(rt, i)), v.v[i])
            return
        raise EngineError('store %s' % (rt,))
    def do_ret(self, st, f, v):
        g = getattr(self, 'exit_guard', None)
        if g and len(st.frames) == g[1] and f.fn.loops.get(g[0]) is g[2]:
            if g[3]: g[3](st)
            raise PathEnd()
        for oid in f.allocas:
            if oid in st.objs:
                if st.objs[oid].alive: st.obj_w(oid).alive = False
        st.frames.pop()
        if f.onret:
            v = f.onret(self, st, v)
        if not st.frames:
            return ('end', v)
        g = st.frames[-1]
        return self.finish_call(st, g, f.call, v)
    def finish_call(self, st, g, ins, v):
        if ins is None: return None
        if ins.dst is not None: g.env[ins.dst] = v
        if ins.op == 'invoke': return self.goto(st, g, ins.a['normal'])
        g.ip += 1
        return None
    def unwind(self, st, first=None):
        """propagate st.exc = (ptr, tinfo) to the innermost handler"""
        ptr, tinfo = st.exc
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk][f.ip]
            if ins.op == 'invoke':
                pad = ins.a['unwind']
                lp = next(i for i in f.fn.blocks[pad] if i.op == 'landingpad')
                t, cleanup, cl = lp.a
                sel = None
                for kind, cv in cl:
                    if kind == 'catch':
                        nm = cv[1] if cv[0] == 'g' else None
                        if nm is None or nm == tinfo:
                            sel = self.typeid(nm); break
                if sel is None and cleanup: sel = 0
                if sel is not None:
                    st.ghost['lpad'] = (ptr, sel)
                    return self.goto(st, f, pad)
            for oid in f.allocas:
                if oid in st.objs: st.obj_w(oid).alive = False
            gd = getattr(self, 'exit_guard', None)
            if gd and len(st.frames) == gd[1]:
                if gd[3]: gd[3](st)
                raise PathEnd()
            st.frames.pop()
        if self.uncaught:
            return ('end', ('uncaught', st.exc))
        self.fail(st, self.task + '/uncaught-exception', info=str(tinfo))
        raise PathEnd()
    def typeid(self, nm):
        if nm is None: return 1
        self._tid = getattr(self, '_tid', {})
        return self._tid.setdefault(nm, len(self._tid) + 2)

    # ---------- calls
    def do_call(self, st, f, ins):
        c = ins.a
        cal = c['callee']
        if cal[0] == 'asm': raise EngineError('inline asm')
        fp = FnPtr(cal[1]) if cal[0] == 'g' and (cal[1] in f.fn.mod.funcs or cal[1] in f.fn.mod.decls) else self.val(st, f, ir.PTR, cal)
        if isinstance(fp, Ptr):
            if fp.obj == 0:
                self.fail(st, self.task + '/mem-safety/null-call'); raise PathEnd()
            raise EngineError('call through data pointer')
        args = [None if t[0] == 'meta' else self.val(st, f, t, v) for t, v in c['args']]
        return self.call(st, f, ins, fp, args)
    def call(self, st, f, ins, fp, args):
        mod = f.fn.mod
        r = self.prog.resolve(self, st, fp, mod, args)
        kind, what = r
        if kind == 'handler':
            v = what(self, st, args, fp, ins)
            return self.handled(st, f, ins, v)
        if kind == 'inline':
            fn = what
            if len(st.frames) > self.max_depth: raise EngineError('call depth')
            if sum(1 for g in st.frames if g.fn is fn) > 3: raise EngineError('recursion ' + fn.name)
            self.inlined.add(fn.mod.dem.get(fn.name[1:], fn.name))
            fn.parse()
            g = Frame(); g.fn = fn; g.blk = fn.entry; g.prev = None; g.ip = 0; g.env = {}; g.allocas = []; g.dst = None; g.call = ins; g.loops = {}; g.onret = None
            for (t, nm), a in zip(fn.params, args): g.env[nm] = a
            st.frames.append(g)
            return None
        raise EngineError('unresolved call %s' % (fp,))
    def handled(self, st, f, ins, v):
        if isinstance(v, Outcomes):
            alts = []
            for cnd, fn in v.alts:
                def act(s, fn=fn):
                    x = fn(s)
                    r = self.handled(s, s.frames[-1], ins, x)
                    if r is not None and isinstance(r, tuple) and r[0] == 'end': raise EngineError('end in outcome')
                alts.append((cnd, act))
            return alts
        if isinstance(v, Throw):
            st.exc = (v.ptr, v.tinfo); return self.unwind(st)
        if v is None and ins.dst is not None:
            raise EngineError('handler returned nothing for %s' % ins.txt[:80])
        return self.finish_call(st, f, ins, v)

PTR_T = ir.PTR
def mkctx_k(cx, k, st0):
    cx.k = k; cx.st0 = st0; return cx
def factor(e, c):
    """e == c*y syntactically (c not nec. a power of two) -> y"""
    k = e.decl().kind()
    if k == z3.Z3_OP_BMUL:
        ch = e.children()
        if len(ch) == 2 and z3.is_bv_value(ch[0]) and ch[0].as_long() % c == 0: return simp(ch[1] * z3.BitVecVal(ch[0].as_long() // c, 64))
    if k == z3.Z3_OP_BADD:
        ys = [factor(x, c) for x in e.children()]
        if all(y is not None for y in ys):
            r = 0
            for y in ys: r = add(r, y)
            return r
    if z3.is_bv_value(e) and e.as_long() % c == 0: return e.as_long() // c
    return None
def uses(e, a):
    seen = set(); stk = [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(a): return True
        stk += x.children()
    return False
def is_local(mod, name):
    b = mod.globals.get(name, '')
    return b.startswith('internal') or b.startswith('private')
def xor_all(l):
    r = 0
    for x in l: r ^= x
    return r
def ite_tree(T, idx, w, n):
    def go(lo, b):
        if b < 0: return z3.BitVecVal(T[lo], n)
        return z3.If(z3.Extract(b, b, idx) == 1, go(lo + (1 << b), b - 1), go(lo, b - 1))
    return go(0, w - 1)
def split_off(off):
    """off == base + (zext(idx) << shift)  ->  (base, idx, shift)"""
    base = 0; e = off
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BADD:
        cs = [c for c in e.children() if z3.is_bv_value(c)]; rs = [c for c in e.children() if not z3.is_bv_value(c)]
        if len(rs) != 1: return 0, None, 0
        base = sum(c.as_long() for c in cs) & mask(64); e = rs[0]
    k = e.decl().kind()
    if k == z3.Z3_OP_BMUL:
        ch = e.children()
        if len(ch) == 2 and z3.is_bv_value(ch[0]):
            m = ch[0].as_long()
            if m & (m - 1) == 0:
                _, idx, sh = split_off(ch[1])
                return base, idx, sh + m.bit_length() - 1
    if k == z3.Z3_OP_CONCAT:
        ch = e.children(); lo = 0; 
        # zeros ++ idx ++ zeros
        parts = list(ch)
        while parts and z3.is_bv_value(parts[0]) and parts[0].as_long() == 0: parts.pop(0)
        while parts and z3.is_bv_value(parts[-1]) and parts[-1].as_long() == 0: lo += parts[-1].size(); parts.pop()
        if not parts: return 0, None, 0
        idx = parts[0] if len(parts) == 1 else z3.Concat(*parts)
        return base, idx, lo
    if k == z3.Z3_OP_ZERO_EXT: return base, e.children()[0], 0
    return base, None, 0
def model_str(m):
    if m is None: return None
    try:
        out = []
        for d in m.decls():
            if d.arity() == 0:
                out.append('%s = %s' % (d.name(), m[d]))
        return sorted(out)[:80]
    except Exception as e: return str(e)
