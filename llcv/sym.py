"""Symbolic values and the region-based memory model."""
import z3
from . import ir

class EngineError(Exception):
    """the engine cannot interpret something: the function is undecided (never a violation)"""
class Fork(Exception):
    def __init__(self, cond): self.cond = cond

def isint(x): return isinstance(x, int) and not isinstance(x, bool)
def mask(w): return (1 << w) - 1

def simp(e):
    if isinstance(e, (int, bool)): return e
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e

def bv(v, w):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if v.size() != w: raise EngineError('width %d vs %d' % (v.size(), w))
    return v

def bo(v):
    if isinstance(v, (bool, int)): return z3.BoolVal(bool(v))
    if z3.is_bool(v): return v
    return v == z3.BitVecVal(1, v.size())

def sx(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v

def b_and(*a):
    out = []
    for x in a:
        if x is True: continue
        if x is False: return False
        out.append(bo(x))
    if not out: return True
    return z3.And(*out) if len(out) > 1 else out[0]
def b_or(*a):
    out = []
    for x in a:
        if x is False: continue
        if x is True: return True
        out.append(bo(x))
    if not out: return False
    return z3.Or(*out) if len(out) > 1 else out[0]
def b_not(a):
    if isinstance(a, (bool, int)): return not a
    return z3.Not(bo(a))

def add(a, b, w=64):
    if isint(a) and isint(b): return (a + b) & mask(w)
    if isint(b) and b == 0: return a
    if isint(a) and a == 0: return b
    return simp(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if isint(a) and isint(b): return (a - b) & mask(w)
    if isint(b) and b == 0: return a
    return simp(bv(a, w) - bv(b, w))
def mul(a, b, w=64):
    if isint(a) and isint(b): return (a * b) & mask(w)
    if isint(b) and b == 1: return a
    if isint(a) and a == 1: return b
    return simp(bv(a, w) * bv(b, w))
def eq(a, b, w=64):
    if isint(a) and isint(b): return a == b
    return simp(bv(a, w) == bv(b, w))
def ult(a, b, w=64):
    if isint(a) and isint(b): return a < b
    return simp(z3.ULT(bv(a, w), bv(b, w)))
def ule(a, b, w=64):
    if isint(a) and isint(b): return a <= b
    return simp(z3.ULE(bv(a, w), bv(b, w)))
def zext(v, w0, w1):
    if isint(v): return v
    return simp(z3.ZeroExt(w1 - w0, v)) if w1 > w0 else v
def trunc(v, w1):
    if isint(v): return v & mask(w1)
    return simp(z3.Extract(w1 - 1, 0, v))
def concat_le(bs):
    """bytes (int|BV8), least significant first"""
    if all(isint(b) for b in bs):
        return sum(b << (8 * i) for i, b in enumerate(bs))
    if len(bs) == 1: return bs[0]
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
def byte_of(v, i):
    if isint(v): return (v >> (8 * i)) & 0xff
    if v.size() == 8 and i == 0: return v
    return simp(z3.Extract(8 * i + 7, 8 * i, v))

class Ptr:
    """obj: Obj id (0 = no object: plain address); off: int|BV64; key: pool node key (BV64/int) or None"""
    __slots__ = ('obj', 'off', 'key')
    def __init__(self, obj, off=0, key=None):
        self.obj = obj; self.off = off; self.key = key
    def __repr__(self): return 'Ptr(%s,%s%s)' % (self.obj, self.off, '' if self.key is None else ',key=%s' % self.key)
    def add(self, d): return Ptr(self.obj, add(self.off, d), self.key)
NULL = Ptr(0, 0)

class FnPtr:
    __slots__ = ('name', 'virt')
    def __init__(self, name, virt=None): self.name = name; self.virt = virt
    def __repr__(self): return 'Fn(%s,%s)' % (self.name, self.virt)

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return 'Agg%s' % (self.v,)

# ---------------- memory contents as a functional log
class Node: __slots__ = ('parent',)
class BZero(Node):
    def byte(self, off): return 0
class BSym(Node):
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
    def byte(self, off): return self.f(bv(off, 64))
class BConst(Node):
    """constant data + relocations; vals: off -> (n, Ptr/FnPtr)"""
    __slots__ = ('data', 'vals', 'lin')
    def __init__(self, data, vals): self.data = data; self.vals = vals; self.lin = {}
class BFun(Node):
    """bytes from a python function off -> BV8"""
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn
    def byte(self, off): return self.fn(off)
class W(Node):
    __slots__ = ('off', 'n', 'val')
    def __init__(self, parent, off, n, val): self.parent = parent; self.off = off; self.n = n; self.val = val
class F(Node):
    __slots__ = ('off', 'len', 'b')
    def __init__(self, parent, off, ln, b): self.parent = parent; self.off = off; self.len = ln; self.b = b
class C(Node):
    __slots__ = ('off', 'len', 'src', 'soff')
    def __init__(self, parent, off, ln, src, soff): self.parent = parent; self.off = off; self.len = ln; self.src = src; self.soff = soff

class Obj:
    __slots__ = ('id', 'name', 'size', 'mem', 'kind', 'alive', 'ro', 'hook', 'meta')
    def __init__(self, id, name, size, mem, kind, ro=False, hook=None):
        self.id = id; self.name = name; self.size = size; self.mem = mem; self.kind = kind; self.alive = True; self.ro = ro; self.hook = hook; self.meta = {}
    def clone(self):
        o = Obj(self.id, self.name, self.size, self.mem, self.kind, self.ro, self.hook); o.alive = self.alive; o.meta = dict(self.meta); return o
    def __repr__(self): return '<%d %s>' % (self.id, self.name)

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'env', 'allocas', 'dst', 'call', 'loops', 'onret')
    def clone(self):
        f = Frame(); f.fn = self.fn; f.blk = self.blk; f.prev = self.prev; f.ip = self.ip; f.env = dict(self.env)
        f.allocas = list(self.allocas); f.dst = self.dst; f.call = self.call; f.loops = dict(self.loops); f.onret = self.onret
        return f

class State:
    def __init__(self):
        self.frames = []; self.objs = {}; self.pc = []; self.exc = None; self.ghost = {}; self.tainted = False; self.trace = []; self.written = None
        self.eh = []; self.steps = 0
    def clone(self):
        s = State(); s.frames = [f.clone() for f in self.frames]; s.objs = dict(self.objs); s.pc = list(self.pc); s.exc = self.exc
        s.ghost = dict(self.ghost); s.tainted = self.tainted; s.trace = list(self.trace); s.eh = list(self.eh); s.steps = self.steps
        s.written = None if self.written is None else dict(self.written)
        return s
    def obj_w(self, oid):
        """object for writing (copy on write)"""
        o = self.objs[oid].clone(); self.objs[oid] = o; return o
