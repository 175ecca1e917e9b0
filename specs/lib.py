"""Shared specification vocabulary: interface objects, ghost files, buffers."""
import z3
from llcv.sym import *
from llcv.exe import Outcomes, PathEnd, Throw
from llcv import ir

LIM = 1 << 46

class VTable:
    """hook of a vtable object of an interface: loads yield virtual-method references"""
    def __init__(self, cls, slots): self.cls = cls; self.slots = slots
    own_check = True
    def load(self, ex, st, o, p, n, want):
        if not isint(p.off) or n != 8: raise EngineError('vtable access')
        s = p.off // 8
        if s not in self.slots: raise EngineError('attachment: virtual slot %d of %s' % (s, self.cls))
        return FnPtr('virt:%s::%s' % (self.cls, self.slots[s]), (self.cls, self.slots[s]))
    def store(self, *a): raise EngineError('store to vtable')

def iface(t, cls, name=None, size=None, dtor_first=None):
    """an object of a class reached only through its virtual interface"""
    ex, st = t.ex, t.st
    slots = {}
    for m in t.prog.mods.values():
        try: v = m.virtuals(cls)
        except (KeyError, ir.IRError): continue
        if v:
            for s, (nm, ln) in v.items(): slots[s] = nm
            break
    if not slots: raise EngineError('attachment: interface ' + cls)
    # the destructor occupies two slots (complete, deleting)
    for s, nm in list(slots.items()):
        if nm.startswith('~') and s + 1 not in slots: slots[s + 1] = nm + '!delete'
    try: sz = t.size(cls)
    except EngineError: sz = size or 64
    o = ex.new_obj(st, name or cls.split('::')[-1], max(sz, size or 0), None, 'iface')
    vt = ex.new_obj(st, 'vtable ' + cls, 8 * 64, None, 'vtable', hook=VTable(cls, slots))
    ex.store(st, Ptr(o.id, 0), 8, Ptr(vt.id, 0), chk=False)
    return Ptr(o.id, 0)

# ---------------------------------------------------------------- ghost files behind FileOps
def file_new(t, name='file', size=None, st=None):
    """-> (handle Ptr, content oid); ghost size in st.ghost[('fsz', oid)]"""
    ex, st = t.ex, st or t.st
    o = ex.new_obj(st, name + '_content', None, None, 'file')
    h = iface(t, 'jungle::FileHandle', name + '_handle')
    n = ex.sym(name + '_size', 64) if size is None else size
    if size is None: ex.assume(st, z3.ULT(n, z3.BitVecVal(LIM, 64)))
    st.ghost[('fsz', o.id)] = n; st.ghost[('fof', h.obj)] = o.id
    return h, o.id
def fsize(st, oid): return st.ghost[('fsz', oid)]
def fcontent(ex, st, oid, off): return ex.byte(st, oid, off)
def _file(ex, st, h):
    k = ('fof', h.obj)
    if k not in st.ghost:
        if h.obj == 0:
            ex.fail(st, ex.task + '/file-op-on-null-handle'); raise PathEnd()
        raise EngineError('file operation on unknown handle')
    return st.ghost[k]
def event(st, *e): st.ghost['events'] = st.ghost.get('events', ()) + (e,)
def events(st, kind=None): return [e for e in st.ghost.get('events', ()) if kind is None or e[0] == kind]
def err(ex, st, name):
    s = ex.fresh(name + '_status', 32); ex.assume(st, s != 0); return s
def havoc_range(ex, st, oid, off, n, nm='junk'):
    o = st.obj_w(oid)
    ex.nfresh += 1
    f = z3.Function('%s_%d' % (nm, ex.nfresh), z3.BitVecSort(64), z3.BitVecSort(8))
    o.mem = C(o.mem, off, n, BSym(f), off)
    if st.written is not None: st.written.setdefault(oid, []).append((off, n))
def grow(ex, st, oid, end):
    sz = fsize(st, oid); st.ghost[('fsz', oid)] = simp(z3.If(z3.UGT(bv(end, 64), bv(sz, 64)), bv(end, 64), bv(sz, 64)))
    # a hole reads as zero
def f_pwrite(ex, st, a, f, i):
    this, fh, buf, n, off = a
    oid = _file(ex, st, fh)
    if not (isint(n) and n == 0): ex.deref(st, buf, n, 'read')
    if not buf.obj: n = 0
    def ok(s):
        o = s.obj_w(oid)
        old = fsize(s, oid)
        if not (isint(n) and n == 0):
            # bytes between the old end and the write are zero
            gap = simp(z3.If(z3.ULT(bv(old, 64), bv(off, 64)), bv(off, 64) - bv(old, 64), z3.BitVecVal(0, 64)))
            if not (isint(gap) and gap == 0) and not ex.must(s, eq(gap, 0)): o.mem = F(o.mem, old, gap, 0)
            o.mem = C(o.mem, off, n, s.objs[buf.obj].mem, buf.off)
            if s.written is not None: s.written.setdefault(oid, []).append((off, n))
            grow(ex, s, oid, add(off, n))
        event(s, 'pwrite', oid, off, n, True)
        return 0
    def bad(s):
        e = err(ex, s, 'pwrite')
        if not (isint(n) and n == 0): havoc_range(ex, s, oid, off, n)
        m = ex.fresh('fsz', 64); old = fsize(s, oid)
        ex.assume(s, z3.And(z3.UGE(m, bv(old, 64)), z3.Or(m == bv(old, 64), z3.ULE(m, bv(add(off, n), 64)))))
        s.ghost[('fsz', oid)] = m
        event(s, 'pwrite', oid, off, n, False)
        return e
    return Outcomes([(True, ok), (True, bad)])
def f_append(ex, st, a, f, i):
    this, fh, buf, n = a
    oid = _file(ex, st, fh); old = fsize(st, oid)
    if not (isint(n) and n == 0): ex.deref(st, buf, n, 'read')
    if not buf.obj: n = 0
    def ok(s):
        o = s.obj_w(oid)
        if not (isint(n) and n == 0): o.mem = C(o.mem, old, n, s.objs[buf.obj].mem, buf.off)
        if s.written is not None: s.written.setdefault(oid, []).append((old, n))
        s.ghost[('fsz', oid)] = add(old, n); event(s, 'append', oid, old, n, True); return 0
    def bad(s):
        e = err(ex, s, 'append')
        if not (isint(n) and n == 0): havoc_range(ex, s, oid, old, n)
        m = ex.fresh('fsz', 64); ex.assume(s, z3.And(z3.UGE(m, bv(old, 64)), z3.ULE(m, bv(add(old, n), 64))))
        s.ghost[('fsz', oid)] = m; event(s, 'append', oid, old, n, False); return e
    return Outcomes([(True, ok), (True, bad)])
def f_pread(ex, st, a, f, i):
    this, fh, buf, n, off = a
    oid = _file(ex, st, fh)
    if not (isint(n) and n == 0): ex.deref(st, buf, n, 'write')
    if not buf.obj: n = 0
    inside = b_and(ule(add(off, n), fsize(st, oid)), ule(off, add(off, n)))
    def ok(s):
        if not (isint(n) and n == 0):
            o = s.obj_w(buf.obj); o.mem = C(o.mem, buf.off, n, s.objs[oid].mem, off)
            if s.written is not None: s.written.setdefault(buf.obj, []).append((buf.off, n))
        event(s, 'pread', oid, off, n, True); return 0
    def bad(s):
        e = err(ex, s, 'pread')
        if not (isint(n) and n == 0): havoc_range(ex, s, buf.obj, buf.off, n)
        event(s, 'pread', oid, off, n, False); return e
    return Outcomes([(inside, ok), (True, bad)])
def f_eof(ex, st, a, f, i): return fsize(st, _file(ex, st, a[1]))
def f_status(kind, effect=None):
    def h(ex, st, a, f, i):
        oid = _file(ex, st, a[1])
        def ok(s):
            if effect: effect(ex, s, oid, a)
            event(s, kind, oid, True); return 0
        def bad(s): event(s, kind, oid, False); return err(ex, s, kind)
        return Outcomes([(True, ok), (True, bad)])
    return h
def _trunc(ex, s, oid, a):
    n = a[2]; old = fsize(s, oid); o = s.obj_w(oid)
    gap = simp(z3.If(z3.ULT(bv(old, 64), bv(n, 64)), bv(n, 64) - bv(old, 64), z3.BitVecVal(0, 64)))
    if not (isint(gap) and gap == 0): o.mem = F(o.mem, old, gap, 0)
    s.ghost[('fsz', oid)] = n
def f_close(ex, st, a, f, i):
    _file(ex, st, a[1]); event(st, 'close', a[1].obj); return 0
def f_open(t):
    """open(out, name, mode): ghost name -> content binding in st.ghost['names'] (list of (string matcher, oid))"""
    def h(ex, st, a, f, i):
        this, out, name, mode = a
        oid = st.ghost['openmap'](ex, st, name)
        def ok(s):
            o = ex.new_obj(s, 'handle', 32, None, 'new'); 
            s.ghost[('fof', o.id)] = oid
            vt = t.vt_handle(s)
            ex.store(s, Ptr(o.id, 0), 8, Ptr(vt, 0), chk=False)
            ex.store(s, out, 8, Ptr(o.id, 0)); event(s, 'open', oid, o.id); return 0
        def bad(s): event(s, 'openfail', oid); return err(ex, s, 'open')
        return Outcomes([(True, ok), (True, bad)])
    return h
def install_files(t):
    v = t.prog.virt; c = 'jungle::FileOps'
    v[(c, 'pwrite')] = f_pwrite; v[(c, 'pread')] = f_pread; v[(c, 'append')] = f_append; v[(c, 'eof')] = f_eof
    v[(c, 'flush')] = f_status('flush'); v[(c, 'fsync')] = f_status('fsync'); v[(c, 'ftruncate')] = f_status('ftruncate', _trunc)
    v[(c, 'close')] = f_close
    return iface(t, c, 'fileops')

# ---------------------------------------------------------------- spec helpers
def be_bytes(v, n):
    """big-endian encoding as list of n BV8, first byte first"""
    return [byte_of(v, n - 1 - i) for i in range(n)]
def be_val(bs): return concat_le(list(reversed(bs)))
def bytes_at(ex, st, p, n): return [ex.byte(st, p.obj, add(p.off, i)) for i in range(n)]
def same(a, b, w=64): return eq(a, b, w)
def and_(*a): return b_and(*a)
def implies(a, b):
    if a is True: return b
    if a is False: return True
    if b is True: return True
    return z3.Implies(bo(a), bo(b))
def ssel(x, w): return bv(x, w)
def sb_make(t, name, size, data, flags=0, p=None):
    """a jungle::SizedBuf object"""
    p = p or t.obj(name, t.size('jungle::SizedBuf'))
    t.set(p, 'jungle::SizedBuf', 'size', size); t.set(p, 'jungle::SizedBuf', 'data', data); t.set(p, 'jungle::SizedBuf', 'flags', flags)
    return p
def str_obj(t, name, s=None):
    """std::string model object (abstract unless s given)"""
    p = t.obj(name, 32)
    n = t.bvs(name + '_len') if s is None else len(s)
    if s is None: t.assume(z3.ULT(n, z3.BitVecVal(1 << 30, 64)))
    d = t.obj(name + '_chars', add(n, 1), kind='strdata')
    t.put(p, 8, d); t.put(p.add(8), 8, n)
    return p, d, n

def slots(cx, n=8):
    """address-taken local variables of the function whose loop is under proof"""
    out = []; f = cx.st.frames[-1]; seen = set()
    for nm, v in list(f.env.items()):
        if isinstance(v, Ptr) and v.obj and isint(v.off) and v.off == 0 and v.obj not in seen and v.obj in cx.st.objs:
            o = cx.st.objs[v.obj]
            if o.kind == 'stack' and isint(o.size) and o.size == n: seen.add(v.obj); out.append((nm, v.obj))
    return out
