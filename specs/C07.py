"""C07: buffers, key-value pairs and records: ownership and copies."""
import sys, z3
from llcv.check import Check
from llcv.prog import HERE
from llcv.sym import *
from .lib import *

chk = Check('C07', [HERE + '/specs/tu/records.cc'], harness='C07.cc',
            assumptions=['allocation of sizes below 2^32 succeeds (an unchecked malloc failure would be a null dereference)', 'sizes passed as 64-bit values fit the 32-bit length field',
                         'malloc/realloc/free/delete follow the C++ standard (modelled as fresh, separate, exactly-sized blocks)'])
SB = 'jungle::SizedBuf'; KV = 'jungle::KV'; REC = 'jungle::Record'
SBM = r'jungle::SizedBuf::'
class Src:
    """an arbitrary buffer value: owned by malloc / new[] / borrowed / empty"""
    def __init__(self, t, name, own, p=None, empty=False):
        self.t = t; self.name = name
        self.n = 0 if empty else t.bvs(name + '_n', 32)
        self.n64 = 0 if empty else z3.ZeroExt(32, self.n)
        if not empty: t.assume(self.n != 0)
        self.data = NULL if empty else t.obj(name + '_data', self.n64, kind={'malloc': 'malloc', 'new': 'new[]'}.get(own, 'borrowed'))
        self.flags = 0 if empty else {'malloc': 1, 'new': 2, 'ref': 0}[own]
        self.p = sb_make(t, name, self.n, self.data, self.flags, p)
        self.own = own
def val(t, st, p):
    return t.get(st, p, SB, 'size'), t.getp(st, p, SB, 'data'), t.get(st, p, SB, 'flags')
def is_empty(t, st, p, nm):
    n, d, f = val(t, st, p)
    t.prove(st, eq(n, 0, 32), nm + ': size 0'); t.prove(st, t.ex.ptr_eq(st, d, NULL), nm + ': no memory'); t.prove(st, eq(f, 0, 8), nm + ': owns nothing')
def unchanged_sb(t, st, src, nm='source'):
    n, d, f = val(t, st, src.p)
    t.prove(st, eq(n, src.n, 32), nm + ' size unchanged'); t.prove(st, t.ex.ptr_eq(st, d, src.data), nm + ' memory unchanged'); t.prove(st, eq(f, src.flags, 8), nm + ' ownership unchanged')
    data_same(t, st, src, nm)
def data_same(t, st, src, nm):
    j = t.bvs('j_any')
    if src.data.obj:
        t.prove(st, st.objs[src.data.obj].alive, nm + ' memory still live')
        t.prove(st, implies(ult(j, src.n64), eq(t.ex.byte(st, src.data.obj, j), t.ex.byte(t.st, src.data.obj, j), 8)), nm + ' bytes unchanged')
def same_value(t, st, p, src, nm, flags=True):
    n, d, f = val(t, st, p)
    t.prove(st, eq(n, src.n, 32), nm + ' same size'); t.prove(st, t.ex.ptr_eq(st, d, src.data), nm + ' same memory')
    t.prove(st, eq(f, src.flags if flags else 0, 8), nm + (' ownership follows' if flags else ' owns nothing')); data_same(t, st, src, nm)
def deep(t, st, p, src, nm):
    """p is a separately owned equal copy of src"""
    ex = t.ex
    n, d, f = val(t, st, p); j = t.bvs('j_any')
    t.prove(st, eq(n, src.n, 32), nm + ' copy size')
    if ex.must(st, eq(n, 0, 32)):
        t.prove(st, b_and(ex.ptr_eq(st, d, NULL), eq(f, 0, 8)), nm + ' empty copy owns nothing'); return
    t.prove(st, d.obj != 0 and d.obj not in t.st.objs, nm + ' copy is in fresh memory')
    if d.obj in (0,) or d.obj in t.st.objs: return
    t.prove(st, st.objs[d.obj].alive and st.objs[d.obj].kind == 'malloc', nm + ' copy is live heap memory')
    t.prove(st, b_and(eq(d.off, 0), eq(st.objs[d.obj].size, zext(n, 32, 64))), nm + ' copy owns exactly its bytes')
    t.prove(st, eq(f, 1, 8), nm + ' copy marked for free')
    t.prove(st, implies(ult(j, src.n64), eq(ex.byte(st, d.obj, j), ex.byte(t.st, src.data.obj, j), 8)), nm + ' copy equal byte for byte')
    unchanged_sb(t, st, src)
def owned_dead(t, st, src, nm):
    if src.flags: t.prove(st, not st.objs[src.data.obj].alive, nm + ' released')
    elif src.data.obj: t.prove(st, st.objs[src.data.obj].alive, nm + ' borrowed memory kept')

KINDS = (('malloc', False), ('new', False), ('ref', False), ('ref', True))
def kn(k): return 'empty' if k[1] else k[0]
for k in KINDS:
    @chk.task('copyTo/' + kn(k))
    def _(t, k=k):
        s = Src(t, 'src', k[0], empty=k[1]); dst = sb_make(t, 'dst', t.bvs('dn', 32), NULL, t.bvs('df', 8))
        t.run(SBM + r'copyTo\(.*\) const', [s.p, dst], lambda st, r: deep(t, st, dst, s, 'copy'))
        t.run(SBM + r'alloc\(jungle::SizedBuf const&\)', [dst, s.p], lambda st, r: deep(t, st, dst, s, 'alloc'))
        t.run(SBM + r'alloc\(unsigned long, void\*\)', [dst, s.n64, s.data], lambda st, r: deep(t, st, dst, s, 'alloc'))
    @chk.task('moveTo/' + kn(k))
    def _(t, k=k):
        s = Src(t, 'src', k[0], empty=k[1]); dst = sb_make(t, 'dst', t.bvs('dn', 32), NULL, t.bvs('df', 8))
        def post(st, r): same_value(t, st, dst, s, 'moved'); is_empty(t, st, s.p, 'moved-from')
        t.run(SBM + r'moveTo\(.*\)', [s.p, dst], post)
    @chk.task('refer and assign/' + kn(k))
    def _(t, k=k):
        s = Src(t, 'src', k[0], empty=k[1]); dst = sb_make(t, 'dst', t.bvs('dn', 32), NULL, t.bvs('df', 8))
        def p1(st, r): same_value(t, st, dst, s, 'referred', flags=False); unchanged_sb(t, st, s)
        def p2(st, r): same_value(t, st, dst, s, 'assigned'); unchanged_sb(t, st, s)
        t.run(SBM + r'referTo\(.*\)', [dst, s.p], p1)
        t.run(SBM + r'operator=\(.*\)', [dst, s.p], p2)
        t.run(SBM + r'set\(jungle::SizedBuf const&\)', [dst, s.p], p2)
        t.run(SBM + r'SizedBuf\(jungle::SizedBuf const&\)', [dst, s.p], p2)
        t.run(SBM + r'set\(unsigned long, void\*\)', [dst, s.n64, s.data], p1)
        t.run(SBM + r'SizedBuf\(unsigned long, void\*\)', [dst, s.n64, s.data], p1)
    @chk.task('free/' + kn(k))
    def _(t, k=k):
        s = Src(t, 'src', k[0], empty=k[1])
        def post(st, r):
            owned_dead(t, st, s, 'owned memory')
            if s.flags: is_empty(t, st, s.p, 'freed')
            else: unchanged_sb(t, st, s)
            t.prove(st, bo(r) == z3.BoolVal(bool(s.flags)), 'reports whether memory was released')
        t.run(SBM + r'free\(\)', [s.p], post)
        def p2(st, r): is_empty(t, st, s.p, 'cleared'); data_same(t, st, s, 'cleared')
        t.run(SBM + r'clear\(\)', [s.p], p2)
        def p3(st, r): t.prove(st, bo(r) == z3.BoolVal(k[1]), 'empty iff no bytes'); unchanged_sb(t, st, s)
        t.run(SBM + r'empty\(\) const', [s.p], p3)
    @chk.task('resize/' + kn(k), covers=() if k[0] != 'malloc' else ('resized', 'zero'))
    def _(t, k=k):
        s = Src(t, 'src', k[0], empty=k[1]); m = t.bvs('m'); t.assume(z3.ULT(m, z3.BitVecVal(1 << 32, 64))); ex = t.ex; j = t.bvs('j_any')
        def post(st, r):
            n, d, f = val(t, st, s.p)
            if k[0] != 'malloc': unchanged_sb(t, st, s, 'not owned: buffer'); return
            t.prove(st, eq(zext(n, 32, 64), m), 'has the requested size')
            if ex.must(st, eq(m, 0)):
                t.cover('zero'); t.prove(st, d.obj == 0 or st.objs[d.obj].alive, 'no dangling memory'); t.prove(st, not st.objs[s.data.obj].alive or d.obj == s.data.obj, 'old memory not leaked'); return
            t.cover('resized')
            t.prove(st, d.obj != 0 and st.objs[d.obj].alive, 'live memory')
            t.prove(st, b_and(eq(d.off, 0), eq(st.objs[d.obj].size, m)), 'exactly the requested room')
            t.prove(st, eq(f, 1, 8), 'still owned')
            t.prove(st, implies(b_and(ult(j, s.n64), ult(j, m)), eq(ex.byte(st, d.obj, j), ex.byte(t.st, s.data.obj, j), 8)), 'common prefix kept')
        t.run(SBM + r'resize\(.*\)', [s.p, m], post)
@chk.task('alloc zeroed')
def _(t):
    dst = sb_make(t, 'dst', t.bvs('dn', 32), NULL, t.bvs('df', 8)); m = t.bvs('m', 32); ex = t.ex; j = t.bvs('j_any'); m64 = z3.ZeroExt(32, m)
    def post(st, r):
        n, d, f = val(t, st, dst); t.prove(st, eq(n, m, 32), 'size')
        if ex.must(st, eq(m, 0, 32)): is_empty(t, st, dst, 'zero allocation'); return
        t.prove(st, d.obj != 0 and st.objs[d.obj].alive and st.objs[d.obj].kind == 'malloc', 'live memory'); t.prove(st, b_and(eq(d.off, 0), eq(st.objs[d.obj].size, m64)), 'room'); t.prove(st, eq(f, 1, 8), 'owned')
        t.prove(st, implies(ult(j, m64), eq(ex.byte(st, d.obj, j), 0, 8)), 'zero filled')
    t.run(SBM + r'alloc\(unsigned long\)', [dst, m64], post)
    t.run(SBM + r'SizedBuf\(unsigned long\)', [dst, m64], post)
@chk.task('strings')
def _(t):
    """std::string and C string sources"""
    dst = sb_make(t, 'dst', t.bvs('dn', 32), NULL, t.bvs('df', 8)); p, d, n = str_obj(t, 'str'); ex = t.ex; j = t.bvs('j_any')
    def ref(st, r):
        a, b, f = val(t, st, dst); t.prove(st, eq(zext(a, 32, 64), n), 'size of the string'); t.prove(st, ex.ptr_eq(st, b, d), 'refers to the string'); t.prove(st, eq(f, 0, 8), 'owns nothing')
    def cp(st, r):
        a, b, f = val(t, st, dst); t.prove(st, eq(zext(a, 32, 64), n), 'size of the string')
        if ex.must(st, eq(a, 0, 32)): is_empty(t, st, dst, 'empty string'); return
        t.prove(st, b.obj not in t.st.objs and b.obj != 0, 'own memory'); t.prove(st, eq(f, 1, 8), 'owned'); t.prove(st, implies(ult(j, n), eq(ex.byte(st, b.obj, j), ex.byte(t.st, d.obj, j), 8)), 'bytes')
    t.run(SBM + r'set\(std::.*string.*\)', [dst, p], ref)
    t.run(SBM + r'SizedBuf\(std::.*string.*\)', [dst, p], ref)
    t.run(SBM + r'alloc\(std::.*string.*\)', [dst, p], cp)
    def cs(copy):
        def post(st, r):
            L = st.ghost['strlen'][-1][1]
            a, b, f = val(t, st, dst); t.prove(st, eq(zext(a, 32, 64), L), 'size is strlen')
            if copy:
                if ex.must(st, eq(a, 0, 32)): return
                t.prove(st, b.obj not in t.st.objs and b.obj != 0, 'own memory'); t.prove(st, implies(ult(j, L), eq(ex.byte(st, b.obj, j), ex.byte(t.st, d.obj, j), 8)), 'bytes')
            else: t.prove(st, ex.ptr_eq(st, b, d), 'refers to the text'); t.prove(st, eq(f, 0, 8), 'owns nothing')
        return post
    t.run(SBM + r'set\(char const\*\)', [dst, d], cs(False))
    t.run(SBM + r'SizedBuf\(char const\*\)', [dst, d], cs(False))
    t.run(SBM + r'alloc\(char const\*\)', [dst, d], cs(True))

def kv_make(t, name, kinds, p=None):
    p = p or t.obj(name, t.size(KV)); ko, _ = t.field(KV, 'key'); vo, _ = t.field(KV, 'value')
    return p, Src(t, name + '_key', kinds[0][0], p.add(ko), kinds[0][1]), Src(t, name + '_value', kinds[1][0], p.add(vo), kinds[1][1])
def kv_blank(t, name, p=None, zero=False):
    p = p or t.obj(name, t.size(KV))
    for f in ('key', 'value'):
        o, _ = t.field(KV, f); sb_make(t, name + f, 0 if zero else t.bvs(name + f + 'n', 32), NULL, 0 if zero else t.bvs(name + f + 'fl', 8), p.add(o))
    return p
def fld(t, cls, p, f): return p.add(t.field(cls, f)[0])
COMBO = ((('malloc', False), ('malloc', False)), (('new', False), ('ref', False)), (('ref', False), ('ref', True)), (('ref', True), ('malloc', False)))
def cn(c): return '+'.join(kn(x) for x in c)
for c in COMBO:
    @chk.task('KV/' + cn(c))
    def _(t, c=c):
        p, k, v = kv_make(t, 'src', c); dst = kv_blank(t, 'dst')
        K = lambda x: fld(t, KV, x, 'key'); V = lambda x: fld(t, KV, x, 'value')
        def cp(st, r): deep(t, st, K(dst), k, 'key'); deep(t, st, V(dst), v, 'value')
        t.run(r'jungle::KV::copyTo\(.*\) const', [p, dst], cp)
        t.run(r'jungle::KV::alloc\(jungle::SizedBuf const&, jungle::SizedBuf const&\)', [dst, k.p, v.p], cp)
        def mv(st, r): same_value(t, st, K(dst), k, 'key'); same_value(t, st, V(dst), v, 'value'); is_empty(t, st, K(p), 'moved-from key'); is_empty(t, st, V(p), 'moved-from value')
        t.run(r'jungle::KV::moveTo\(.*\)', [p, dst], mv)
        def as_(st, r): same_value(t, st, K(dst), k, 'key'); same_value(t, st, V(dst), v, 'value'); unchanged_sb(t, st, k, 'key'); unchanged_sb(t, st, v, 'value')
        t.run(r'jungle::KV::set\(jungle::SizedBuf const&, jungle::SizedBuf const&\)', [dst, k.p, v.p], as_)
        t.run(r'jungle::KV::KV\(jungle::KV const&\)', [dst, p], as_)
        def fr(st, r):
            for s, nm in ((k, 'key'), (v, 'value')):
                owned_dead(t, st, s, nm)
                if s.flags: is_empty(t, st, s.p, nm)
        t.run(r'jungle::KV::free\(\)', [p], fr)
        def cl(st, r): is_empty(t, st, K(p), 'key'); is_empty(t, st, V(p), 'value'); data_same(t, st, k, 'key'); data_same(t, st, v, 'value')
        t.run(r'jungle::KV::clear\(\)', [p], cl)
        def sz(st, r): t.prove(st, eq(trunc(r, 32), simp(bv(k.n, 32) + bv(v.n, 32)), 32), 'total size')
        t.run(r'jungle::KV::size\(\) const', [p], sz)

COMBO3 = ((('malloc', False), ('malloc', False), ('malloc', False)), (('ref', False), ('ref', True), ('new', False)), (('new', False), ('malloc', False), ('ref', True)))
for c in COMBO3:
    @chk.task('Record/' + cn(c))
    def _(t, c=c):
        def mk(name, blank, zero=False):
            p = t.obj(name, t.size(REC)); kp = fld(t, REC, p, 'kv'); mp = fld(t, REC, p, 'meta')
            if blank: kv_blank(t, name, kp, zero); sb_make(t, name + '_meta', 0 if zero else t.bvs(name + 'mn', 32), NULL, 0 if zero else t.bvs(name + 'mf', 8), mp); x = None
            else: _, k, v = kv_make(t, name, c[:2], kp); x = (k, v, Src(t, name + '_meta', c[2][0], mp, c[2][1]))
            t.set(p, REC, 'seqNum', t.bvs(name + '_seq', 64)); t.set(p, REC, 'type', t.bvs(name + '_type', 8))
            return p, x
        p, (k, v, m) = mk('src', False); dst, _ = mk('dst', True); blank, _ = mk('blank', True, True)
        P = lambda x: [fld(t, KV, fld(t, REC, x, 'kv'), 'key'), fld(t, KV, fld(t, REC, x, 'kv'), 'value'), fld(t, REC, x, 'meta')]
        nm3 = list(zip((k, v, m), ('key', 'value', 'metadata')))
        def meta(st, x):
            t.prove(st, eq(t.get(st, x, REC, 'seqNum'), t.bvs('src_seq', 64)), 'sequence number carried'); t.prove(st, eq(t.get(st, x, REC, 'type'), t.bvs('src_type', 8), 8), 'type carried')
        def cp(x):
            def post(st, r):
                for (s, nm), q in zip(nm3, P(x)): deep(t, st, q, s, nm)
                meta(st, x)
            return post
        t.run(r'jungle::Record::copyTo\(.*\) const', [p, dst], cp(dst))
        def cl_post(st, r): t.prove(st, eq(r, 0, 32), 'clone into an empty record succeeds'); cp(blank)(st, r)
        t.run(r'jungle::Record::clone\(.*\)', [blank, p], cl_post)
        def mv(st, r):
            for (s, nm), q in zip(nm3, P(dst)): same_value(t, st, q, s, nm)
            meta(st, dst)
            for (s, nm), q in zip(nm3, P(p)): is_empty(t, st, q, 'moved-from ' + nm)
            t.prove(st, eq(t.get(st, p, REC, 'seqNum'), mask(64)), 'moved-from sequence number'); t.prove(st, eq(t.get(st, p, REC, 'type'), 0, 8), 'moved-from type')
        t.run(r'jungle::Record::moveTo\(.*\)', [p, dst], mv)
        def fr(st, r):
            for s, nm in nm3:
                owned_dead(t, st, s, nm)
                if s.flags: is_empty(t, st, s.p, nm)
        t.run(r'jungle::Record::free\(\)', [p], fr)
        t.run(r'jungle::Record::Holder::~Holder\(\)', [holder(t, p)], fr)
        def cl(st, r):
            for s, nm in nm3: is_empty(t, st, s.p, nm); data_same(t, st, s, nm)
        t.run(r'jungle::Record::clear\(\)', [p], cl)
        def sz(st, r): t.prove(st, eq(trunc(r, 32), simp(bv(k.n, 32) + bv(v.n, 32) + bv(m.n, 32)), 32), 'total size')
        t.run(r'jungle::Record::size\(\) const', [p], sz)
        for w, x in (('Ins', 0), ('Del', 1), ('Cmd', 2)):
            t.run(r'jungle::Record::is%s\(\) const' % w, [p], lambda st, r, x=x: t.prove(st, bo(r) == (t.bvs('src_type', 8) == x), 'type predicate'))
def holder(t, p):
    h = t.obj('holder', 8); t.put(h, 8, p); return h
@chk.task('Record/clone into non-empty')
def _(t):
    p = t.obj('dst', t.size(REC)); kp = fld(t, REC, p, 'kv'); _, k, v = kv_make(t, 'dst', (('malloc', False), ('ref', True)), kp)
    sb_make(t, 'm', 0, NULL, 0, fld(t, REC, p, 'meta'))
    src = t.obj('src', t.size(REC))
    def post(st, r): t.prove(st, b_not(eq(r, 0, 32)), 'refused'); unchanged_sb(t, st, k, 'target'); 
    t.run(r'jungle::Record::clone\(.*\)', [p, src], post)
@chk.task('constructors')
def _(t):
    p = t.obj('rec', t.size(REC)); ty = t.bvs('ty', 8); sn = t.bvs('sn')
    P = [fld(t, KV, fld(t, REC, p, 'kv'), 'key'), fld(t, KV, fld(t, REC, p, 'kv'), 'value'), fld(t, REC, p, 'meta')]
    def post(s, y):
        def f(st, r):
            for q in P: is_empty(t, st, q, 'new record')
            t.prove(st, eq(t.get(st, p, REC, 'seqNum'), s), 'sequence number'); t.prove(st, eq(t.get(st, p, REC, 'type'), y, 8), 'type')
        return f
    t.run(r'jungle::Record::Record\(jungle::Record::Type\)', [p, ty], post(mask(64), ty))
    t.run(r'jungle::Record::Record\(unsigned long, jungle::Record::Type\)', [p, sn, ty], post(sn, ty))
    b = t.obj('sb', t.size(SB))
    t.run(SBM + r'SizedBuf\(\)', [b], lambda st, r: is_empty(t, st, b, 'default'))
if __name__ == '__main__': sys.exit(chk.main())
