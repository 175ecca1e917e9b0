"""Builds /repo sources to LLVM IR on every run and resolves calls: task contracts, library models, then real code (inlined)."""
import os, re, subprocess, hashlib, tempfile, z3, concurrent.futures
from . import ir
from .sym import *
from .exe import Throw, Outcomes, PathEnd

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = next((p for p in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++') if os.path.exists(p)), 'clang++')
OPT = next((p for p in ('/usr/bin/opt-18', '/usr/lib/llvm-18/bin/opt', '/usr/bin/opt') if os.path.exists(p)), 'opt')
CFLAGS = ['-std=gnu++17', '-DNDEBUG', '-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/tools' % REPO, '-I%s/tests' % REPO,
          '-DLOGGER_H=%s/src/logger.h' % REPO, '-DTESTSUITE_NO_COLOR=1', '-I%s/stub' % HERE]
PASSES = 'mem2reg,simplifycfg'

def build_ir(srcs, work, minmax=False):
    """srcs: paths (absolute or relative to REPO). -> {src: llfile}.  Raises on compile failure."""
    out = {}
    def one(s):
        p = s if s.startswith('/') else os.path.join(REPO, s)
        base = os.path.join(work, re.sub(r'\W', '_', s))
        r = subprocess.run([CXX] + CFLAGS + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-w', '-S', '-emit-llvm', p, '-o', base + '.0.ll'], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('compile %s: %s' % (s, r.stderr[:2000]))
        if minmax:   # std::min/max become selects instead of branches on references
            tx = open(base + '.0.ll').read(); tx = re.sub(r'(?m)^(define linkonce_odr .*@_ZSt3(?:min|max)I.*?\)) (#\d+)', r'\1 alwaysinline \2', tx); open(base + '.0.ll', 'w').write(tx)
        r = subprocess.run([OPT, '-S', '-passes=' + ('always-inline,sroa,simplifycfg' if minmax else PASSES), base + '.0.ll', '-o', base + '.ll'], capture_output=True, text=True)
        if r.returncode: raise RuntimeError('opt %s: %s' % (s, r.stderr[:2000]))
        os.unlink(base + '.0.ll')
        return s, base + '.ll'
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s, f in ex.map(one, srcs): out[s] = f
    return out

class Program:
    def __init__(self, srcs, work, minmax=False):
        self.files = build_ir(srcs, work, minmax)
        self.mods = {s: ir.Module(open(f).read(), s) for s, f in self.files.items()}
        self.handlers = []     # (compiled regex on demangled name, fn, label)
        self.virt = {}         # (cls, method) -> handler
        self.int_ptr_hook = None
        self.global_hooks = {}
        self.defs = {}
        self.trusted = set(); self.used_contracts = set()
        for m in self.mods.values():
            for n, f in m.funcs.items(): self.defs.setdefault(n, f)
        self.nolog = True
        self.cache = {}
        self.pure_externs = []
    def mod(self, s): return self.mods[s]
    def anymod(self): return next(iter(self.mods.values()))
    def global_module(self, name):
        for m in self.mods.values():
            if name in m.globals and not m.globals[name].startswith('external'): return m
        return None
    def fn(self, pat):
        """the unique defined function whose demangled name fully matches pat"""
        r = re.compile(pat); out = {}
        for m in self.mods.values():
            for n, f in m.funcs.items():
                d = m.dem.get(n[1:], n)
                if r.fullmatch(d): out[n] = f
        # prefer complete-object constructors
        if len(out) > 1:
            c = {n: f for n, f in out.items() if 'C1' in n or 'D1' in n}
            if len(c) == 1: out = c
            else:
                c = {n: f for n, f in out.items() if 'C2' in n or 'D2' in n}
                if len(c) == 1: out = c
        if len(out) != 1: raise EngineError('attachment: %d functions match %s' % (len(out), pat))
        return next(iter(out.values()))
    def has(self, pat):
        try: self.fn(pat); return True
        except EngineError: return False
    def contract(self, pat, fn, trusted=False):
        self.handlers.insert(0, (re.compile(pat), fn, pat, trusted))
        self.cache.clear()
    def resolve(self, ex, st, fp, mod, args):
        if fp.virt:
            h = self.virt.get(fp.virt) or self.virt.get((fp.virt[0], '*'))
            if not h: raise EngineError('virtual %s' % (fp.virt,))
            self.trusted.add('%s::%s (interface contract)' % fp.virt)
            return 'handler', (lambda ex, st, a, f, i: h(ex, st, a, f, i))
        name = fp.name
        key = (mod.path, name)
        r = self.cache.get(key)
        if r is None:
            r = self._resolve(name, mod); self.cache[key] = r
        if r is None: raise EngineError('external function without contract: ' + mod.dem.get(name[1:], name))
        if r[0] == 'handler' and len(r) > 2:
            (self.trusted if r[3] else self.used_contracts).add(r[2])
        return r[0], r[1]
    def _resolve(self, name, mod):
        dem = mod.dem.get(name[1:], name)
        for pat, fn, label, tr in self.handlers:
            if pat.fullmatch(dem): return ('handler', fn, label, tr)
        b = name[1:]
        if b in BUILTIN: return ('handler', BUILTIN[b], b, not b.startswith('llvm.'))
        for pre, fn in BUILTIN_PREFIX:
            if b.startswith(pre): return ('handler', fn, pre, False)
        for pat, fn in STD:
            if pat.fullmatch(dem): return ('handler', fn, pat.pattern, True)
        if name in mod.funcs: return ('inline', mod.funcs[name])
        if name in self.defs: return ('inline', self.defs[name])
        return None

# ------------------------------------------------------------------ builtin models
BUILTIN = {}; BUILTIN_PREFIX = []; STD = []
def builtin(*names):
    def d(f):
        for n in names: BUILTIN[n] = f
        return f
    return d
def prefix(*names):
    def d(f):
        for n in names: BUILTIN_PREFIX.append((n, f))
        return f
    return d
def std(pat):
    def d(f):
        STD.append((re.compile(pat), f)); return f
    return d
class NoVal: pass
VOIDV = 0   # value for void results (ignored)

@prefix('llvm.memcpy.', 'llvm.memmove.')
def _memcpy(ex, st, a, fp, ins):
    if ex.memcpy_cut: a = list(a); a[2] = ex.memcpy_cut(st, a[0], a[1], a[2])
    ex.copy(st, a[0], a[1], a[2]); return VOIDV
@builtin('memcpy', 'memmove')
def _memcpy2(ex, st, a, fp, ins): ex.copy(st, a[0], a[1], a[2]); return a[0]
@prefix('llvm.memset.')
def _memset(ex, st, a, fp, ins): ex.fill(st, a[0], a[1], a[2]); return VOIDV
@builtin('memset')
def _memset2(ex, st, a, fp, ins): ex.fill(st, a[0], a[1], a[2]); return a[0]
@prefix('llvm.expect.', 'llvm.launder.', 'llvm.strip.')
def _ident(ex, st, a, fp, ins): return a[0]
@prefix('llvm.assume', 'llvm.stackrestore', 'llvm.va_start', 'llvm.va_end', 'llvm.prefetch', 'llvm.donothing', 'llvm.invariant', 'llvm.dbg')
def _nop(ex, st, a, fp, ins): return VOIDV
@prefix('llvm.stacksave')
def _ssave(ex, st, a, fp, ins): return NULL
@prefix('llvm.trap')
def _trap(ex, st, a, fp, ins):
    ex.fail(st, ex.task + '/trap'); raise PathEnd()
@prefix('llvm.umul.with.overflow.i64')
def _umulo(ex, st, a, fp, ins):
    x, y = a
    if isint(x) and isint(y): return Agg([(x * y) & mask(64), x * y > mask(64)])
    return Agg([mul(x, y), simp(b_not(z3.BVMulNoOverflow(bv(x, 64), bv(y, 64), False)))])
@prefix('llvm.uadd.with.overflow.i64')
def _uaddo(ex, st, a, fp, ins):
    s = add(a[0], a[1]); return Agg([s, ult(s, a[0])])
def _minmax(ex, st, a, fp, ins):
    n = fp.name; w = int(n.rsplit('.i', 1)[1]); x, y = bv(a[0], w), bv(a[1], w)
    c = {'umax': z3.UGE(x, y), 'umin': z3.ULE(x, y), 'smax': x >= y, 'smin': x <= y}[n.split('.')[1]]
    return simp(z3.If(c, x, y))
for _n in ('llvm.umax.', 'llvm.umin.', 'llvm.smax.', 'llvm.smin.'): BUILTIN_PREFIX.append((_n, _minmax))
@prefix('llvm.bswap.')
def _bswap(ex, st, a, fp, ins):
    w = int(fp.name.rsplit('.i', 1)[1]); n = w // 8
    return concat_le([byte_of(a[0], n - 1 - i) for i in range(n)])
@prefix('llvm.fshl.')
def _fshl(ex, st, a, fp, ins):
    w = int(fp.name.rsplit('.i', 1)[1]); x, y, s = bv(a[0], w), bv(a[1], w), a[2]
    if not isint(s): raise EngineError('fshl')
    s %= w
    return simp((x << s) | z3.LShR(y, w - s)) if s else a[0]
@prefix('llvm.eh.typeid.for')
def _tid(ex, st, a, fp, ins):
    p = a[0]
    nm = next((k for k, o in ex.globals_cache.items() if o == p.obj), None) if p.obj else None
    return ex.typeid(nm)
@prefix('llvm.objectsize.')
def _osz(ex, st, a, fp, ins): return mask(64)
@prefix('llvm.ctlz.', 'llvm.cttz.', 'llvm.ctpop.', 'llvm.abs.')
def _bits(ex, st, a, fp, ins):
    w = int(fp.name.rsplit('.i', 1)[1]); x = bv(a[0], w); k = fp.name.split('.')[1]
    if k == 'abs': return simp(z3.If(x < 0, -x, x))
    if k == 'ctpop': return simp(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)], z3.BitVecVal(0, w)))
    r = z3.BitVecVal(w, w)
    rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
    for i in rng: r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if k == 'ctlz' else i, w), r)
    return simp(r)

def alloc(ex, st, size, name, kind, zero=False, align=16):
    mem = BZero() if zero else None
    o = ex.new_obj(st, name, size, mem, kind)
    o.meta['align'] = align; o.meta['alloc'] = True
    # allocations succeed only for sizes below 2^47
    if not isint(size): ex.assume(st, z3.ULE(bv(size, 64), z3.BitVecVal(1 << 47, 64)))
    elif size > (1 << 47): raise PathEnd()
    return Ptr(o.id, 0)
@builtin('malloc')
def _malloc(ex, st, a, fp, ins): return alloc(ex, st, a[0], 'malloc', 'malloc')
@builtin('calloc')
def _calloc(ex, st, a, fp, ins): return alloc(ex, st, mul(a[0], a[1]), 'calloc', 'malloc', zero=True)
@builtin('_Znwm', '_Znam', '_ZnwmSt11align_val_t')
def _new(ex, st, a, fp, ins): return alloc(ex, st, a[0], 'new', 'new' if fp.name != '@_Znam' else 'new[]')
@builtin('llvm.threadlocal.address.p0')
def _tls(ex, st, a, fp, ins): return a[0]
@builtin('__cxa_thread_atexit')
def _tae(ex, st, a, fp, ins): return 0
@builtin('posix_memalign')
def _pma(ex, st, a, fp, ins):
    p = alloc(ex, st, a[2], 'memalign', 'malloc', align=a[1])
    ex.store(st, a[0], 8, p); return 0
@builtin('realloc')
def _realloc(ex, st, a, fp, ins):
    p, n = a
    if p.obj == 0: return alloc(ex, st, n, 'malloc', 'malloc')
    chk_free(ex, st, p, 'malloc')
    o = st.objs[p.obj]
    q = alloc(ex, st, n, 'realloc', 'malloc')
    ml = simp(z3.If(z3.ULE(bv(o.size, 64), bv(n, 64)), bv(o.size, 64), bv(n, 64)))
    ex.copy(st, q, Ptr(p.obj, 0), ml, chk=False)
    st.obj_w(p.obj).alive = False
    return q
def chk_free(ex, st, p, kind):
    if isinstance(p, FnPtr): raise EngineError('free fn')
    o = st.objs.get(p.obj)
    nm = ex.task + '/mem-safety'
    if o is None: raise EngineError('free of unknown %r' % p)
    if o.kind not in ('malloc', 'new', 'new[]'):
        ex.fail(st, nm + '/free-non-heap', info=o.name); raise PathEnd()
    if not o.alive:
        ex.fail(st, nm + '/double-free', info=o.name); raise PathEnd()
    if o.kind != kind:
        ex.fail(st, nm + '/free-kind-mismatch', info='%s freed as %s' % (o.kind, kind)); raise PathEnd()
    ex.prove(st, eq(p.off, 0), nm + '/free-interior', 'safety')
@builtin('free')
def _free(ex, st, a, fp, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.obj == 0:
        return VOIDV
    chk_free(ex, st, p, 'malloc'); st.obj_w(p.obj).alive = False
    return VOIDV
@builtin('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t')
def _del(ex, st, a, fp, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.obj == 0: return VOIDV
    chk_free(ex, st, p, 'new' if '_Zdl' in fp.name else 'new[]'); st.obj_w(p.obj).alive = False
    return VOIDV
@builtin('abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '__assert_fail', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv',
         '_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt20__throw_system_errori', '_ZSt25__throw_bad_function_callv')
def _abort(ex, st, a, fp, ins):
    ex.fail(st, ex.task + '/abort', info=fp.name); raise PathEnd()
@builtin('__cxa_allocate_exception')
def _exalloc(ex, st, a, fp, ins):
    o = ex.new_obj(st, 'exception', a[0], None, 'exc'); return Ptr(o.id, 0)
@builtin('__cxa_throw')
def _throw(ex, st, a, fp, ins):
    ti = a[1]; nm = next((k for k, o in ex.globals_cache.items() if o == ti.obj), None)
    return Throw(a[0], nm)
@builtin('__cxa_begin_catch')
def _bcatch(ex, st, a, fp, ins): return a[0]
@builtin('__cxa_end_catch', '__cxa_free_exception', '__cxa_guard_release', '__cxa_atexit')
def _ecatch(ex, st, a, fp, ins): return 0
@builtin('__cxa_rethrow')
def _rethrow(ex, st, a, fp, ins): return Throw(*st.exc)
@builtin('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy', 'sched_yield', 'pthread_mutex_trylock',
         'pthread_spin_lock', 'pthread_spin_unlock', 'pthread_spin_init', 'pthread_spin_destroy')
def _mtx(ex, st, a, fp, ins): return 0
@std(r'std::(recursive_)?mutex::(lock|unlock|mutex)\(\)|std::(lock_guard|unique_lock)<std::(recursive_)?mutex>::(~?(lock_guard|unique_lock)|lock|unlock)\(.*\)|std::this_thread::yield\(\)')
def _lg(ex, st, a, fp, ins): return 0
@builtin('strlen')
def _strlen(ex, st, a, fp, ins):
    # contract: first zero byte at distance r
    p = a[0]; o = st.objs.get(p.obj)
    if o is None: ex.fail(st, ex.task + '/mem-safety/null-read'); raise PathEnd()
    if isinstance(o.mem, BConst) and isint(p.off):
        return o.mem.data.index(b'\0', p.off) - p.off
    r = ex.fresh('strlen', 64)
    ex.assume(st, b_and(ult(r, o.size), ult(add(p.off, r), o.size)))
    ex.assume(st, eq(ex.rd(st, o.mem, add(p.off, r), 1), 0, 8))
    st.ghost.setdefault('strlen', ()); st.ghost['strlen'] = st.ghost['strlen'] + ((p, r),)
    return r
def memcmp_model(ex, st, a, b, n, w=32):
    """r==0 iff all n bytes equal (instantiated at the witness and on demand through ghost 'memcmp'); sign = first difference"""
    if not (isint(n) and n == 0):
        ex.deref(st, a, n, 'read'); ex.deref(st, b, n, 'read')
    if isint(n) and n <= 16:
        r = z3.BitVecVal(0, w)
        for i in reversed(range(n)):
            x = bv(ex.rd(st, st.objs[a.obj].mem, add(a.off, i), 1), 8); y = bv(ex.rd(st, st.objs[b.obj].mem, add(b.off, i), 1), 8)
            r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, w), z3.BitVecVal(1, w)))
        return simp(r)
    r = ex.fresh('memcmp', w); d = ex.fresh('memcmp_diff', 64)
    am = st.objs[a.obj].mem; bm = st.objs[b.obj].mem
    x = bv(ex.rd(st, am, add(a.off, d), 1), 8); y = bv(ex.rd(st, bm, add(b.off, d), 1), 8)
    ex.assume(st, z3.Or(r == 0, z3.And(z3.ULT(d, bv(n, 64)), x != y, (r < 0) == z3.ULT(x, y))))
    st.ghost['memcmp'] = st.ghost.get('memcmp', ()) + (dict(r=r, d=d, a=a, am=am, b=b, bm=bm, n=n),)
    return r
@builtin('memcmp', 'bcmp')
def _memcmp(ex, st, a, fp, ins): return memcmp_model(ex, st, a[0], a[1], a[2])
def memcmp_inst(ex, st, rec, j):
    """universally quantified part of memcmp's contract at index j"""
    x = bv(ex.rd(st, rec['am'], add(rec['a'].off, j), 1), 8); y = bv(ex.rd(st, rec['bm'], add(rec['b'].off, j), 1), 8)
    j = bv(j, 64)
    return z3.And(z3.Implies(z3.And(rec['r'] == 0, z3.ULT(j, bv(rec['n'], 64))), x == y),
                  z3.Implies(z3.And(rec['r'] != 0, z3.ULT(j, rec['d'])), x == y))
@builtin('__errno_location')
def _errno(ex, st, a, fp, ins):
    if 'errno' not in st.ghost:
        o = ex.new_obj(st, 'errno', 4, None, 'global'); st.ghost['errno'] = o.id
    return Ptr(st.ghost['errno'], 0)

# std::string: {char* p; size_t len; char local[16]} ; contents live in a fresh character object
def str_make(ex, st, this, dataobj_mem, srcoff, ln, name='str'):
    o = ex.new_obj(st, name, add(ln, 1), None, 'strdata')
    o.mem = C(o.mem, 0, ln, dataobj_mem, srcoff); o.mem = W(o.mem, ln, 1, 0)
    o.meta['len'] = ln
    ex.store(st, this, 8, Ptr(o.id, 0)); ex.store(st, this.add(8), 8, ln)
    return o
def str_get(ex, st, p):
    d = ex.load(st, p, 8, 'ptr'); n = ex.load(st, p.add(8), 8)
    return d, n
BS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
@std(BS + r'::basic_string\(char const\*, std::allocator<char> const&\)|' + BS + r'::basic_string<std::allocator<char> ?>\(char const\*, std::allocator<char> const&\)')
def _s_c(ex, st, a, fp, ins):
    n = _strlen(ex, st, [a[1]], None, None); str_make(ex, st, a[0], st.objs[a[1].obj].mem, a[1].off, n); return 0
@std(BS + r'::basic_string\(\)')
def _s_d(ex, st, a, fp, ins): str_make(ex, st, a[0], BZero(), 0, 0); return 0
@std(BS + r'::basic_string\(' + BS + r' (const&|&&)\)')
def _s_cp(ex, st, a, fp, ins):
    d, n = str_get(ex, st, a[1]); str_make(ex, st, a[0], st.objs[d.obj].mem, d.off, n); return 0
@std(BS + r'::~basic_string\(\)')
def _s_dt(ex, st, a, fp, ins): return 0
@std(r'std::allocator<char>::~?allocator\(\)|std::__new_allocator<char>::~?__new_allocator\(\)')
def _al(ex, st, a, fp, ins): return 0
@std(BS + r'::operator=\(' + BS + r' (const&|&&)\)')
def _s_as(ex, st, a, fp, ins):
    d, n = str_get(ex, st, a[1]); str_make(ex, st, a[0], st.objs[d.obj].mem, d.off, n); return a[0]
def concat(ex, st, dst, m1, o1, n1, m2, o2, n2):
    o = ex.new_obj(st, 'strcat', add(add(n1, n2), 1), None, 'strdata')
    o.mem = C(C(o.mem, 0, n1, m1, o1), n1, n2, m2, o2); o.mem = W(o.mem, add(n1, n2), 1, 0)
    o.meta['cat'] = (m1, n1, m2, n2)
    ex.store(st, dst, 8, Ptr(o.id, 0)); ex.store(st, dst.add(8), 8, add(n1, n2))
@std(BS + r' std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>\(' + BS + r' (const&|&&), char const\*\)')
def _s_pl(ex, st, a, fp, ins):
    d, n = str_get(ex, st, a[1]); n2 = _strlen(ex, st, [a[2]], None, None)
    concat(ex, st, a[0], st.objs[d.obj].mem, d.off, n, st.objs[a[2].obj].mem, a[2].off, n2); return 0
@std(BS + r' std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>\(' + BS + r' (const&|&&), ' + BS + r' (const&|&&)\)')
def _s_pl2(ex, st, a, fp, ins):
    d, n = str_get(ex, st, a[1]); d2, n2 = str_get(ex, st, a[2])
    concat(ex, st, a[0], st.objs[d.obj].mem, d.off, n, st.objs[d2.obj].mem, d2.off, n2); return 0
@std(BS + r'::(c_str|data)\(\) const')
def _s_cs(ex, st, a, fp, ins): return ex.load(st, a[0], 8, 'ptr')
@std(BS + r'::(size|length)\(\) const')
def _s_sz(ex, st, a, fp, ins): return ex.load(st, a[0].add(8), 8)
@std(BS + r'::empty\(\) const')
def _s_em(ex, st, a, fp, ins): return eq(ex.load(st, a[0].add(8), 8), 0)
