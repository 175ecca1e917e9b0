"""C03: MurmurHash3."""
import sys, z3
from llcv.check import Check
from llcv.prog import HERE
from llcv.sym import *
from .lib import *
from . import murmur

chk = Check('C03', ['src/murmurhash3.cc', HERE + '/specs/tu/hash.cc'], harness='C03.cc', harness_srcs=['src/murmurhash3.cc'],
            assumptions=['a key of length n refers to n readable bytes, 0 <= n < 2^31 (the hash takes its length as int)', 'little-endian machine (the code is compiled for it)',
                         'the published algorithm is transcribed in specs/murmur.py and, independently, in harness/C03.cc against its published verification values'])
class Bytes:
    """the key bytes; an offset is rewritten to an equal canonical one (equality established by the solver on the path)"""
    def __init__(self, ex, name): self.ex = ex; self.f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8)); self.canon = []; self.known = []
    def at(self, off):
        if isint(off): return self.f(bv(off, 64))
        off = simp(off)
        if isint(off): return self.f(bv(off, 64))
        for e, c, j, cond in self.known:
            d = simp(bv(off, 64) - bv(e, 64))
            if isint(d) and sx(d, 64) in range(-16, 17) and self.ex.must(None, cond): return self.f(bv(add(c, (j + d) & mask(64)), 64))
        for c in self.canon:
            d = simp(bv(off, 64) - bv(c, 64))
            if isint(d) and sx(d, 64) in range(-16, 33): return self.f(bv(add(c, d), 64))
        for c in self.canon:
            for j in range(0, 16):
                cond = eq(off, add(c, j))
                if cond is not False and self.ex.must(None, cond):
                    self.known.append((off, c, j, cond)); return self.f(bv(add(c, j), 64))
        return self.f(bv(off, 64))
class H:
    """h(off): the register vector after the whole blocks in [0, off): h(0) = seed, h(off+block) = step(h(off), block bytes)"""
    def __init__(self, alg, by, seed):
        self.alg = alg; self.by = by; w = alg.width; self.seed = [seed if w == 32 else z3.ZeroExt(32, seed)] * alg.comps
        self.fs = [z3.Function('H%d' % i, z3.BitVecSort(64), z3.BitVecSort(w)) for i in range(alg.comps)]
    def raw(self, off): return [f(bv(off, 64)) for f in self.fs]
    def __call__(self, off, depth=3):
        off = simp(off); B = self.alg.block
        if isint(off):
            if off <= depth * B and off % B == 0: return self.unf(0, off // B, self.seed)
            return self.raw(off)
        if off.decl().kind() == z3.Z3_OP_BADD:
            cs = [c.as_long() for c in off.children() if z3.is_bv_value(c)]
            if len(cs) == 1 and cs[0] % B == 0 and 0 < cs[0] // B <= depth: b = simp(off - cs[0]); return self.unf(b, cs[0] // B, self.raw(b))
        return self.raw(off)
    def unf(self, b, n, r):
        for i in range(n): r = self.alg.step(r, [self.by.f(bv(add(b, i * self.alg.block + j), 64)) for j in range(self.alg.block)])
        return r
def setup(t, alg):
    ex = t.ex; B = alg.block; lg = B.bit_length() - 1
    n = t.bvs('len', 32); t.assume(n >= 0); seed = t.bvs('seed', 32)
    by = Bytes(ex, 'key')
    d = t.obj('key', simp(z3.ZeroExt(32, n)), BFun(by.at)); out = t.obj('out', alg.width // 8 * alg.comps)
    T = simp(z3.ZeroExt(32, z3.Concat(z3.Extract(31, lg, n), z3.BitVecVal(0, lg))))
    nb = simp(z3.ZeroExt(32, z3.LShR(n, lg)))
    h = H(alg, by, seed); by.canon = [T]; ks = []
    def offs(cx):
        out = [('k', mul(cx.k, B))]
        for i, ph in enumerate(cx.phis):
            v = cx.cur[ph]; ty = cx.entry[ph][0]
            if isinstance(v, Ptr): continue
            if ty[0] == 'i' and ty[1] in (32, 64) and cx.ivs.get(ph) is not None: pass
        return out
    def cands(cx):
        out = [('k<=nblocks', ule(cx.k, nb))]; kk = mul(cx.k, B)
        r = h(kk)
        for i, ph in enumerate(cx.phis):
            v = cx.cur[ph]; ty = cx.entry[ph][0]
            if isinstance(v, Ptr):
                if v.obj == d.obj: out.append(('p%d==block*k' % i, eq(v.off, kk)))
                continue
            if ty == ('i', alg.width) and ph not in cx.ivs:
                for c in range(alg.comps): out.append(('phi%d==h%d' % (i, c), bv(v, alg.width) == r[c]))
            if ty[0] == 'i' and ty[1] in (32, 64) and ph in cx.ivs:
                e = bv(v, ty[1]); e64 = z3.SignExt(32, e) if ty[1] == 32 else e
                for s in (1, B, B // 4, B // 8): 
                    if s: out.append(('phi%d==%d*(k-nb)' % (i, s), simp(e64 == (bv(cx.k, 64) - nb) * s))); out.append(('phi%d==%d*k' % (i, s), simp(e64 == bv(cx.k, 64) * s)))
        return out
    def lem(cx):
        kk = mul(cx.k, B)
        if not isint(kk) and not any(simp(kk).eq(c) for c in by.canon if not isint(c)): by.canon.append(simp(kk))
        return []
    ex.loop_cands = cands; ex.loop_lemmas = lem; ex.cand_timeout = 1500; ex.assume_proved = False; ex.default_iv_only = True
    return n, seed, d, out, T, h, by
for alg in (murmur.X86_32, murmur.X86_128, murmur.X64_128):
    nm = alg.__name__
    @chk.task('%s' % nm)
    def _(t, alg=alg):
        n, seed, d, out, T, h, by = setup(t, alg); ex = t.ex; st0 = t.st.clone(); B = alg.block
        def post(st, r):
            rem = next((j for j in range(B) if ex.must(st, eq(n & (B - 1), j, 32))), None)
            if rem is None: raise EngineError('tail length not determined on this path')
            regs = h.raw(T); t0 = T
            for c in by.canon[1:]:
                if ex.must(st, eq(T, c)): regs = h(c); t0 = c; break
            else:
                if ex.must(st, eq(T, 0)): regs = h(0)
            ref = alg.final(regs, [by.at(add(T, j)) for j in range(rem)], n)
            w = alg.width // 8
            for c in range(alg.comps):
                t.prove(st, bv(ex.rdv(st, out.add(w * c), w), 8 * w) == ref[c], 'word %d equals the published hash' % c)
            j = t.bvs('j_any')
            t.prove(st, st.objs[d.obj].mem is st0.objs[d.obj].mem or eq(ex.byte(st, d.obj, j), ex.byte(st0, d.obj, j), 8), 'key unchanged'); t.cover('rem%d' % rem)
        t.run(alg.pat, [d, n, seed, out], post)
# helpers: which bytes are hashed, with which seed
def hash_contract(t, name, words, w):
    """callee contract of the hash proved above: pure function of the given bytes, length and seed"""
    calls = []
    def h(ex, st, a, f, i):
        key, n, seed, out = a
        if not isint(n) or n: ex.deref(st, key, zext(n, 32, 64), 'read')
        ex.prove(st, simp(bv(n, 32) >= 0), t.name + '/hash length fits the int parameter', 'requires')
        vals = [ex.fresh('hash', 8 * w) for _ in range(words)]
        for k in range(words): ex.store(st, out.add(k * w), w, vals[k])
        st.ghost['hash'] = st.ghost.get('hash', ()) + (dict(key=key, n=n, seed=seed, vals=vals, name=name),)
        return 0
    t.prog.contract(r'%s\(.*\)' % name, h)
SB = 'jungle::SizedBuf'
def helper(fn, name, words, w, expect, extra=()):
    @chk.task(fn.replace('\\', ''))
    def _(t):
        ex = t.ex
        for a_, b_, c_ in (('MurmurHash3_x86_32', 1, 4), ('MurmurHash3_x64_128', 2, 8), ('MurmurHash3_x86_128', 4, 4)): hash_contract(t, a_, b_, c_)
        n = t.bvs('size', 32); t.assume(z3.ULT(n, z3.BitVecVal(1 << 31, 32))); d = t.obj('key', zext(n, 32, 64)); sb = sb_make(t, 'buf', n, d)
        lim = t.bvs('limit'); t.assume(lim != 0)
        def post(st, r):
            hs = st.ghost.get('hash', ())
            t.prove(st, len(hs) == 1 and hs[0]['name'] == name, 'exactly one call of %s' % name)
            if len(hs) != 1: return
            hcall = hs[0]
            t.prove(st, hcall['key'].obj == d.obj and eq(hcall['key'].off, 0), 'hashes the buffer from its first byte')
            t.prove(st, eq(hcall['n'], n, 32), 'hashes the whole buffer'); t.prove(st, eq(hcall['seed'], 0, 32), 'seed 0')
            t.prove(st, eq(r, expect(hcall['vals'], lim)), 'result')
        t.run(fn, [sb] + [lim for _ in extra], post)
helper(r'get_murmur_hash_32\(.*\)|jungle::get_murmur_hash_32\(.*\)', 'MurmurHash3_x86_32', 1, 4, lambda v, l: z3.ZeroExt(32, v[0]))
helper(r'get_murmur_hash\(.*\)|jungle::get_murmur_hash\(.*\)', 'MurmurHash3_x86_32', 1, 4, lambda v, l: z3.URem(z3.ZeroExt(32, v[0]), l), (1,))
helper(r'get_murmur_hash_64\(.*\)|jungle::get_murmur_hash_64\(.*\)', 'MurmurHash3_x64_128', 2, 8, lambda v, l: v[0])
for kind in ('no custom length', 'no config', 'custom length'):
    @chk.task('get_hash_pair/' + kind)
    def _(t, kind=kind):
        ex = t.ex; hash_contract(t, 'MurmurHash3_x64_128', 2, 8)
        n = t.bvs('size', 32); t.assume(z3.ULT(n, z3.BitVecVal(1 << 31, 32))); d = t.obj('key', zext(n, 32, 64)); sb = sb_make(t, 'buf', n, d)
        out = t.obj('out', 16); part = t.bvs('partial', 1)
        cfg = NULL if kind == 'no config' else t.obj('config', t.size('jungle::DBConfig'))
        if cfg.obj:
            has = kind == 'custom length'; clen = t.bvs('custom_len')
            t.prog.contract(r'std::function<unsigned long \(jungle::HashKeyLenParams const&\)>::operator bool\(\) const', lambda ex, st, a, f, i: has)
            def call(ex, st, a, f, i):
                st.ghost['asked'] = st.ghost.get('asked', ()) + ((a[1], t.getp(st, a[1], 'jungle::HashKeyLenParams', 'key') if False else None),)
                return clen
            t.prog.contract(r'std::function<unsigned long \(jungle::HashKeyLenParams const&\)>::operator\(\)\(jungle::HashKeyLenParams const&\) const', call)
        def post(st, r):
            hs = st.ghost.get('hash', ())
            t.prove(st, len(hs) == 1, 'hashed once')
            if len(hs) != 1: return
            used = b_and(clen != 0, z3.ULE(clen, zext(n, 32, 64))) if kind == 'custom length' else False
            exp = simp(z3.If(bo(used), z3.Extract(31, 0, clen), n)) if kind == 'custom length' else n
            t.prove(st, eq(hs[0]['n'], exp, 32), 'hashes the custom prefix when it is in range, otherwise the whole key')
            t.prove(st, hs[0]['key'].obj == d.obj and eq(hs[0]['key'].off, 0), 'hashes the key from its first byte'); t.prove(st, eq(hs[0]['seed'], 0, 32), 'seed 0')
            t.prove(st, bo(r) == bo(used), 'reports whether a custom length was used')
            for k in range(2): t.prove(st, eq(ex.rdv(st, out.add(8 * k), 8), hs[0]['vals'][k]), 'pair word %d' % k)
        t.run(r'(jungle::)?get_hash_pair\(.*\)', [cfg, sb, part, out], post)
if __name__ == '__main__': sys.exit(chk.main())
