"""Discharging obligations: z3 (in process), GF(2) normaliser, cvc5 / z3-new subprocess fallbacks."""
import z3, subprocess, time, tempfile, os, shutil

TOTAL = {'z3': 0.0, 'gf2': 0.0, 'cvc5': 0.0, 'z3-new': 0.0}

def gf2_vec(e, atoms, cache):
    """affine forms over GF(2), one int per bit (bit i of int = atom i, bit 0 = constant 1); None if not affine"""
    k = e.get_id()
    if k in cache: return cache[k]
    r = _gf2(e, atoms, cache)
    cache[k] = r
    return r

def skey(e, atoms, cache):
    """structural key of a term that is not linear: operator and the canonical forms of its arguments"""
    ck = ('k', e.get_id())
    if ck in cache: return cache[ck]
    d = e.decl(); ch = e.children()
    if not ch or not all(z3.is_bv(c) for c in ch): r = ('id', e.get_id())
    else:
        k = d.kind()
        vs = [tuple(gf2_vec(c, atoms, cache)) for c in ch]
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            # flatten nested applications of the same operator, constants folded by the simplifier
            fl = []
            for c, v in zip(ch, vs):
                if c.decl().kind() == k and ('k', c.get_id()) in cache and cache[('k', c.get_id())][0] == k: fl += list(cache[('k', c.get_id())][-1])
                else: fl.append(v)
            vs = sorted(fl)
        elif k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR): vs = sorted(vs)
        r = (k, d.name(), tuple(map(str, e.params())), e.size(), tuple(vs))
    cache[ck] = r
    return r

def _atom(e, i, atoms, cache):
    key = (skey(e, atoms, cache), i)
    if key not in atoms: atoms[key] = (len(atoms) + 1, e)
    return 1 << atoms[key][0]

def _gf2(e, atoms, cache):
    n = e.size() if z3.is_bv(e) else 1
    d = e.decl().kind()
    if z3.is_bv_value(e):
        v = e.as_long(); return [(v >> i) & 1 for i in range(n)]
    ch = e.children()
    if d == z3.Z3_OP_BXOR:
        r = [0] * n
        for c in ch:
            v = gf2_vec(c, atoms, cache)
            r = [a ^ b for a, b in zip(r, v)]
        return r
    if d == z3.Z3_OP_BNOT:
        return [a ^ 1 for a in gf2_vec(ch[0], atoms, cache)]
    if d == z3.Z3_OP_CONCAT:
        r = []
        for c in reversed(ch): r += gf2_vec(c, atoms, cache)
        return r
    if d == z3.Z3_OP_EXTRACT:
        hi, lo = e.params(); return gf2_vec(ch[0], atoms, cache)[lo:hi + 1]
    if d == z3.Z3_OP_ZERO_EXT:
        v = gf2_vec(ch[0], atoms, cache); return v + [0] * (n - len(v))
    if d == z3.Z3_OP_SIGN_EXT:
        v = gf2_vec(ch[0], atoms, cache); return v + [v[-1]] * (n - len(v))
    if d in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
        s = ch[1].as_long(); v = gf2_vec(ch[0], atoms, cache)
        if s >= n: return [0] * n
        return [0] * s + v[:n - s] if d == z3.Z3_OP_BSHL else v[s:] + [0] * s
    if d == z3.Z3_OP_BAND and len(ch) == 2:
        for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
            if z3.is_bv_value(a):
                m = a.as_long(); v = gf2_vec(b, atoms, cache); return [v[i] if (m >> i) & 1 else 0 for i in range(n)]
    if d == z3.Z3_OP_BOR:
        vs = [gf2_vec(c, atoms, cache) for c in ch]; r = [0] * n; ok = True
        for i in range(n):
            nz = [v[i] for v in vs if v[i] != 0]
            if len(nz) > 1: ok = False; break
            r[i] = nz[0] if nz else 0
        if ok: return r
    if d == z3.Z3_OP_ITE:
        c, a, b = ch
        va = gf2_vec(a, atoms, cache); vb = gf2_vec(b, atoms, cache)
        diff = [x ^ y for x, y in zip(va, vb)]
        if all(x in (0, 1) for x in diff):
            cv = gf2_bool(c, atoms, cache)
            if cv is not None: return [y ^ (cv if x else 0) for x, y in zip(diff, vb)]
    return [_atom(e, i, atoms, cache) for i in range(n)]

def gf2_bool(c, atoms, cache):
    k = c.decl().kind()
    if k == z3.Z3_OP_EQ and z3.is_bv(c.children()[0]):
        a, b = c.children()
        va = gf2_vec(a, atoms, cache); vb = gf2_vec(b, atoms, cache)
        d = [x ^ y for x, y in zip(va, vb)]
        nz = [x for x in d if x != 0]
        if not nz: return 1
        if len(nz) == 1: return nz[0] ^ 1
        return None
    if k == z3.Z3_OP_NOT:
        v = gf2_bool(c.children()[0], atoms, cache); return None if v is None else v ^ 1
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return None

def gf2_valid(goal):
    """goal is an equality of bit-vectors that are equal as affine GF(2) forms"""
    if z3.is_and(goal): return all(gf2_valid(g) for g in goal.children())
    if z3.is_eq(goal) and z3.is_bv(goal.children()[0]):
        a, b = goal.children(); atoms = {}; cache = {}
        return gf2_vec(a, atoms, cache) == gf2_vec(b, atoms, cache)
    return False

def subst_eqs(pc, goal):
    """use path equalities  constant == term  as rewrite rules (only for equalities between bit-vectors)"""
    if not (z3.is_eq(goal) and z3.is_bv(goal.children()[0])) or len(pc) > 400: return None
    m = {}
    for c in pc:
        for e in (c.children() if z3.is_and(c) else [c]):
            if z3.is_eq(e) and z3.is_bv(e.children()[0]):
                a, b = e.children()
                for x, y in ((a, b), (b, a)):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name() and x.get_id() not in m:
                        if z3.is_const(y) and not z3.is_bv_value(y): continue
                        m[x.get_id()] = (x, y); break
    if not m: return None
    return z3.substitute(goal, *m.values())

def check_valid(pc, goal, solver=None, timeout=20000, tier='quick', use_gf2=True, cli=True):
    """-> (status 'proved'|'failed'|'unknown', model or None, backend)"""
    t = time.time()
    if use_gf2:
        try:
            g2 = subst_eqs(pc, goal)
            if gf2_valid(z3.simplify(goal, elim_ite=False)) or gf2_valid(goal) or (g2 is not None and gf2_valid(g2)):
                TOTAL['gf2'] += time.time() - t
                return 'proved', None, 'gf2'
        except z3.Z3Exception: pass
        except RecursionError: pass
        TOTAL['gf2'] += time.time() - t
    t = time.time()
    if solver is not None:
        solver.push(); solver.add(z3.Not(goal)); solver.set('timeout', min(timeout, 800))
        r = solver.check(); m = solver.model() if r == z3.sat else None
        solver.pop(); TOTAL['z3'] += time.time() - t
        if r == z3.unsat: return 'proved', None, 'z3'
        if r == z3.sat: return 'failed', m, 'z3'
    def fresh(tmo):
        t = time.time(); s.set('timeout', int(tmo)); r = s.check(); TOTAL['z3'] += time.time() - t
        if r == z3.unsat: return 'proved', None, 'z3'
        if r == z3.sat: return 'failed', s.model(), 'z3'
    def other(tool, tmo):
        t = time.time(); r = run_cli(s, tool, int(tmo)); TOTAL[tool] += time.time() - t
        if r == 'unsat': return 'proved', None, tool
        if r == 'sat': return 'failed', None, tool
    s = z3.Solver(); s.add(*pc); s.add(z3.Not(goal))
    if not cli: return fresh(timeout) or ('unknown', None, 'none')
    k = 1 if tier == 'quick' else 4
    return (fresh(min(timeout, 3000)) or other('cvc5', min(timeout, 6000)) or fresh(timeout) or other('cvc5', timeout * k) or other('z3-new', timeout * k)
            or case_split(pc, goal, timeout))

def if_conds(goal, limit=20000):
    cnt = {}; seen = set(); todo = [goal]; n = 0
    while todo and n < limit:
        e = todo.pop(); n += 1
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): continue
        if z3.is_app_of(e, z3.Z3_OP_ITE) and not z3.is_bool(e):
            c = e.children()[0]
            while z3.is_not(c): c = c.children()[0]
            k = c.get_id(); cnt[k] = (cnt.get(k, (0,))[0] + 1, c)
        todo += e.children()
    return sorted(cnt.values(), key=lambda x: -x[0])

def case_split(pc, goal, timeout, depth=0, budget=None):
    """split on the conditions of the conditional terms inside the goal, then ask z3 for every case"""
    if budget is None: budget = [time.time() + 3 * timeout / 1000]
    cs = if_conds(goal)
    if not cs or depth > 4 or time.time() > budget[0]: return 'unknown', None, 'none'
    c = cs[0][1]
    for v in (True, False):
        b = z3.BoolVal(v)
        g = z3.simplify(z3.substitute(goal, (c, b)))
        p = [z3.simplify(z3.substitute(x, (c, b))) for x in pc] + [c if v else z3.Not(c)]
        t = time.time()
        s = z3.Solver(); s.set('timeout', min(timeout, 5000)); s.add(*p); s.add(z3.Not(g))
        r = s.check(); m = s.model() if r == z3.sat else None
        TOTAL['z3'] += time.time() - t
        if r == z3.sat: return 'failed', m, 'z3 (case split)'
        if r == z3.unknown:
            st, m, be = case_split(p, g, timeout, depth + 1, budget)
            if st != 'proved': return st, m, be
    return 'proved', None, 'z3 (case split)'

def run_cli(s, tool, timeout):
    exe = shutil.which(tool)
    if not exe: return 'unknown'
    txt = s.to_smt2()
    fd, fn = tempfile.mkstemp(suffix='.smt2'); os.write(fd, ('(set-logic ALL)\n' + txt).encode()); os.close(fd)
    try:
        cmd = [exe, '--tlimit=%d' % timeout, fn] if tool == 'cvc5' else [exe, '-T:%d' % max(1, timeout // 1000), fn]
        o = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout / 1000 + 5).stdout.strip().split('\n')
        return o[0] if o else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(fn)
