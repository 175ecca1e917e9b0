"""Textual LLVM-IR (LLVM 18, opaque pointers) reader: the subset clang emits for the C++ in /repo.
Function bodies are parsed lazily.  Debug metadata is read for C++ member offsets and virtual slots."""
import re, subprocess

class IRError(Exception):
    pass

TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"            # string / quoted
 | c"(?:[^"])*"
 | [%@]"[^"]*" | [%@][-\w.$]+ | \$"[^"]*" | \$[-\w.$]+
 | ![\w.]* (?:\([^)]*\))?
 | \#\d+
 | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+
 | \.\.\.
 | [A-Za-z_][\w.]*
 | <\{ | \}> | [\[\]{}()<>,=*:|]
''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1; continue
        if c == ';':
            break
        if c == 'c' and pos + 1 < n and s[pos+1] == '"':
            e = s.index('"', pos + 2); out.append(s[pos:e+1]); pos = e + 1; continue
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: %r' % s[pos:pos+40])
        out.append(m.group(0)); pos = m.end()
    return out

# ---- types: ('i',n) ('ptr',) ('void',) ('fp',bits) ('arr',n,t) ('struct',(t..),packed) ('named',name) ('vec',n,t) ('meta',) ('func',)
I1 = ('i', 1); I8 = ('i', 8); I16 = ('i', 16); I32 = ('i', 32); I64 = ('i', 64); PTR = ('ptr',); VOID = ('void',)

ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned immarg inreg
 nofree nosync nounwind willreturn swiftself noinline allocalign allocptr writable dead_on_unwind mustprogress
 local_unnamed_addr unnamed_addr dso_local internal external linkonce_odr weak_odr weak linkonce private available_externally
 common appending hidden protected default fastcc ccc coldcc tail musttail notail thread_local
 nuw nsw exact inbounds disjoint nneg volatile fast nnan ninf nsz arcp contract afn reassoc'''.split())

class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks; self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if x != y: raise IRError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))
    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return
    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None: return
            if x in ATTRS: self.i += 1
            elif x == 'align':
                self.i += 1
                if self.eat('('): self.next(); self.expect(')')
                else: self.i += 1
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'preallocated',
                       'elementtype', 'memory', 'range', 'initializes', 'allocsize', 'captures', 'nofpclass', 'addrspace'):
                self.i += 1; 
                if self.peek() == '(': self.skip_parens()
            elif x.startswith('#'): self.i += 1
            else: return

def parse_type(p):
    x = p.next()
    if x == 'ptr':
        t = PTR
        if p.peek() == 'addrspace': p.next(); p.skip_parens()
    elif x == 'void': t = VOID
    elif x[0] == 'i' and x[1:].isdigit(): t = ('i', int(x[1:]))
    elif x in ('float', 'double', 'half', 'x86_fp80', 'fp128'): t = ('fp', {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}[x])
    elif x == '[':
        n = int(p.next()); p.expect('x'); e = parse_type(p); p.expect(']'); t = ('arr', n, e)
    elif x == '{' or x == '<{':
        close = '}' if x == '{' else '}>'
        el = []
        while p.peek() != close:
            el.append(parse_type(p)); p.eat(',')
        p.next(); t = ('struct', tuple(el), x == '<{')
    elif x == '<':
        n = int(p.next()); p.expect('x'); e = parse_type(p); p.expect('>'); t = ('vec', n, e)
    elif x[0] == '%': t = ('named', x)
    elif x in ('metadata', 'token', 'label', 'opaque'): t = ('meta',)
    else: raise IRError('type? %s in %s' % (x, ' '.join(p.t[:40])))
    while p.peek() == '(':   # function type
        save = p.i; p.next(); params = []; va = False
        while p.peek() != ')':
            if p.eat('...'): va = True
            else:
                params.append(parse_type(p)); p.skip_attrs()
            p.eat(',')
        p.next(); t = ('func', t, tuple(params), va)
    return t

# ---- values: ('int',v) ('bool') ('null',) ('undef',) ('zero',) ('g',name) ('l',name) ('str',bytes) ('agg',[(t,v)]) ('ce',op,...) ('fp',txt) ('meta',)
CE = ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'add', 'sub', 'trunc', 'zext', 'sext', 'icmp', 'select', 'addrspacecast', 'xor', 'and', 'or', 'shl', 'mul')

def parse_value(p, t):
    x = p.next()
    c = x[0]
    if c == '%': return ('l', x)
    if c == '@': return ('g', unq(x))
    if x == 'null': return ('null',)
    if x == 'true': return ('int', 1)
    if x == 'false': return ('int', 0)
    if x in ('undef', 'poison'): return ('undef',)
    if x == 'zeroinitializer': return ('zero',)
    if x == 'none': return ('undef',)
    if c == 'c' and x[1:2] == '"': return ('str', unescape(x[2:-1]))
    if (c.isdigit() or c == '-') and t[0] == 'i': return ('int', int(x) & ((1 << t[1]) - 1))
    if t[0] == 'fp': return ('fp', x)
    if x in CE: return parse_ce(p, x)
    if x in ('{', '[', '<{', '<'):
        close = {'{': '}', '[': ']', '<{': '}>', '<': '>'}[x]; el = []
        while p.peek() != close:
            tt = parse_type(p); el.append((tt, parse_value(p, tt))); p.eat(',')
        p.next(); return ('agg', el)
    if c == '!':
        return ('meta',)
    if x in ('dso_local_equivalent', 'no_cfi'): return parse_value(p, t)
    if x == 'asm':
        return ('asm',)
    raise IRError('value? %s in %s' % (x, ' '.join(p.t[:60])))

def parse_ce(p, op):
    p.skip_attrs()
    if op == 'icmp': pred = p.next()
    p.expect('(')
    if op == 'getelementptr':
        st = parse_type(p); p.expect(',')
        ops = parse_tvlist(p, ')')
        return ('ce', op, st, ops)
    if op in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
        t = parse_type(p); v = parse_value(p, t); p.expect('to'); t2 = parse_type(p); p.expect(')')
        return ('ce', op, (t, v), t2)
    ops = parse_tvlist(p, ')')
    if op == 'icmp': return ('ce', op, pred, ops)
    return ('ce', op, ops)

def parse_tvlist(p, close):
    ops = []
    while p.peek() != close:
        p.eat('inrange')
        t = parse_type(p); p.skip_attrs(); ops.append((t, parse_value(p, t))); p.eat(',')
    p.next()
    return ops

def unq(x):
    return x[0] + x[2:-1] if len(x) > 1 and x[1] == '"' else x

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin1') if ord(s[i]) < 256 else s[i].encode('utf8'); i += 1
    return bytes(out)

class Instr:
    __slots__ = ('op', 'dst', 'a', 'dbg', 'txt')
    def __init__(self, op, dst, a, dbg, txt):
        self.op = op; self.dst = dst; self.a = a; self.dbg = dbg; self.txt = txt

class Func:
    def __init__(self, mod, name, header, lines):
        self.mod = mod; self.name = name; self.header = header; self.lines = lines; self.parsed = False
    def parse(self):
        if self.parsed: return self
        self.parsed = True
        p = P(tokenize(self.header))
        p.expect('define'); 
        while True:
            p.skip_attrs()
            if p.peek() in ('comdat',): p.next(); continue
            break
        self.ret = parse_type(p); nm = p.next(); p.expect('(')
        self.params = []; n = 0; self.sret = None; self.vararg = False
        while p.peek() != ')':
            if p.eat('...'): self.vararg = True; continue
            t = parse_type(p); 
            if 'sret' == p.peek(): self.sret = n
            p.skip_attrs()
            v = p.next() if p.peek() and p.peek()[0] == '%' else '%%%d' % n
            self.params.append((t, v)); n += 1; p.eat(',')
        # blocks
        self.blocks = {}; self.order = []
        cur = None; i = 0; L = self.lines
        while i < len(L):
            ln = L[i]; i += 1
            s = ln.strip()
            if not s or s[0] == ';': continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):(\s|$)', ln)
            if m:
                lab = m.group(1); lab = '%' + (lab if lab[0] == '"' else lab)
                cur = []; self.blocks[lab] = cur; self.order.append(lab); continue
            if cur is None:
                lab = '%' + str(n)   # implicit entry label number
                cur = []; self.blocks[lab] = cur; self.order.append(lab)
            if s.startswith('switch '):
                while ']' not in s:
                    s += ' ' + L[i].strip(); i += 1
            while i < len(L) and L[i].startswith('          '):   # continuation: invoke/landingpad
                s += ' ' + L[i].strip(); i += 1
            if 'llvm.dbg.' in s or 'llvm.lifetime.' in s or 'llvm.experimental.noalias.scope' in s: continue
            cur.append(parse_instr(s))
        self.entry = self.order[0]
        self._cfg()
        return self
    def succs(self, b):
        ins = self.blocks[b][-1]
        if ins.op == 'br': return [ins.a[0]]
        if ins.op == 'condbr': return [ins.a[1], ins.a[2]]
        if ins.op == 'switch': return [ins.a[1]] + [l for _, l in ins.a[2]]
        if ins.op == 'invoke': return [ins.a['normal'], ins.a['unwind']]
        return []
    def _cfg(self):
        # natural loops: header -> set of blocks
        succ = {b: self.succs(b) for b in self.order}
        pred = {b: [] for b in self.order}
        for b in self.order:
            for s in succ[b]: pred[s].append(b)
        # RPO
        seen = set(); post = []
        st = [(self.entry, iter(succ[self.entry]))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = idom[a]
                while idx[b] > idx[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [q for q in pred[b] if q in idom]
                if not ps: continue
                nd = ps[0]
                for q in ps[1:]: nd = inter(nd, q)
                if idom.get(b) != nd: idom[b] = nd; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idom and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body: continue
                        body.add(x)
                        stk += [q for q in pred[x] if q in idx]
        self.succ = succ; self.pred = pred

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast fptoui fptosi uitofp sitofp fpext fptrunc addrspacecast'.split())

def parse_instr(s):
    dbg = None
    k = s.rfind('!dbg !')
    if k >= 0:
        m = re.match(r'!dbg !(\d+)', s[k:]); dbg = int(m.group(1))
    # strip trailing metadata
    k = s.find(', !')
    core = s
    if k >= 0 and 'metadata' not in s: core = s[:k]
    p = P(tokenize(core))
    dst = None
    if p.peek(1) == '=':
        dst = p.next(); p.next()
    op = p.next()
    def mk(o, a): return Instr(o, dst, a, dbg, s)
    def tv():
        t = parse_type(p); p.skip_attrs(); return (t, parse_value(p, t))
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op == 'call': return mk('call', parse_call(p))
    if op == 'invoke':
        c = parse_call(p); p.expect('to'); p.expect('label'); c['normal'] = p.next(); p.expect('unwind'); p.expect('label'); c['unwind'] = p.next()
        return mk('invoke', c)
    if op == 'ret':
        t = parse_type(p)
        return mk('ret', None if t == VOID else (t, parse_value(p, t)))
    if op == 'br':
        if p.eat('label'): return mk('br', (p.next(),))
        t, v = tv(); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return mk('condbr', ((t, v), a, b))
    if op == 'switch':
        t, v = tv(); p.expect(','); p.expect('label'); d = p.next(); p.expect('['); cs = []
        while not p.eat(']'):
            ct, cv = tv(); p.expect(','); p.expect('label'); cs.append((cv[1], p.next()))
        return mk('switch', ((t, v), d, cs))
    if op == 'unreachable': return mk(op, None)
    if op == 'resume': return mk(op, tv())
    if op in BIN:
        flags = set()
        while p.peek() in ATTRS: flags.add(p.next())
        t = parse_type(p); a = parse_value(p, t); p.expect(','); b = parse_value(p, t)
        return mk('bin', (op, t, a, b, flags))
    if op == 'fneg':
        p.skip_attrs(); t = parse_type(p); return mk('fneg', (t, parse_value(p, t)))
    if op == 'icmp':
        p.skip_attrs(); pr = p.next(); t = parse_type(p); a = parse_value(p, t); p.expect(','); b = parse_value(p, t)
        return mk('icmp', (pr, t, a, b))
    if op == 'fcmp':
        p.skip_attrs(); pr = p.next(); t = parse_type(p); a = parse_value(p, t); p.expect(','); b = parse_value(p, t)
        return mk('fcmp', (pr, t, a, b))
    if op in CASTS:
        p.skip_attrs(); t = parse_type(p); v = parse_value(p, t); p.expect('to'); t2 = parse_type(p)
        return mk('cast', (op, t, v, t2))
    if op == 'alloca':
        p.eat('inalloca'); t = parse_type(p); n = None
        if p.eat(','):
            if p.peek() not in ('align', 'addrspace'): n = tv(); 
        return mk('alloca', (t, n))
    if op == 'load':
        atom = p.eat('atomic'); p.eat('volatile'); t = parse_type(p); p.expect(','); a = tv()
        return mk('load', (t, a, atom))
    if op == 'store':
        atom = p.eat('atomic'); p.eat('volatile'); v = tv(); p.expect(','); a = tv()
        return mk('store', (v, a, atom))
    if op == 'getelementptr':
        p.skip_attrs(); t = parse_type(p); p.expect(','); ops = []
        while True:
            ops.append(tv())
            if not p.eat(','): break
        return mk('gep', (t, ops))
    if op == 'phi':
        p.skip_attrs(); t = parse_type(p); inc = []
        while p.eat('['):
            v = parse_value(p, t); p.expect(','); b = p.next(); p.expect(']'); inc.append((v, b)); p.eat(',')
        return mk('phi', (t, inc))
    if op == 'select':
        p.skip_attrs(); c = tv(); p.expect(','); a = tv(); p.expect(','); b = tv()
        return mk('select', (c, a, b))
    if op == 'extractvalue':
        a = tv(); ix = []
        while p.eat(','): ix.append(int(p.next()))
        return mk('extractvalue', (a, ix))
    if op == 'insertvalue':
        a = tv(); p.expect(','); b = tv(); ix = []
        while p.eat(','): ix.append(int(p.next()))
        return mk('insertvalue', (a, b, ix))
    if op == 'cmpxchg':
        p.eat('weak'); p.eat('volatile'); a = tv(); p.expect(','); e = tv(); p.expect(','); n = tv()
        return mk('cmpxchg', (a, e, n))
    if op == 'atomicrmw':
        p.eat('volatile'); o = p.next(); a = tv(); p.expect(','); v = tv()
        return mk('atomicrmw', (o, a, v))
    if op == 'fence': return mk('fence', None)
    if op == 'landingpad':
        t = parse_type(p); cl = []; cleanup = False
        while p.peek() is not None:
            x = p.next()
            if x == 'cleanup': cleanup = True
            elif x in ('catch', 'filter'):
                tt = parse_type(p); v = parse_value(p, tt); cl.append((x, v))
        return mk('landingpad', (t, cleanup, cl))
    if op == 'freeze': return mk('freeze', tv())
    if op == 'va_arg': return mk('unsupported', s)
    return mk('unsupported', s)

def parse_call(p):
    p.skip_attrs()
    rt = parse_type(p)
    if rt[0] == 'func': rt = rt[1]
    p.skip_attrs()
    callee = parse_value(p, PTR)
    if callee[0] == 'asm':
        while p.peek() != '(': p.next()
    p.expect('('); args = []
    while p.peek() != ')':
        if p.peek() == 'metadata':
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                x = p.next()
                if x in '([{': d += 1
                if x in ')]}': d -= 1
            args.append((('meta',), ('meta',)))
        else:
            t = parse_type(p); p.skip_attrs()
            args.append((t, parse_value(p, t)))
        p.eat(',')
    p.next(); p.skip_attrs()
    if p.eat('['):   # operand bundles
        while p.next() != ']': pass
    return {'ret': rt, 'callee': callee, 'args': args}

class Module:
    def __init__(self, text, path='?'):
        self.path = path
        self.types = {}; self.funcs = {}; self.decls = {}; self.globals = {}; self.aliases = {}; self.md = {}
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln); nm = '@' + m.group(1).strip('"')
                hdr = ln[:ln.rindex('{')]
                k = hdr.find(' !dbg'); 
                dbg = None
                if k >= 0:
                    mm = re.search(r'!dbg !(\d+)', hdr); dbg = int(mm.group(1))
                hdr = re.sub(r' personality .*$', '', hdr); hdr = re.sub(r' comdat(\([^)]*\))?', '', hdr); hdr = re.sub(r' section "[^"]*"', '', hdr)
                hdr = re.sub(r' !dbg.*$', '', hdr); hdr = re.sub(r' align \d+\s*$', '', hdr)
                f = Func(self, nm, hdr, lines[i+1:j]); f.dbg = dbg
                self.funcs[nm] = f
                i = j + 1; continue
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                self.types[nm] = ('opaque',) if body.strip() == 'opaque' else body
            elif ln.startswith('@'):
                nm, body = ln.split(' = ', 1)
                self.globals[unq(nm)] = body
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                self.decls['@' + m.group(1).strip('"')] = ln
            elif ln.startswith('!') and ' = ' in ln:
                a, b = ln.split(' = ', 1); self.md[a] = b
            i += 1
        self._ginit = {}
        self._lay = {}
        self.dem = demangle_all([f[1:] for f in list(self.funcs) + list(self.decls)])
    # ---- layout
    def rt(self, t):
        if t[0] == 'named':
            b = self.types[t[1]]
            if isinstance(b, str):
                b = parse_type(P(tokenize(b))); self.types[t[1]] = b
            return b
        return t
    def align(self, t):
        t = self.rt(t); k = t[0]
        if k == 'i': return max(1, min(16, (t[1] + 7) // 8)) if t[1] <= 64 else 16
        if k == 'ptr': return 8
        if k == 'fp': return {32: 4, 64: 8, 16: 2}.get(t[1], 16)
        if k == 'arr': return self.align(t[2])
        if k == 'struct': return 1 if t[2] else max([self.align(x) for x in t[1]] + [1])
        if k == 'vec': return self.size(t)
        raise IRError('align %s' % (t,))
    def size(self, t):
        if t in self._lay: return self._lay[t]
        r0 = t; t = self.rt(t); k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8; r = 1
            while r < n: r *= 2
        elif k == 'ptr': r = 8
        elif k == 'fp': r = {32: 4, 64: 8, 16: 2}.get(t[1], 16)
        elif k == 'arr': r = t[1] * self.size(t[2])
        elif k == 'vec': r = t[1] * self.size(t[2])
        elif k == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x); o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t); r = (o + a - 1) // a * a
        elif k == 'opaque': raise IRError('size of opaque')
        else: raise IRError('size %s' % (t,))
        self._lay[r0] = r
        return r
    def field_off(self, t, idx):
        t = self.rt(t); o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x); o = (o + a - 1) // a * a
            if j == idx: return o
            o += self.size(x)
        raise IRError('field')
    def global_def(self, nm):
        """-> (type, value or None, is_const)"""
        if nm in self._ginit: return self._ginit[nm]
        body = self.globals[nm]
        k = body.find(', !'); 
        body = re.sub(r', (comdat|align \d+|section "[^"]*"|!dbg ![0-9]+)(\([^)]*\))?', '', body) if not 'c"' in body else re.sub(r'(, (comdat|align \d+|!dbg ![0-9]+)(\([^)]*\))?)+$', '', body)
        p = P(tokenize(body)); const = False; ext = False; alias = False
        while True:
            x = p.peek()
            if x in ('constant', 'global'):
                const = x == 'constant'; p.next(); break
            if x == 'alias': alias = True; p.next(); break
            if x == 'external': ext = True
            p.next()
            if p.peek() == '(': p.skip_parens()
        t = parse_type(p)
        if alias:
            p.eat(','); p2 = parse_type(p); v = parse_value(p, p2); r = (PTR, ('alias', v), True)
        else:
            v = None
            if p.peek() is not None and not ext and p.peek() != ',': v = parse_value(p, t)
            r = (t, v, const)
        self._ginit[nm] = r
        return r
    # ---- debug info
    def _mdfields(self, ref):
        b = self.md.get(ref)
        if not b: return None, {}
        m = re.match(r'(?:distinct )?!(\w+)\((.*)\)\s*$', b)
        if not m: return 'node', b
        d = {}
        for mm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|[^,]+)', m.group(2)):
            d[mm.group(1)] = mm.group(2).strip('"') if mm.group(2)[0] == '"' else mm.group(2)
        return m.group(1), d
    def line(self, dbg):
        if dbg is None: return None
        k, d = self._mdfields('!%d' % dbg)
        return int(d['line']) if k == 'DILocation' else None
    def _qual(self, ref, depth=0):
        k, d = self._mdfields(ref)
        if k == 'DINamespace':
            pre = self._qual(d['scope']) if 'scope' in d and d['scope'] != 'null' else ''
            return pre + d.get('name', '(anon)') + '::'
        if k == 'DICompositeType':
            pre = self._qual(d['scope']) if 'scope' in d else ''
            return pre + d.get('name', '(anon)') + '::'
        return ''
    def _comp_index(self):
        if hasattr(self, '_ci'): return
        self._ci = {}; self._cm = {}
        for ref, b in self.md.items():
            if 'DICompositeType(' in b and ('elements:' in b or 'identifier' in b):
                k, d = self._mdfields(ref)
                q = self._qual(ref)[:-2]
                if 'elements' in d and 'name' in d: self._ci[q] = ref
            elif 'DW_TAG_typedef' in b:            # typedef struct {...} name
                k, d = self._mdfields(ref); base = self.md.get(d.get('baseType'), '')
                if 'DICompositeType(' in base and ', name:' not in base: self._ci.setdefault(d['name'], d['baseType'])
        for ref, b in self.md.items():
            if 'DIDerivedType(tag: DW_TAG_member' in b or 'DIDerivedType(tag: DW_TAG_inheritance' in b:
                k, d = self._mdfields(ref)
                self._cm.setdefault(d.get('scope'), []).append(d)
            elif 'DISubprogram(' in b and 'virtualIndex' in b:
                k, d = self._mdfields(ref)
                self._cm.setdefault(d.get('scope'), []).append(dict(d, _virt=1))
    def _di_size(self, ref):
        k, d = self._mdfields(ref)
        if 'size' in d: return int(d['size']) // 8
        if d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'): return self._di_size(d['baseType'])
        if 'DW_TAG_reference_type' in d.get('tag', '') or 'pointer' in d.get('tag', ''): return 8
        raise IRError('di size %s' % ref)
    def class_fields(self, cls):
        """{member: (offset, size)} for qualified class name, including inherited members"""
        self._comp_index()
        if cls not in self._ci: raise IRError('class not in debug info: ' + cls)
        return self._fields_ref(self._ci[cls])
    def _fields_ref(self, ref):
        out = {}
        for d in self._cm.get(ref, []):
            if d.get('_virt'): continue
            off = int(d.get('offset', 0)) // 8
            if d['tag'] == 'DW_TAG_inheritance':
                b = d['baseType']
                while self._mdfields(b)[1].get('tag') == 'DW_TAG_typedef': b = self._mdfields(b)[1]['baseType']
                for k, (o, s) in self._fields_ref(b).items(): out[k] = (off + o, s)
            elif 'flags' in d and 'DIFlagStaticMember' in d['flags']: continue
            else:
                out[d.get('name', '')] = (off, int(d['size']) // 8 if 'size' in d else self._di_size(d['baseType']))
        return out
    def class_size(self, cls):
        self._comp_index()
        return int(self._mdfields(self._ci[cls])[1]['size']) // 8
    def member_type(self, cls, member):
        self._comp_index()
        for d in self._cm.get(self._ci[cls], []):
            if d.get('name') == member: return d['baseType']
    def virtuals(self, cls):
        """slot -> list of linkage/plain names declared in class cls (own declarations only)"""
        self._comp_index(); out = {}
        for d in self._cm.get(self._ci[cls], []):
            if d.get('_virt'): out[int(d['virtualIndex'])] = (d.get('name'), d.get('linkageName'))
        return out
    def find(self, pat):
        """functions (defined) whose demangled name matches regex fully"""
        r = re.compile(pat)
        return [f for f in self.funcs if r.fullmatch(self.dem.get(f[1:], f[1:]))]

_dcache = {}
def demangle_all(names):
    todo = [n for n in names if n not in _dcache]
    if todo:
        out = subprocess.run(['c++filt'], input='\n'.join(todo), capture_output=True, text=True).stdout.split('\n')
        for a, b in zip(todo, out): _dcache[a] = b
    return {n: _dcache[n] for n in names}
