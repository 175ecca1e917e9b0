"""One check = the verification tasks of one property + conformance/replay harness + evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, traceback, multiprocessing, resource, re, hashlib
import z3
from . import ir, smt
from .sym import *
from .exe import Exec, PathEnd, Throw, Outcomes
from .prog import Program, REPO, HERE, CFLAGS, CXX

sys.setrecursionlimit(20000)

class Task:
    def __init__(self, name, func, bounded=None, expect_covers=()):
        self.name = name; self.func = func; self.bounded = bounded; self.expect = expect_covers

class T:
    """handed to task functions: convenience layer over Exec"""
    def __init__(self, check, prog, name, tier):
        self.check = check; self.prog = prog; self.name = name; self.tier = tier
        self.ex = Exec(prog, name, tier); self.st = State(); self.covers = set(); self.functions = []
        self.entered = 0
    # -- state building
    def obj(self, name, size, mem=None, kind='input', **kw): return Ptr(self.ex.new_obj(self.st, name, size, mem, kind, **kw).id, 0)
    def bvs(self, name, w=64): return self.ex.sym(name, w)
    def assume(self, c): self.ex.assume(self.st, c)
    def put(self, p, n, v): self.ex.store(self.st, p, n, v, chk=False)
    def field(self, cls, name, mod=None):
        for m in ([mod] if mod else self.prog.mods.values()):
            try: return m.class_fields(cls)[name]
            except (ir.IRError, KeyError): continue
        raise EngineError('attachment: member %s::%s' % (cls, name))
    def size(self, cls):
        for m in self.prog.mods.values():
            try: return m.class_size(cls)
            except (ir.IRError, KeyError): continue
        raise EngineError('attachment: class ' + cls)
    def set(self, p, cls, name, v):
        o, n = self.field(cls, name); self.put(p.add(o), n, v)
    def get(self, st, p, cls, name):
        o, n = self.field(cls, name); return self.ex.rdv(st, p.add(o), n)
    def getp(self, st, p, cls, name):
        o, n = self.field(cls, name); return self.ex.rdp(st, p.add(o))
    # -- run
    def run(self, fnpat, args, post, fresh=False):
        """verify one function: all paths from the current state; post(st, ret)"""
        fn = fnpat if not isinstance(fnpat, str) else self.prog.fn(fnpat)
        ex = self.ex
        dem = fn.mod.dem.get(fn.name[1:], fn.name)
        self.functions.append(dem)
        st = self.st.clone()
        ret0 = ex.returns
        if ex.solver.check() == z3.unsat: raise EngineError('vacuous precondition in ' + self.name)
        ex.solver.push()
        try:
            ex.start(st, fn, args)
            def end(s, r):
                if s.pc and ex.dry == 0:
                    ex.solver.set('timeout', 3000)
                    if ex.solver.check() == z3.unsat: return
                ex.returns += 1
                post(s, r)
            ex.run(st, end)
        finally: ex.solver.pop()
        if ex.returns == ret0 and not getattr(self, 'noreturn_ok', False):
            if not any(o.status == 'failed' for o in ex.obligs.values()):
                raise EngineError('no path of %s reaches its end (vacuous)' % dem)
    def prove(self, st, goal, name, kind='ensures', info=None): return self.ex.prove(st, goal, self.name + '/' + name, kind, info=info)
    def cover(self, name): self.covers.add(name)

def run_task(args):
    check, task, tier = args
    t0 = time.time()
    out = dict(name=task.name, status='undecided', reason='', obligations=0, discharged=0, failed=[], unknown=[], backends={}, inlined=[], trusted=[], contracts=[], wall=0, functions=[], loops=[], paths=0, names=[])
    t = T(check, check.prog, task.name, tier)
    check.prog.handlers = list(check.base_handlers); check.prog.cache = {}; check.prog.virt = dict(check.base_virt)
    check.prog.trusted = set(); check.prog.used_contracts = set()
    t.ex.deadline = t0 + (check.task_limit if tier == 'quick' else check.task_limit * 4)
    try:
        task.func(t)
        missing = [c for c in task.expect if c not in t.covers]
        ob = t.ex.obligs
        failed = [o for o in ob.values() if o.status == 'failed']; unk = [o for o in ob.values() if o.status == 'unknown']
        if failed: out['status'] = 'failed'
        elif unk: out['status'] = 'undecided'; out['reason'] = 'solver gave no answer: ' + ', '.join(o.name for o in unk)
        elif t.ex.n_obl == 0: out['status'] = 'undecided'; out['reason'] = 'no obligations generated'
        elif missing: out['status'] = 'undecided'; out['reason'] = 'reachability covers not reached: ' + ', '.join(missing)
        else: out['status'] = 'proved'
    except (EngineError, ir.IRError, RecursionError, z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, ValueError, StopIteration, AssertionError, NotImplementedError) as e:
        out['reason'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        out['where'] = traceback.format_exc()[-1500:]
        if any(o.status == 'failed' for o in t.ex.obligs.values()): out['status'] = 'failed'
    ob = t.ex.obligs
    out['obligations'] = t.ex.n_obl; out['discharged'] = t.ex.n_dis
    out['failed'] = [o.as_dict() for o in ob.values() if o.status == 'failed']
    out['unknown'] = [o.as_dict() for o in ob.values() if o.status == 'unknown']
    out['names'] = sorted(ob)
    out['backends'] = t.ex.backends; out['inlined'] = sorted(t.ex.inlined); out['trusted'] = sorted(check.prog.trusted); out['contracts'] = sorted(check.prog.used_contracts)
    out['functions'] = sorted(set(t.functions)); out['loops'] = [list(map(str, x)) for x in getattr(t.ex, 'loop_report', [])][:20]; out['paths'] = t.ex.paths
    out['wall'] = round(time.time() - t0, 2); out['bounded'] = task.bounded
    out['solver_time'] = dict(smt.TOTAL)
    return out

def guarded(args, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    for k in smt.TOTAL: smt.TOTAL[k] = 0.0
    try: r = run_task(args)
    except BaseException as e:
        r = dict(name=args[1].name, status='undecided', reason='engine: %s %s' % (type(e).__name__, str(e)[:200]), where=traceback.format_exc()[-1500:], obligations=0, discharged=0, failed=[], unknown=[],
                 backends={}, inlined=[], trusted=[], contracts=[], wall=0, functions=[], loops=[], paths=0, names=[], bounded=args[1].bounded, solver_time={})
    q.put(r)

class Check:
    def __init__(self, pid, srcs, assumptions=(), harness=None, harness_srcs=(), harness_flags=(), task_limit=240, level='proof', minmax=False):
        self.minmax = minmax
        self.pid = pid; self.srcs = list(srcs); self.tasks = []; self.assumptions = list(assumptions)
        self.harness = harness; self.harness_srcs = list(harness_srcs); self.harness_flags = list(harness_flags)
        self.task_limit = task_limit; self.base_handlers = []; self.base_virt = {}; self.setup = None; self.level = level; self.budget = 520
        self.tier = os.environ.get('VERIF_TIER', 'quick'); self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.harness_time = (8, 60, 150)   # conformance quick, conformance thorough, search after a failed proof
    def task(self, name, bounded=None, covers=()):
        def d(f): self.tasks.append(Task(self.pid + '/' + name, f, bounded, covers)); return f
        return d
    # ---- proof part
    def run_tasks(self, only=None):
        res = []
        tasks = [t for t in self.tasks if not only or re.search(only, t.name)]
        ctx = multiprocessing.get_context('fork')
        pend = list(tasks); running = []; stop = time.time() + (self.budget if self.tier == 'quick' else self.budget * 6)
        while pend or running:
            if time.time() > stop: res += [self.dead(tk, 'time budget of the check') for tk in pend]; pend = []
            while pend and len(running) < 8:
                tk = pend.pop(0); q = ctx.SimpleQueue()
                p = ctx.Process(target=guarded, args=((self, tk, self.tier), q)); p.start()
                running.append((p, q, tk, time.time()))
            time.sleep(0.02)
            for item in list(running):
                p, q, tk, t0 = item
                lim = (self.task_limit if self.tier == 'quick' else self.task_limit * 4) + 30
                if not q.empty():
                    res.append(q.get()); p.join(); running.remove(item)
                elif not p.is_alive():
                    time.sleep(0.05)
                    if not q.empty(): res.append(q.get())
                    else: res.append(self.dead(tk, 'worker died (memory limit?)'))
                    running.remove(item)
                elif time.time() - t0 > lim or time.time() > stop:
                    p.kill(); p.join(); running.remove(item); res.append(self.dead(tk, 'time limit'))
        order = {t.name: i for i, t in enumerate(tasks)}
        res.sort(key=lambda r: order[r['name']])
        return res
    def dead(self, tk, why):
        return dict(name=tk.name, status='undecided', reason=why, obligations=0, discharged=0, failed=[], unknown=[], backends={}, inlined=[], trusted=[], contracts=[], wall=0, functions=[], loops=[], paths=0, names=[], bounded=tk.bounded, solver_time={})
    # ---- concrete part
    def build_harness(self, work):
        exe = os.path.join(work, 'harness')
        src = os.path.join(HERE, 'harness', self.harness)
        cmd = ['g++', '-std=gnu++17', '-O1', '-g', '-DNDEBUG', '-w', '-fno-access-control', '-pthread'] + [f for f in CFLAGS if f.startswith('-I') or f.startswith('-DLOGGER') or f.startswith('-DTEST')] + self.harness_flags
        if '-fno-san' not in self.harness_flags: cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,vptr,signed-integer-overflow,shift,nonnull-attribute,returns-nonnull-attribute']
        cmd = [c for c in cmd if c != '-fno-san']
        objs = []
        procs = []
        for i, s in enumerate([src] + [os.path.join(REPO, x) for x in self.harness_srcs]):
            o = os.path.join(work, 'h%d.o' % i); objs.append(o)
            procs.append((s, subprocess.Popen(cmd + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode: return None, 'compile %s: %s' % (s, out[-1500:])
        r = subprocess.run(cmd + objs + ['-o', exe, '-ldl'], capture_output=True, text=True)
        if r.returncode: return None, 'link: ' + r.stderr[-1500:]
        return exe, None
    def run_harness(self, exe, secs, seed, work, extra=()):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=8192', UBSAN_OPTIONS='print_stacktrace=0', TMPDIR=work)
        cmd = [exe, '--seed', str(seed), '--time', str(secs), '--dir', work] + list(extra)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs * 3 + 90, env=env, cwd=work)
        except subprocess.TimeoutExpired as e:
            return dict(rc=124, out=((e.stdout or b'').decode('latin1') if isinstance(e.stdout, bytes) else (e.stdout or '')) + '\nharness time limit', cmd=' '.join(cmd))
        return dict(rc=r.returncode, out=(r.stdout[-6000:] + '\n' + r.stderr[-6000:]), cmd=' '.join(cmd))
    # ---- main
    def main(self, argv=None):
        t0 = time.time(); argv = sys.argv[1:] if argv is None else argv
        only = None; verbose = '-v' in argv or '-vv' in argv
        for a in argv:
            if a.startswith('--only='): only = a[7:]
        work = tempfile.mkdtemp(prefix='llcv_%s_' % self.pid, dir=os.environ.get('VERIF_WORK'))
        self.work = work
        results = []; build_err = None; conf = None; search = None; harness_err = None
        try:
            try:
                self.prog = Program(self.srcs, work, self.minmax)
                if self.setup: self.setup(self)
                self.base_handlers = list(self.prog.handlers); self.base_virt = dict(self.prog.virt)
                results = self.run_tasks(only)
            except Exception as e:
                build_err = '%s: %s' % (type(e).__name__, str(e)[:1500])
                if verbose: traceback.print_exc()
            failed = [r for r in results if r['status'] == 'failed']
            undec = [r for r in results if r['status'] == 'undecided']
            known = self.known()
            if self.harness and '--no-harness' not in argv:
                exe, harness_err = self.build_harness(work)
                if exe:
                    trouble = bool(failed or undec or build_err)
                    secs = self.harness_time[2] if trouble else self.harness_time[1 if self.tier == 'thorough' else 0]
                    if trouble and self.tier == 'thorough': secs *= 2
                    # several seeds in parallel
                    n = 6 if trouble else 3
                    import concurrent.futures
                    with concurrent.futures.ThreadPoolExecutor(n) as tp:
                        def one(i):
                            w = os.path.join(work, 'h_%d' % i); os.makedirs(w, exist_ok=True)
                            return self.run_harness(exe, secs, self.seed * 1000 + i, w)
                        runs = list(tp.map(one, range(n)))
                    conf = dict(runs=[dict(rc=r['rc'], stats=stats_of(r['out'])) for r in runs], seconds=secs, searching=trouble)
                    bad = [r for r in runs if r['rc'] not in (0, 124, 77)]
                    if bad: search = bad[0]
            violations = []
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            if search:
                rp = os.path.join(HERE, 'replays', self.pid + '.txt')
                with open(rp, 'w') as f:
                    f.write('property %s: concrete failing input on the real code\n' % self.pid)
                    f.write('harness: %s (built from %s with %s)\n' % (self.harness, REPO, ' '.join(self.harness_srcs)))
                    f.write('command: %s\n\n%s\n' % (search['cmd'], search['out']))
                    for r in failed: f.write(json.dumps(r['failed'], indent=1, default=str)[:20000] + '\n')
                violations.append('VIOLATION property=%s replay=%s' % (self.pid, rp))
            elif failed:
                solid = [o for r in failed if not r.get('bounded') for o in r['failed']]
                if solid:
                    rp = os.path.join(HERE, 'replays', self.pid + '.txt')
                    with open(rp, 'w') as f:
                        f.write('property %s: failed obligations (no failing input found by the replay search)\n' % self.pid)
                        f.write(json.dumps(solid, indent=1, default=str)[:60000] + '\n')
                    violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, rp))
            for k in known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
            for v in violations: print(v)
            self.evidence(results, build_err, conf, harness_err, violations, t0, known)
            if verbose or os.environ.get('VERIF_VERBOSE'):
                for r in results:
                    print('%-44s %-10s %5d/%-5d %6.1fs paths=%d %s' % (r['name'], r['status'], r['discharged'], r['obligations'], r['wall'], r['paths'], r['reason'][:200]))
                    for o in r['failed'] + r['unknown']: print('     ', o['status'], o['name'], o['where'], 'tainted' if o['tainted'] else ''); 
                    if '-vv' in argv:
                        for o in r['failed'] + r['unknown']: print('         ', str(o['info'])[:3000])
                        for l in r['loops']: print('      loop', l)
                        if r.get('where'): print(r['where'])
                if build_err: print('build:', build_err)
                if harness_err: print('harness:', harness_err)
                if conf: print('conformance:', conf)
                if search: print(search['out'][-3000:])
            n = sum(r['obligations'] for r in results); d = sum(r['discharged'] for r in results)
            print('%s: %d/%d obligations discharged, %d tasks proved, %d failed, %d undecided, %.1fs' % (self.pid, d, n, sum(r['status'] == 'proved' for r in results), len(failed), len(undec), time.time() - t0))
            return 1 if violations else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    def known(self):
        out = []
        p = os.path.join(HERE, 'known_findings.txt')
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r'known: property=(\w+) (.*)', ln.strip())
                if m and m.group(1) == self.pid: out.append(m.group(2))
        return out
    def evidence(self, results, build_err, conf, harness_err, violations, t0, known):
        n = sum(r['obligations'] for r in results); d = sum(r['discharged'] for r in results)
        proved = [r for r in results if r['status'] == 'proved' and not r.get('bounded')]
        bounded = [r['name'] + ': ' + r['bounded'] for r in results if r.get('bounded')]
        full = bool(results) and all(r['status'] == 'proved' for r in results)
        be = {}
        for r in results:
            for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
        stime = {}
        for r in results:
            for k, v in r.get('solver_time', {}).items(): stime[k] = round(stime.get(k, 0) + v, 2)
        trusted = sorted({x for r in results for x in r['trusted']})
        cov = dict(obligations=n, discharged=d,
                   checker_cmd='./check %s (llcv VC generator on LLVM IR of %s; z3 %s, GF(2) normaliser, cvc5/z3-new fallback)' % (self.pid, ', '.join(self.srcs), z3.get_version_string()),
                   trusted_base=['clang 18 front end and LLVM passes ' + ('always-inline (std::min/max only),sroa,simplifycfg' if self.minmax else 'mem2reg,simplifycfg'), 'llcv VC generator (/verif/llcv)', 'z3 ' + z3.get_version_string()] + ['assumed contract: ' + x for x in trusted],
                   functions_under_contract=sorted({f for r in proved for f in r['functions']}),
                   inlined_real_code=sorted({f for r in proved for f in r['inlined']})[:200],
                   callee_contracts_used=sorted({x for r in results for x in r['contracts']}),
                   backends=be, solver_seconds=stime, paths=sum(r['paths'] for r in results),
                   tasks=[dict(name=r['name'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], wall_s=r['wall'], reason=r['reason']) for r in results],
                   loop_invariants=[l for r in results for l in r['loops']][:60],
                   bounded_stand_ins=bounded)
        if conf: cov['conformance_of_contracts_on_real_code'] = conf
        if harness_err: cov['harness_error'] = harness_err
        if build_err: cov['build_error'] = build_err
        level = self.level if full else 'other'
        if not full:
            cov['explanation'] = 'Not every obligation was decided by the verifier on this tree; undecided tasks: ' + '; '.join('%s (%s)' % (r['name'], r['reason'] or r['status']) for r in results if r['status'] != 'proved') + \
                ('; build: ' + build_err if build_err else '') + '. For those the verdict rests on the bounded concrete search of the replay harness only.'
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)

def stats_of(out):
    m = re.findall(r'^STATS (.*)$', out, re.M)
    return m[-1] if m else ''
