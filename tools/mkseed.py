#!/usr/bin/env python3
"""Authoring aid for planted bugs: mkseed.py FILE.json|py ... each defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ text), srcs=[...])].
Writes /verif/seeded/<id>/, runs the demo on a clean and on a patched copy, and (unless -n) the property's check against the patched copy."""
import sys, os, subprocess, shutil, json, runpy, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# run with cwd = the repository; compiles demo.cc against its sources and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=gnu++17 -O1 -g %(flags)s -w -fno-access-control -pthread -I"$R/include" -I"$R/src" -I"$R/tools" -I"$R/tests" -I"$D" -DLOGGER_H="$R/src/logger.h" "$D/demo.cc" %(srcs)s -o "$W/demo" -ldl || exit 2
cd "$W" && timeout %(tmo)d ./demo
'''
nocheck = '-n' in sys.argv; only = [a[2:] for a in sys.argv if a.startswith('-o')]
for fn in [a for a in sys.argv[1:] if not a.startswith('-')]:
    for s in runpy.run_path(fn)['SEEDS']:
        if only and s['id'] not in only: continue
        d = '%s/seeded/%s' % (H, s['id']); os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        sh('cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (w, w))
        open(d + '/demo.cc', 'w').write(s['demo'])
        for k, v in s.get('files', {}).items():
            os.makedirs(os.path.dirname(d + '/' + k), exist_ok=True); open(d + '/' + k, 'w').write(v)
        open(d + '/demo.sh', 'w').write(DEMO % dict(srcs=' '.join('"$R/%s"' % x for x in s.get('srcs', [])), tmo=s.get('timeout', 120), flags=s.get('flags', '-DNDEBUG')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        c = sh('bash %s/demo.sh' % d, cwd=w)
        if c.returncode: print(s['id'], 'DEMO FAILS ON CLEAN', c.returncode, c.stdout[-1500:], c.stderr[-1500:])
        ok = True
        for f, old, new in s['edits']:
            t = open(w + '/' + f).read()
            if t.count(old) != 1: print(s['id'], 'EDIT MATCHES', t.count(old), repr(old)); ok = False; break
            open(w + '/' + f, 'w').write(t.replace(old, new))
        if ok:
            open(d + '/patch.diff', 'w').write(sh('git diff', cwd=w).stdout)
            p = sh('bash %s/demo.sh' % d, cwd=w)
            print(s['id'], 'demo with patch: rc', p.returncode, (p.stdout + p.stderr)[-300:].strip().replace('\n', ' | '))
            if p.returncode in (0, 2): print(s['id'], 'DEMO DOES NOT FAIL WITH THE PATCH')
            if not nocheck:
                r = sh('VERIF_REPO=%s VERIF_SEED=1 ./check %s' % (w, s['prop']), cwd=H)
                print(s['id'], 'check rc', r.returncode, '|', r.stdout.strip()[-300:].replace('\n', ' | '))
        shutil.rmtree(w)
        sys.stdout.flush()
