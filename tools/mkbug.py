#!/usr/bin/env python3
"""mkbug.py FILE.py...: plants the bugs described in FILE.py (BUGS = [dict(id, property, pkg, edits=[(file, old, new)],
demo=<Go test source with TestDemo>, needs, what_it_breaks)]), confirms each in a scratch copy of /repo and keeps the
confirmed ones under /verif/seeded/<id>/."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

DEMO = '''#!/bin/bash
# Runs the test beside this file inside the package it needs (by overlay).
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%s/zz_demo_test.go" "$D/demo_test.go.txt" > "$T/ov.json"
cd "$PWD/%s" || exit 3
TMPDIR=$T timeout 250 go test -tags cppbtree -vet=off -count=1 -overlay "$T/ov.json" -run '^TestDemo$' . 
'''

def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors='replace')

def plant(b):
    w = tempfile.mkdtemp(prefix='bug_')
    try:
        rc = w + '/repo'
        shutil.copytree('/repo', rc, symlinks=True)
        vp = w + '/vp'; os.makedirs(vp)
        for f in os.listdir('/opt/vp'):
            s = '/opt/vp/' + f
            if f.endswith('.sh') or f.endswith('.py'):
                t = open(s).read().replace('/opt/vp/logs', vp + '/logs').replace('cd /repo', 'cd ' + rc).replace('. /opt/vp/env.sh', '. %s/env.sh' % vp)
                open(vp + '/' + f, 'w').write(t)
        def demo():
            t = open(d + '/demo.sh').read().replace('. /opt/vp/env.sh', '. %s/env.sh' % vp)
            open(d + '/demo_x.sh', 'w').write(t)
            r = sh('bash %s/demo_x.sh' % d, cwd=rc, timeout=400)
            os.remove(d + '/demo_x.sh')
            return r
        d = w + '/' + b['id']; os.makedirs(d)
        pk = b['pkg'] or '.'
        open(d + '/demo.sh', 'w').write(DEMO % (pk, pk)); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go.txt', 'w').write(b['demo'])
        r, out = demo()
        if r: return b['id'], 'demo fails on the unchanged tree:\n' + out[-3000:]
        for f, old, new in b['edits']:
            p = rc + '/' + f; s = open(p).read()
            if s.count(old) != 1: return b['id'], 'edit matches %d times in %s: %s' % (s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh('git diff', cwd=rc)
        open(d + '/patch.diff', 'w').write(diff)
        r, out = sh('bash %s/build.sh' % vp, cwd=rc)
        if r: return b['id'], 'does not build:\n' + out[-2000:]
        r, out = demo()
        if r == 0: return b['id'], 'demo passes with the bug'
        dout = out
        for k in range(2):
            sh('bash %s/test.sh %s/out.json' % (vp, w), cwd=rc)
            o = json.load(open(w + '/out.json'))
            ps = set(o.get('passed', o.get('pass', [])))
            if STABLE <= ps: break
        else: return b['id'], 'tests fail: %s' % sorted(STABLE - ps)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dst = V + '/seeded/' + b['id']
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        return b['id'], 'OK ' + ' | '.join(l for l in dout.splitlines() if 'demo' in l.lower())[:300]
    finally:
        shutil.rmtree(w, ignore_errors=True)

bugs = [b for f in sys.argv[1:] if f.endswith('.py') for b in runpy.run_path(f)['BUGS']]
only = [a for a in sys.argv[1:] if not a.endswith('.py')]
if only: bugs = [b for b in bugs if b['id'] in only]
with ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(plant, bugs): print(i, ':', r, flush=True)
