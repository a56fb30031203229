#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree.

1. build the verifier (gover) and the test binaries of the bounded stand-ins;
2. gover proves every obligation of the property's contracts against the code;
3. the bounded checks run (they never count as proved);
4. a failed obligation is looked for in real executions with a larger budget.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
MOD = 'github.com/smartbch/moeingads'
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
START = time.time()
BUDGET = 780 if TIER == 'quick' else 3000


def left():
    return BUDGET - (time.time() - START)


def go_env(scratch):
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
    env = dict(kv.split('=', 1) for kv in out.decode(errors='replace').split('\0') if '=' in kv)
    env['TMPDIR'] = scratch
    return env


def run(cmd, env=None, cwd=None, timeout=None):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -9, out.decode(errors='replace') + '\n[timed out after %ds]' % timeout


def units_of(files):
    us = []
    for f in files:
        src = open(os.path.join(V, 'contracts', f)).read()
        pk = re.search(r'^package (\w+)', src, re.M).group(1)
        for m in re.finditer(r'^func ((?:contract|lemma)_\w+)\((?:[^{}]*)\{((?:.|\n)*?)^\}', src, re.M):
            if m.group(1).startswith('contract_iface_') or 'vcTrusted(' in m.group(2):
                continue
            us.append(pk + ':' + m.group(1))
    return us


def overlay(scratch):
    """JSON overlay of the bounded checks (in-package tests)."""
    rep = {}
    common = open(os.path.join(V, 'harness/common.txt')).read()
    base = os.path.join(V, 'harness')
    for root, _, fs in os.walk(base):
        fs = sorted(f for f in fs if f.endswith('_test.go'))
        if not fs:
            continue
        rel = os.path.relpath(root, base)
        pk = '' if rel == 'root' else rel
        name = re.search(r'^package (\w+)', open(os.path.join(root, fs[0])).read(), re.M).group(1)
        c = os.path.join(scratch, 'common_%s_test.go' % name)
        open(c, 'w').write(common.replace('package PKG', 'package ' + name, 1))
        for f in fs:
            rep[os.path.join(REPO, pk, 'zz_verif_' + f)] = os.path.join(root, f)
        rep[os.path.join(REPO, pk, 'zz_verif_common_test.go')] = c
    o = os.path.join(scratch, 'overlay.json')
    json.dump({'Replace': rep}, open(o, 'w'))
    return o


class Harness:
    """The bounded checks of one package."""

    def __init__(self, pkg, tests, scratch, env, ov):
        self.pkg, self.tests, self.scratch, self.env, self.ov = pkg, tests, scratch, env, ov
        self.bin = os.path.join(scratch, 'h_' + pkg.replace('/', '_') + '.test')
        self.error = None

    def build(self):
        cmd = ['go', 'test', '-c', '-vet=off', '-tags', 'cppbtree,debug', '-overlay', self.ov, '-o', self.bin,
               './' + ('' if self.pkg == 'root' else self.pkg)]
        rc, out = run(cmd, self.env, REPO, 600)
        if rc != 0 or not os.path.exists(self.bin):
            self.error = out

    def run(self, tier, seed, budget_ms, timeout, it=None):
        """-> (runs per test, failure or None)"""
        rd = tempfile.mkdtemp(dir=self.scratch)
        env = dict(self.env, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_BUDGET_MS=str(budget_ms), VERIF_REPLAY_DIR=rd,
                   VERIF_SCRATCH=rd, TMPDIR=rd)
        if it is not None:
            env['VERIF_ITER'] = str(it)
        counts, fail = {}, None
        for t in self.tests:
            rc, out = run([self.bin, '-test.run', '^' + t + '$', '-test.v', '-test.timeout', '%ds' % timeout], env, rd, timeout + 30)
            for m in re.finditer(r'^VRUNS (\S+) (\d+)', out, re.M):
                counts[m.group(1)] = int(m.group(2))
            if rc == 0 and t in counts or rc == 0 and it is not None:
                continue
            m = re.search(r'VFAIL (\S+) iter=(\d+) (.*)', out)
            f = os.path.join(rd, 'fail_%s.json' % t)
            cur = os.path.join(rd, 'cur_' + t)
            fail = {'package': self.pkg, 'test': t, 'seed': seed, 'tier': tier,
                    'iter': int(m.group(2)) if m else int(open(cur).read() or 0) if os.path.exists(cur) else 0,
                    'what': m.group(3) if m else 'the run crashed or hung', 'output': out[-6000:] if not m else ''}
            if os.path.exists(f):
                fail['detail'] = json.load(open(f))
            break
        shutil.rmtree(rd, ignore_errors=True)
        return counts, fail


def replay_file(prop, data):
    d = os.path.join(V, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (prop, os.getpid()))
    data['replay_with'] = 'python3 /verif/check.py %s --replay %s' % (prop, p)
    json.dump(data, open(p, 'w'), indent=1)
    return p


def main():
    prop = sys.argv[1]
    cfg = json.load(open(os.path.join(V, 'checks.json')))[prop]
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return check(prop, cfg, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, cfg, scratch):
    env = go_env(scratch)
    ov = overlay(scratch)
    hs = [Harness(p, ts, scratch, env, ov) for p, ts in cfg.get('harness', {}).items()]
    if '--replay' in sys.argv:
        f = json.load(open(sys.argv[sys.argv.index('--replay') + 1])).get('execution')
        if not f:
            print('the replay file has no failing execution: see its failed_obligations')
            return 1
        h = [h for h in hs if h.pkg == f['package']][0]
        h.tests = [f['test']]
        h.build()
        _, fail = h.run(f['tier'], f['seed'], 60000, 300, f['iter'])
        print(json.dumps(fail, indent=1) if fail else 'does not fail here')
        return 1 if fail else 0

    gover = os.path.join(scratch, 'gover')
    gerr = []

    def build_gover():
        e = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOCACHE='/root/.cache/go-build', TMPDIR=scratch)
        rc, out = run(['go', 'build', '-o', gover, '.'], e, os.path.join(V, 'gover'), 600)
        if rc != 0:
            gerr.append(out)

    ths = [threading.Thread(target=build_gover)] + [threading.Thread(target=h.build) for h in hs]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if gerr:
        print('cannot build the verifier:\n' + gerr[0])
        return 2

    # bounded stand-ins
    counts, fail = {}, None
    for h in hs:
        if h.error:
            continue
        c, f = h.run(TIER, SEED, 25000 if TIER == 'quick' else 240000, 200 if TIER == 'quick' else 900)
        counts.update(c)
        fail = fail or f

    rc, txt = run(['go', 'list', '-tags', 'cppbtree', '-deps', '.', './store', './store/rabbit'], env, REPO, 120)
    pkgs = [l[len(MOD):].lstrip('/') or '.' for l in txt.split() if l == MOD or l.startswith(MOD + '/')]

    # proofs, one verifier process per group of units
    reps, failed = [], []
    groups = cfg.get('groups') or ([{'files': cfg.get('files', []), 'units': cfg.get('units', [])}] if cfg.get('files') or cfg.get('units') else [])
    for i, g in enumerate(groups):
        us = units_of(g.get('files', [])) + g.get('units', [])
        out = os.path.join(scratch, 'rep%d.json' % i)
        cmd = [gover, '-repo', REPO, '-contracts', os.path.join(V, 'contracts'), '-pkgs', ','.join(pkgs), '-units', ','.join(us),
               '-closure', '-out', out, '-t', '30' if TIER == 'quick' else '120'] + g.get('flags', [])
        rc, txt = run(cmd, env, REPO, max(60, left() - 120))
        if os.path.exists(out):
            r = json.load(open(out))
            reps.append(r)
            for o in r['failed'] or []:
                failed.append({'obligation': o['name'], 'at': o['pos'], 'status': o['status'], 'goal': o['goal'][:3000], 'solver': o['output'][:3000]})
            for p in r['problems'] or []:
                failed.append({'obligation': 'problem', 'solver': p})
        else:
            failed.append({'obligation': 'contracts-apply-to-the-code', 'solver': txt[-6000:]})
    if failed:
        print('%d obligations not discharged:' % len(failed))
        for o in failed[:8]:
            print('  ', o['obligation'], o.get('at', ''), o['solver'][:150].replace('\n', ' '))
    for h in hs:
        if h.error:
            failed.append({'obligation': 'bounded-check-builds:' + h.pkg, 'solver': h.error[-4000:]})
            print('bounded check of %s does not build: %s' % (h.pkg, h.error[-1500:]))

    # look for a failing execution of what could not be proved
    if failed and not fail:
        for k in range(1, 4):
            for h in hs:
                if h.error or fail or left() < 60:
                    continue
                _, fail = h.run('thorough', SEED + 1000 * k, int(min(60000, left() * 250)), int(max(30, min(200, left() - 20))))
    evidence(prop, cfg, reps, counts, hs, failed, fail)
    n_ob = sum(r['obligations'] for r in reps)
    print('%s: %d of %d obligations discharged, bounded runs %s, %.0f s' % (prop, sum(r['proved'] for r in reps), n_ob, counts, time.time() - START))
    if fail:
        p = replay_file(prop, {'property': prop, 'execution': fail, 'failed_obligations': failed[:20]})
        print('failing execution: %s seed=%d iter=%d: %s' % (fail['test'], fail['seed'], fail['iter'], fail['what'][:500]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if failed:
        p = replay_file(prop, {'property': prop, 'failed_obligations': failed[:50]})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        return 1
    if groups and n_ob == 0:
        print('no obligations: vacuous')
        return 2
    return 0


def evidence(prop, cfg, reps, counts, hs, failed, fail):
    u = lambda k: sorted(set(x for r in reps for x in (r[k] or [])))
    merge = lambda k: {b: sum((r[k] or {}).get(b, 0) for r in reps) for b in sorted(set(b for r in reps for b in (r[k] or {})))}
    ass = u('assumptions') + ['library model: ' + m for m in u('library_models')] + cfg.get('assumptions', [])
    trusted = ['gover (/verif/gover): translation of go/ssa to verification conditions, its simplifier and quantifier instantiation',
               'golang.org/x/tools/go/ssa', 'z3 4.8.12, z3-new, cvc5 1.1.2 (an obligation counts when one of them answers unsat)', 'the Go 1.23 compiler and runtime']
    cov = {'obligations': sum(r['obligations'] for r in reps), 'discharged': sum(r['proved'] for r in reps),
           'checker_cmd': 'gover -closure -repo %s -units <the units below>' % REPO,
           'trusted_base': trusted + ['assumed: ' + a for a in ass],
           'units': u('units'), 'functions_under_contract': u('functions_under_contract'), 'functions_inlined': u('functions_inlined'),
           'by_backend': merge('by_backend'), 'by_kind': merge('by_kind'),
           'solver_seconds': round(sum(r['solver_seconds'] for r in reps) + sum(r['live_seconds'] for r in reps), 2),
           'loops_without_invariant': u('loops_without_invariant'), 'failed': [f['obligation'] for f in failed],
           'bounded': {'note': 'bounded checks of the running code; never counted as proved', 'runs': counts,
                       'tests': {h.pkg: h.tests for h in hs}, 'bound': cfg.get('bound', '')},
           'not_proved': '; '.join(cfg.get('not_proved', []))}
    level = cfg.get('level', 'proof')
    if level != 'proof':
        cov['explanation'] = '; '.join(cfg.get('not_proved', []))
        cov['evaluations'] = sum(counts.values())
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump({'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': ass,
               'wall_s': round(time.time() - START, 2), 'violations': 1 if (fail or failed) else 0},
              open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
