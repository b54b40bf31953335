#!/usr/bin/env python3
"""Planted-bug bookkeeping (development tool, not used by any check).

seed.py add SPEC.py      SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (rust source)
seed.py test ID...       apply each planted bug, run its property's check (or CHECKS=C01,C02), revert
seed.py all              every planted bug against every check that is built: detection matrix
"""
import sys, os, subprocess, json, shutil, re
V, R = '/verif', '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    s = sh(f'git -C {R} status --porcelain --untracked-files=no').stdout.strip()
    if s:
        sys.exit('repo not clean: ' + s)
def revert():
    sh(f'git -C {R} checkout -- .')
def demo(d):
    return sh(f'bash {d}/demo.sh', cwd=R, timeout=300)
def run_check(c):
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
    r = subprocess.run(['bash', 'tools/check.sh', c], cwd=V, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout, r.stderr
def built():
    return sorted(set(re.findall(r'"(C\d\d)" =>', open(V + '/mc/src/main.rs').read())))
def add(spec, force=False):
    g = {}
    exec(open(spec).read(), g)
    clean()
    try:
        for f, o, n in g['edits']:
            p = f'{R}/{f}'
            s = open(p).read()
            if s.count(o) != 1:
                print('edit does not match once:', f, s.count(o), repr(o)); return False
            open(p, 'w').write(s.replace(o, n))
        d = f"{V}/seeded/{g['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
        shutil.copy(V + '/tools/demo_template/demo.sh', d + '/demo.sh')
        open(d + '/demo.rs', 'w').write(g['demo'])
        json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print('DOES NOT BUILD', b.stderr[-800:]); shutil.rmtree(d); return False
        t = sh('bash /opt/vp/test.sh /tmp/seed_t.json')
        if '0 failed' not in t.stdout.splitlines()[-1]:
            print('TESTS FAIL', t.stdout[-300:]); shutil.rmtree(d); return False
        r1 = demo(d)
        code, out, err = run_check(g['property'])
        revert()
        r0 = demo(d)
        ok = r0.returncode == 0 and r1.returncode not in (0, 3)
        print(f"{g['id']}: demo clean={r0.returncode} patched={r1.returncode} check {g['property']} exit={code} {[l for l in out.splitlines() if 'VIOLATION' in l][:1]}")
        if r0.returncode: print('  clean demo:', r0.stdout[-600:], r0.stderr[-600:])
        if r1.returncode in (0, 3): print('  patched demo:', r1.stdout[-600:], r1.stderr[-600:])
        if code == 1: print('  ', out.splitlines()[0][:300])
        if code not in (0, 1): print('  check error', err[-500:])
        if not ok: shutil.rmtree(d)
        return ok
    finally:
        revert()
def test(ids, checks=None):
    clean()
    res = {}
    for i in ids:
        d = f'{V}/seeded/{i}'
        m = json.load(open(d + '/meta.json'))
        a = sh(f'git -C {R} apply {d}/patch.diff')
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY', a.stderr); continue
        try:
            res[i] = {}
            for c in (checks or [m['property']]):
                code, out, err = run_check(c)
                res[i][c] = code
                if code not in (0, 1): print(i, c, 'ERROR', code, err[-300:])
            print(i, m['property'], 'caught' if res[i].get(m['property']) == 1 else 'MISSED' if m['property'] in res[i] else '', 'by', [c for c, v in res[i].items() if v == 1], flush=True)
        finally:
            revert()
    return res
if sys.argv[1] == 'add':
    for s in sys.argv[2:]:
        add(s)
elif sys.argv[1] == 'test':
    ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
    ck = os.environ.get('CHECKS')
    test(ids, ck.split(',') if ck else None)
elif sys.argv[1] == 'all':
    res = test(sorted(os.listdir(V + '/seeded')), built())
    json.dump(res, open('/tmp/matrix.json', 'w'))
