#!/usr/bin/env python3
"""python3 tools/plant.py SPEC.py [id...]: makes /verif/seeded/<id>/ from the specs and confirms each one: it applies,
builds, passes the tests, and its demo tells the two trees apart.  plant.py --check [id...]: runs the check of the
property of each planted bug against it (python3 tools/plant.py --check --all-checks runs all of them)."""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEEDED = os.path.join(V, 'seeded')
M = 'src/HybridSolver/main/'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'not clean'


def undo():
    sh('git -C /repo checkout -- .')


def demo(d):
    t = '/tmp/demo_elsewhere'
    shutil.rmtree(t, True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    r = sh('bash %s/demo.sh' % t, cwd=REPO, timeout=300)
    shutil.rmtree(t, True)
    return r


def make(spec, only):
    for b in runpy.run_path(spec)['BUGS']:
        if only and b['id'] not in only:
            continue
        clean()
        d = os.path.join(SEEDED, b['id'])
        shutil.rmtree(d, True)
        os.makedirs(d)
        ok = True
        try:
            for f, old, new in b['edits']:
                p = os.path.join(REPO, M, f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git -C /repo diff').stdout
        finally:
            undo()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        py = b.get('python', 'python3')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: the behaviour is right; 1: it is not\nexec env PYTHONDONTWRITEBYTECODE=1 %s "$(dirname "$0")/demo.py"\n' % py)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        if 'demo_lib' in b['demo']:
            shutil.copy(os.path.join(V, 'tools/seeds/demo_lib.py'), d)
        for n, txt in b.get('files', {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            open(os.path.join(d, n), 'w').write(txt.lstrip('\n'))
        t0 = time.time()
        r0 = demo(d)
        tm = time.time() - t0
        try:
            assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
            rb = sh('bash /opt/vp/build.sh')
            sh('bash /opt/vp/test.sh /tmp/plant_out.json')
            res = json.load(open('/tmp/plant_out.json'))
            r1 = demo(d)
        finally:
            undo()
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', json.load(open('/opt/vp/BASELINE.json')).get('stable', [])))
        missing = base - set(res['passed'])
        ok = r0.returncode == 0 and r1.returncode != 0 and rb.returncode == 0 and not missing and len(res['passed']) >= 24
        print('%-4s %s  demo clean %d (%.0f s) patched %d, build %d, tests %d %s' % ('ok' if ok else 'BAD', b['id'], r0.returncode, tm, r1.returncode, rb.returncode, len(res['passed']), missing or ''))
        if not ok:
            print(r0.stdout[-600:], r0.stderr[-900:], '\n--- patched:', r1.stdout[-600:], r1.stderr[-600:])
        else:
            print('      ', (r1.stdout.strip() or r1.stderr.strip())[-200:])
        sys.stdout.flush()
    sh('bash /opt/vp/build.sh')


def check(only, allc, seed='1'):
    ids = only or sorted(os.listdir(SEEDED))
    for i in ids:
        clean()
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        props = [prop] if not allc else [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
        hits = []
        try:
            assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0, i
            for q in props:
                t0 = time.time()
                r = sh('python3 run.py ' + q, cwd=V, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER='quick'))
                line = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION property=%s ' % q)]
                if r.returncode == 1 and line:
                    hits.append(q)
                elif r.returncode:
                    hits.append('%s(rc %d)' % (q, r.returncode))
                if not allc:
                    print('       ', r.stdout.strip().split('\n')[1 if line else -1][:200], '%.0f s' % (time.time() - t0), r.stderr[-200:] if r.returncode not in (0, 1) else '')
        finally:
            undo()
        print('%-7s %s (%s): %s' % ('caught' if prop in hits else 'MISSED', i, prop, ' '.join(hits)))
        sys.stdout.flush()


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--check':
        check([x for x in a[1:] if not x.startswith('--')], '--all-checks' in a)
    else:
        make(a[0], a[1:])
