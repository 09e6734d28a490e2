#!/usr/bin/env python3
"""seed.py gen [id..]   : writes seeded/<id>/ from tools/seeds/*.py against /repo's HEAD
seed.py try id..     : applies, builds, runs demo, tests and the property's check (ALL=1: every check), undoes"""
import glob
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SEEDS = {}


def seed(id, property, edits, demo, needs, breaks):
    assert id not in SEEDS, id
    SEEDS[id] = (property, edits, demo, needs, breaks)


for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def gen(ids):
    tmp = '/tmp/seedgen'
    shutil.rmtree(tmp, ignore_errors=True)
    sh('git clone -q %s %s' % (R, tmp))
    for i in ids:
        prop, edits, demo, needs, breaks = SEEDS[i]
        sh('git -C %s checkout -q -- .' % tmp)
        for fn, old, new in edits:
            p = os.path.join(tmp, fn)
            s = open(p).read()
            assert s.count(old) == 1, '%s: %d matches in %s of %r' % (i, s.count(old), fn, old[:80])
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % tmp).stdout)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nimport zt\nfrom zt import Err\n' + demo.lstrip('\n') + '\n\nzt.main(demo)\n')
        for x in ('zt.py', 'fault.c'):
            if x == 'zt.py' or 'fault.c' in demo:
                shutil.copy(os.path.join(V, 'tools', 'demo', x), d)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)


def build():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        print(r.stdout[-2000:])
    return r.returncode == 0


def tryone(i, checks, notest):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    assert not sh('git -C %s status --porcelain' % R).stdout.strip()
    build()
    r = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
    print(i, 'clean demo:', r.returncode, r.stdout[-300:].strip() if r.returncode else '')
    r = sh('git -C %s apply %s/patch.diff' % (R, d))
    if r.returncode:
        print(i, 'patch does not apply', r.stdout)
        return
    try:
        if not build():
            print(i, 'DOES NOT BUILD')
            return
        r = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
        print(i, 'patched demo:', r.returncode, r.stdout[-300:].strip())
        if not notest:
            sh('bash /opt/vp/test.sh /tmp/seed.json')
            o = json.load(open('/tmp/seed.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            stable = base.get('stable') or base.get('passed') or base.get('tests') or base
            miss = [t for t in stable if t not in set(o['passed'])]
            print(i, 'tests missing from stable:', len(miss), miss[:4])
        for c in (checks or [prop]):
            r = sh('python3 check.py %s quick' % c, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'ANALYSIS-BROKEN' in l]
            if c == prop or r.returncode:
                print('   ', i, 'check', c, 'rc', r.returncode, 'CAUGHT' if v and r.returncode == 1 else 'missed', (r.stdout.splitlines() or [''])[0][:200] if r.returncode else '')
    finally:
        sh('git -C %s checkout -- .' % R)
        build()


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(SEEDS)
    if sys.argv[1] == 'gen':
        gen(ids)
    else:
        gen(ids)
        checks = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']] if os.environ.get('ALL') else None
        for i in ids:
            tryone(i, checks, os.environ.get('NOTEST'))
