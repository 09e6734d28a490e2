#!/usr/bin/env python3
"""refactor.py [names..]: applies each behaviour-preserving edit of tools/refactors/*.py to a scratch copy of /repo,
builds it, and runs every check (CHECKS=P01,P02 for some) on it: all must stay quiet. TESTS=1: the tests too."""
import glob
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFS = []


def ref(name, edits):
    REFS.append((name, edits))


for f in sorted(glob.glob(os.path.join(V, 'tools', 'refactors', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def check(job):
    pid, d = job
    r = sh('cd %s && ZDB_REPO=%s timeout 890 python3 check.py %s' % (V, d, pid))
    return pid, r.returncode, [l[:260] for l in r.stdout.split('\n') if l and not l.startswith('    ')][:4]


ids = os.environ.get('CHECKS', '').split(',') if os.environ.get('CHECKS') else [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
bad = 0
for name, edits in REFS:
    if len(sys.argv) > 1 and not any(name.startswith(a) for a in sys.argv[1:]):
        continue
    d = '/tmp/refactor'
    shutil.rmtree(d, ignore_errors=True)
    sh('cp -a /repo %s' % d)
    for fn, old, new in edits:
        p = os.path.join(d, fn)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: %d matches in %s of %r' % (name, s.count(old), fn, old[:80]))
        open(p, 'w').write(s.replace(old, new))
    o = sh('for x in %s; do gcc -std=gnu11 -Wall -fsyntax-only -I%s/libzdb -I%s/zdbd -DREVISION=\\"x\\" %s/$x; done' % (' '.join(sorted({e[0] for e in edits})), d, d, d))
    if 'error' in o.stdout:
        sys.exit(name + '\n' + o.stdout[:2000])
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(check, [(i, d) for i in ids]))
    noisy = [r for r in res if r[1]]
    print('%-70s %s' % (name, 'quiet' if not noisy else 'NOISY'), flush=True)
    for pid, rc, out in noisy:
        bad += 1
        print('   %s exit %d' % (pid, rc))
        for l in out:
            print('      ' + l, flush=True)
    shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
