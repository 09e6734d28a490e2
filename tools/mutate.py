#!/usr/bin/env python3
"""Mutation campaign: apply each change of tools/mutants/*.py to a scratch copy of the repository
(it has to compile), run the check of the property it breaks, list the changes that were missed.
usage: mutate.py [ID|Pxx ...]   (MC=<scratch dir, default /tmp/mc>, J=<parallel jobs>)"""
import os, re, shutil, subprocess, sys, glob, runpy, time
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
base = os.environ.get('ZDB_REPO', '/repo'); mc = os.environ.get('MC', '/tmp/mc')
M = []
for f in sorted(glob.glob(here + '/mutants/*.py')): M += runpy.run_path(f)['M']
ids = [m[0] for m in M]; assert len(set(ids)) == len(ids), 'duplicate id'
want = sys.argv[1:]
sel = [m for m in M if not want or m[0] in want or m[1] in want]
def run(m):
    mid, prop, what, edits = m
    d = f'{mc}/{mid}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(mc, exist_ok=True)
    shutil.copytree(base, d, ignore=shutil.ignore_patterns('.git', '*.o', 'tests'))
    try:
        for f, o, n in edits:
            p = f'{d}/{f}'; s = open(p).read()
            if o not in s: return m, 'NOT-FOUND ' + f + ': ' + o[:60], 0
            open(p, 'w').write(s.replace(o, n, 1))
        for f in {e[0] for e in edits}:
            r = subprocess.run(['gcc', '-fsyntax-only', '-w', '-I' + d + '/libzdb', '-D_GNU_SOURCE', f'{d}/{f}'], capture_output=True, text=True)
            if f.endswith('.c') and r.returncode: return m, 'NO-COMPILE ' + r.stderr[:300], 0
        t = time.time()
        r = subprocess.run(['python3', verif + '/check.py', prop], capture_output=True, text=True, timeout=880,
                           env=dict(os.environ, ZDB_REPO=d), cwd=verif)
        v = [l for l in (r.stdout + r.stderr).split('\n') if l.startswith('VIOLATION') or re.match(r'^\s+\S.*\(', l)]
        out = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR %d %s' % (r.returncode, (r.stderr or r.stdout)[-300:]))
        return m, out + ('  ' + ' / '.join(x.strip()[:110] for x in v[:2]) if r.returncode == 1 else ''), time.time() - t
    except subprocess.TimeoutExpired: return m, 'TIMEOUT', 880
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
    tot = {}
    for m, res, t in ex.map(run, sel):
        tot[res.split()[0]] = tot.get(res.split()[0], 0) + 1
        print('%-5s %-4s %4ds %s | %s' % (m[0], m[1], t, m[2][:70], res.replace('\n', ' ')[:260]), flush=True)
    print(tot)
