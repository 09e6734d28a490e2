#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': ' '.join(statement.split()), 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append((d, technique, note, na))


exec(open(os.path.join(V, 'tools', 'table.py')).read())

ids = [d['id'] for d, *_ in P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 engine/front.py zdb',
     'checks': [{'property': d['id'], 'quick_cmd': 'python3 check.py %s quick' % d['id'], 'thorough_cmd': 'python3 check.py %s thorough' % d['id'],
                 'evidence_file': 'evidence/%s.json' % d['id'], 'technique': t, 'level': 'other', 'level_note': n} for d, t, n, na in P if not na],
     'not_applicable': [{'property': d['id'], 'reason': na} for d, t, n, na in P if na],
     'notes': 'No hooks are needed in /repo. thorough analyses the debug and the release build configuration.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
