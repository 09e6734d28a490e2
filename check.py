#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current sources.
exit 0: holds on everything analysed; exit 1 with a VIOLATION line: broken;
anything else: the analysis itself could not be done."""
import json
import os
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known(prop):
    """finding: property=<id> key=<key> <what>  (lines starting with 'fixed:' suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith('finding: '):
                continue
            w = l.split(' ', 3)
            if w[1] == 'property=' + prop and w[2].startswith('key='):
                out[w[2][4:]] = w[3] if len(w) > 3 else ''
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import rules
    from lib import Ctx
    from front import AnalysisBroken
    if prop not in rules.PROPS:
        print('unknown property', prop)
        return 2
    fn, expl, assumptions = rules.PROPS[prop]
    t0 = time.time()
    obs, stats, notes = [], Counter(), []
    configs = ['debug', 'release'] if tier == 'thorough' else ['debug']
    kn = known(prop)
    try:
        for c in configs:
            ctx = Ctx(prop, tier, c)
            try:
                fn(ctx)
                if ctx.deferred:
                    raise AnalysisBroken(ctx.deferred[0])
            except Exception:
                # a violation already shown is not lost
                if all(ok or key in kn for key, ok, *_ in ctx.obs):
                    raise
            for key, ok, where, text, trail in ctx.obs:
                obs.append((key, ok, where, text, trail, c))
            for k, v in ctx.stats.items():
                stats[k] = max(stats[k], v) if k.startswith('functions') else stats[k] + v
            notes += ctx.notes
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 3
    if not obs:
        print('ANALYSIS-BROKEN property=%s no obligation was generated' % prop)
        return 3
    viol, found = {}, {}
    for o in obs:
        if not o[1]:
            (found if o[0] in kn else viol).setdefault(o[0], o)
    evd = os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    oks = [o for o in obs if o[1]]
    step = max(1, len(oks) // 12)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': expl, 'obligations': len(obs), 'discharged': len(oks), 'configurations': configs,
                       'analysed': {k: v for k, v in sorted(stats.items())},
                       'samples': [{'obligation': o[0], 'where': o[2], 'text': o[3]} for o in oks[::step][:14]],
                       'notes': notes[:20],
                       'known_findings': [{'key': o[0], 'where': o[2], 'text': o[3]} for o in found.values()],
                       'violations': [{'key': o[0], 'where': o[2], 'text': o[3], 'path': o[4]} for o in viol.values()]},
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, o in found.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, kn[k] or o[3]))
    if viol:
        rp = os.path.join(evd, prop + '.violation.txt')
        with open(rp, 'w') as f:
            for k, o in viol.items():
                f.write('rule instance: %s\nwhere: %s\nconfiguration: %s\n%s\n' % (k, o[2], o[5], o[3]))
                for l in o[4] or []:
                    f.write('    %s\n' % l)
                f.write('\n')
        for k, o in viol.items():
            print('%s: %s (%s)' % (o[2], o[3], k))
            for l in (o[4] or [])[-25:]:
                print('    ' + str(l))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s obligations=%d wall=%.1fs' % (prop, len(obs), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('ANALYSIS-BROKEN: internal error')
        rc = 4
    sys.stdout.flush()
    os._exit(rc)
