#!/usr/bin/env python3
"""python3 check.py <property> [--thorough]

Decides one property from /repo's current source (SCAKS_ROOT overrides the tree).  Nothing of /repo is
imported or executed.  Exit 0: no violation; exit 1: a VIOLATION line names the report."""
import json
import os
import re
import sys
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')

from engine.runner import Ctx            # noqa: E402
from engine.repo import Missing          # noqa: E402
from checks import REGISTRY              # noqa: E402


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                key, _, text = line[len('known: property=%s ' % prop):].partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    prop = args[0]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    c = Ctx(prop, tier)
    for name, fn in REGISTRY[prop]:
        try:
            fn(c)
        except Missing as e:
            c.undecided(name, 'anchor', 'anchor missing: %s' % e)
        except RecursionError:
            c.undecided(name, 'engine', 'recursion limit')
        except Exception as e:           # an analysis that fails decides nothing
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            c.undecided(name, 'engine', 'analysis failed: %s: %s' % (type(e).__name__, e))
    viol = [r for r in c.results if r[0] == 'VIOLATED']
    und = [r for r in c.results if r[0] == 'UNDECIDED']
    held = [r for r in c.results if r[0] == 'HOLDS']
    listed, fresh = [], []
    kf = known_findings(prop)
    for r in viol:
        hit = [k for k in kf if k[0] == '%s@%s' % (r[1], re.sub(r' \(line \d+\)', '', r[2]))]
        (listed if hit else fresh).append((r, hit[0] if hit else None))
    os.makedirs(EVID, exist_ok=True)
    report = os.path.join(EVID, '%s.violation.txt' % prop)
    cov = {
        'explanation': 'Static analysis of the current source; %d obligations decided by the rules below on the functions listed; nothing was executed.' % (len(held) + len(viol)),
        'rules': c.rules,
        'functions_analysed': sorted(c.functions),
        'obligations': len(c.results), 'held': len(held), 'violated': len(viol), 'undecided': len(und),
        'obligation_list': [{'status': s, 'obligation': o, 'where': w, 'detail': d[:600]} for s, o, w, d in c.results[:400]],
        'counts': c.stats,
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other', 'coverage': cov,
          'assumptions': c.assumptions + (['%d obligations were left undecided on this tree (see obligation_list)' % len(und)] if und else []),
          'wall_s': round(time.time() - t0, 3), 'violations': len(fresh)}
    with open(os.path.join(EVID, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('property %s (%s): %d obligations, %d hold, %d violated, %d undecided, %.1f s' % (
        prop, tier, len(c.results), len(held), len(viol), len(und), time.time() - t0))
    for s, o, w, d in und:
        print('  undecided %s at %s: %s' % (o, w, d[:300]))
    for r, k in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[1] or r[3]))
    if fresh:
        with open(report, 'w') as f:
            for r, _ in fresh:
                f.write('VIOLATED %s\n  at %s\n  %s\n' % (r[1], r[2], r[3]))
        for r, _ in fresh:
            print('  violated %s at %s: %s' % (r[1], r[2], r[3][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, report))
        return 1
    if os.path.exists(report):
        os.remove(report)
    return 0


if __name__ == '__main__':
    sys.exit(main())
