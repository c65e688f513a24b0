#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import REGISTRY
from tools.notes import NA, TECH, NOTE

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
DEF_T = 'static value-flow summaries compared with reference definitions'
DEF_N = ('Decided from the source for every input within the decidable vocabulary; constructs outside it are reported as undecided '
         'in the evidence and never as an alarm. SCAKS is neither imported nor executed.')
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json"', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in REGISTRY:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                            'thorough_cmd': 'python3 check.py %s --thorough' % i,
                            'technique': TECH.get(i, DEF_T), 'level': 'other', 'level_note': NOTE.get(i, DEF_N)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no static check has been built for it yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not applicable')
