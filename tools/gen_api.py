#!/usr/bin/env python3
"""public functions and methods of the package (of the tree the properties were written for) -> spec/api.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.repo import Repo
out = []
r = Repo()
for m in sorted(r.modules.values(), key=lambda m: m.rel):
    if m.rel.startswith('scaks/tests/') or m.rel.endswith('images2gif.py'):
        continue
    fs = [f for f in m.functions.values()] + [f for k in m.classes.values() for f in k.methods.values()]
    for f in fs:
        n = f.node.name
        if n.startswith('_') and not (n.startswith('__') and n.endswith('__')):
            continue
        out.append('%s:%s' % (m.rel, f.qual))
json.dump(sorted(set(out)), open(os.path.join(HERE, 'spec', 'api.json'), 'w'), indent=0)
print(len(out))
