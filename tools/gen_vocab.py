#!/usr/bin/env python3
"""Records the names (methods, functions, attributes) of the tree the specifications were written for.
A helper whose name is not listed is always looked into; listed names may be used as vocabulary."""
import ast, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.repo import Repo
r = Repo()
meth, fn, attrs = set(), set(), set()
for m in r.modules.values():
    fn |= set(m.functions)
    for c in m.classes.values():
        meth |= set(n for n in c.methods if '@' not in n)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute):
            attrs.add(n.attr)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            attrs.add(n.value)
json.dump(dict(methods=sorted(meth), functions=sorted(fn), attrs=sorted(attrs)),
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine', 'vocab.json'), 'w'), indent=0)
