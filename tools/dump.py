#!/usr/bin/env python3
"""debug: python3 tools/dump.py file.py:Class.func [self_class] [opaque,..] — print the value-flow summary"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine.runner import Ctx
from engine import terms as K, interp as I, domain as DOM
c = Ctx('X', 'quick')
f = c.repo.func(sys.argv[1])
sc = c.repo.cls(sys.argv[2].split(":")[-1]) if len(sys.argv) > 2 and sys.argv[2] else f.cls
kw = {}
for a in sys.argv[3:]:
    k, _, v = a.partition('=')
    kw[k] = v.split(',') if k in ('opaque','inline','construct','effects') else True
cfg = c.config(**kw)
DOM.SELF_SORT[0] = {v: k for k, v in DOM.CLASS.items()}.get(sc.name if sc is not None else None)
import traceback
try:
    it, tree = c.summary(f, cfg, None, sc)
except Exception:
    print(traceback.format_exc()[-1500:])
    sys.exit(1)
print('RET', K.show(K.canon(it.outcome(tree))))
for k, v in it.final_heap(tree).items():
    print('HEAP', K.show(k), ':=', K.show(K.canon(v)))
