"""REGISTRY: property id -> [(name, function(ctx))]."""
import collections
import importlib
import os

REGISTRY = collections.OrderedDict()


def check(prop):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append((fn.__name__, fn))
        return fn
    return deco


for _f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _f.endswith('.py') and _f != '__init__.py':
        importlib.import_module('checks.' + _f[:-3])
