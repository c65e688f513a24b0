"""Call graph over the inferred types: which functions of the package a function can enter, property reads and overrides included."""
import ast

from .infer import Infer, Inst, Py
from .repo import Class, Func, dotted

PROPS = ('Property', 'property', 'cached_property', 'functools.cached_property')


class Graph(object):
    def __init__(self, repo, inf=None):
        self.repo = repo
        self.inf = inf or Infer(repo)
        self.by_name = {}
        for f in self.functions():
            self.by_name.setdefault(f.node.name, []).append(f)
        self.out = {}

    def functions(self):
        for m in self.repo.modules.values():
            yield from m.functions.values()
            for k in m.classes.values():
                yield from k.methods.values()

    def nodes(self, f):
        """all nodes of a function with the types of the names around them, nested functions and comprehensions included"""
        inf = self.inf

        def go(n, env):
            yield n, env
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                env = dict(env)
                for g in n.generators:
                    yield from go(g.iter, env)
                    b = {}
                    inf.target(g.target, ('elem', g.iter), b)
                    for k in b:
                        env[k] = inf.bound(b[k][0], f, env)
                    for x in g.ifs:
                        yield from go(x, env)
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    yield from go(x, env)
                return
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                a = n.args
                env = dict(env)
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    env[x.arg] = None
                if isinstance(n, ast.FunctionDef):
                    b = {}
                    inf.collect(n.body, b)
                    for k in b:
                        env[k] = None
                        if len(b[k]) == 1 and b[k][0][0] == 'val':
                            env[k] = inf.bound(b[k][0], f, env)
            for x in ast.iter_child_nodes(n):
                yield from go(x, env)
        env = inf.env(f)
        for s in f.node.body:
            yield from go(s, env)

    def enters(self, f):
        """[(node, Func)] of one function; calls of things of unknown type go to every function of that name"""
        if f.node in self.out:
            return self.out[f.node]
        out = []
        inf = self.inf
        called = set()
        for n, env in self.nodes(f):
            if isinstance(n, ast.Call):
                called.add(n.func)
                out += [(n, g) for g in self.targets(n, f, env)]
        for n, env in self.nodes(f):
            if isinstance(n, ast.Attribute) and n not in called:
                t = inf.type(n.value, f, env)
                if t:
                    for x in t:
                        if isinstance(x, Inst):
                            for k in inf.classes(x):
                                m = (f.cls.methods.get(n.attr) if f.cls is not None and n.attr.startswith('__') and not n.attr.endswith('__') else None) or inf.method(k, n.attr)
                                if m is not None:
                                    out.append((n, m))
                        elif isinstance(x, Class):
                            m = inf.method(x, n.attr)
                            if m is not None:
                                out.append((n, m))
                elif t is None:
                    out += [(n, g) for g in self.by_name.get(n.attr, []) if g.cls is not None]
            elif isinstance(n, ast.Name) and n not in called and isinstance(n.ctx, ast.Load) and n.id not in env:
                x = inf.scope.lookup(f.module, n.id)
                if isinstance(x, Func):
                    out.append((n, x))
        self.out[f.node] = out
        return out

    def targets(self, n, f, env):
        inf = self.inf
        cs = inf.callees(n, f, env)
        if cs is None:
            fn = n.func
            name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
            return [g for g in self.by_name.get(name, []) if (g.cls is not None) == isinstance(fn, ast.Attribute)]
        out = []
        for c in cs:
            if c[0] == 'class':
                m = inf.method(c[1], '__init__')
                if m is not None:
                    out.append(m)
            elif isinstance(c[1], Func):
                out.append(c[1])
                # overrides in subclasses
                if c[0] in ('bound', 'memo') and c[1].cls is not None:
                    for k in inf.subclasses(c[1].cls):
                        m = k.methods.get(c[1].node.name)
                        if m is not None and m not in out:
                            out.append(m)
        return out

    def reach(self, start):
        """functions entered from these, in order of discovery: {node: Func}"""
        seen, todo = {}, list(start)
        while todo:
            f = todo.pop()
            if f.node in seen:
                continue
            seen[f.node] = f
            todo += [g for _, g in self.enters(f)]
        return seen
