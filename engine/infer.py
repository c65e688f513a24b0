"""What expressions can be: classes of the package, built-in types, modules, functions. Flow-insensitive, may be unknown (None)."""
import ast
import builtins

from .names import Scope
from .repo import Class, Func, Module, dotted

import logging
import re
PY = {'Logger': logging.Logger('x'), 'Pattern': re.Pattern, 'Match': re.Match, 'list': list, 'dict': dict, 'str': str, 'tuple': tuple, 'set': set, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes}
MODEL_ROOT = 'KineticModel'
DEPTH = 6


class Inst(object):
    """an instance of exactly this class or (loose) of it or one of its subclasses"""
    __slots__ = ('cls', 'loose')

    def __init__(self, cls, loose=False):
        self.cls, self.loose = cls, loose

    def __eq__(self, o):
        return isinstance(o, Inst) and o.cls is self.cls and o.loose == self.loose

    def __hash__(self):
        return hash((self.cls.name, self.loose))

    def __repr__(self):
        return 'an instance of ' + self.cls.name


class Py(object):
    __slots__ = ('name', 'elem')

    def __init__(self, name, elem=None):
        self.name, self.elem = name, elem      # elem: type of the elements, None when not known

    def __eq__(self, o):
        return isinstance(o, Py) and o.name == self.name and o.elem == self.elem

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'a ' + self.name


def one(*xs):
    return frozenset(xs)


def join(ts):
    out = set()
    for t in ts:
        if t is None:
            return None
        out |= t
    return frozenset(out)


class Infer(object):
    def __init__(self, repo, scope=None):
        self.repo = repo
        self.scope = scope or Scope(repo)
        self.returns = {}
        self.attrs = {}
        self.envs = {}
        self.depth = 0
        self.busy = set()

    # ------------------------------------------------------------------ classes
    def mro(self, c):
        return self.scope.mro(c)

    def subclasses(self, c):
        return [k for m in self.repo.modules.values() for k in m.classes.values() if k is not c and c in self.mro(k)]

    def classes(self, i):
        return [i.cls] + (self.subclasses(i.cls) if i.loose else [])

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def model_classes(self):
        for m in self.repo.modules.values():
            if MODEL_ROOT in m.classes:
                return one(Inst(m.classes[MODEL_ROOT], True))
        return None

    # ------------------------------------------------------------------ functions
    def env(self, f):
        """types of the local names of a function: {name: type}"""
        if f.node in self.envs:
            return self.envs[f.node]
        env = {}
        self.envs[f.node] = env
        a = f.node.args
        params = a.posonlyargs + a.args
        for x in params + a.kwonlyargs:
            env[x.arg] = None
        if a.vararg:
            env[a.vararg.arg] = one(Py('tuple'))
        if a.kwarg:
            env[a.kwarg.arg] = one(Py('dict'))
        if f.cls is not None and params and 'staticmethod' not in f.decorators and 'classmethod' not in f.decorators:
            env[params[0].arg] = one(Inst(f.cls, True))
        binds = {}
        self.collect(f.node.body, binds)
        for n in binds:
            if n in env:
                env[n] = None
        todo = {n: bs for n, bs in binds.items() if n not in env}
        added = self.added(f.node, todo)
        for n in todo:
            env[n] = frozenset()
        for _ in range(3):
            for n, bs in todo.items():
                env[n] = join([self.bound(b, f, env) for b in bs])
                if n in added and env[n] == one(Py('list')) and all(b[0] == 'val' and isinstance(b[1], ast.List) and not b[1].elts for b in bs):
                    env[n] = one(Py('list', join([self.type(x, f, env) if k == 'append' else self.elements(self.type(x, f, env)) for k, x in added[n]])))
        for n in todo:
            if env[n] is not None and not env[n]:
                env[n] = None
        return env

    def added(self, node, names):
        """list variables that are only filled with append and extend: name -> [(method, expression)]"""
        out, other = {}, set()
        known = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in names:
                if n.func.attr in ('append', 'extend') and len(n.args) == 1 and not n.keywords:
                    out.setdefault(n.func.value.id, []).append((n.func.attr, n.args[0]))
                elif n.func.attr in ('insert', '__setitem__'):
                    other.add(n.func.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                other.add(n.value.id)
        return {k: v for k, v in out.items() if k not in other}

    def collect(self, body, out):
        for s in body:
            for n in self.walk(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.target(t, ('val', n.value), out)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self.target(n.target, ('val', n.value), out)
                elif isinstance(n, ast.AugAssign):
                    self.target(n.target, ('any',), out)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.target(n.target, ('elem', n.iter), out)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            self.target(i.optional_vars, ('any',), out)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.setdefault(n.name, []).append(('any',))
                elif isinstance(n, ast.NamedExpr):
                    self.target(n.target, ('val', n.value), out)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.setdefault(n.name, []).append(('def', n) if isinstance(n, ast.FunctionDef) else ('any',))
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for x in n.names:
                        out.setdefault(x.asname or x.name.split('.')[0], []).append(('any',))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'exec':
                    pass

    def walk(self, s):
        """nodes of a statement, not of the functions and classes inside it"""
        yield s
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return
        for n in ast.iter_child_nodes(s):
            yield from self.walk(n)

    def target(self, t, b, out):
        if isinstance(t, ast.Name):
            out.setdefault(t.id, []).append(b)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.target(x, ('item', b, i) if not isinstance(x, ast.Starred) else ('any',), out)
        elif isinstance(t, ast.Starred):
            self.target(t.value, b, out)

    def bound(self, b, f, env):
        if b[0] == 'val':
            return self.type(b[1], f, env)
        if b[0] == 'elem':
            return self.elements(self.type(b[1], f, env))
        if b[0] == 'item':
            if b[1][0] == 'val' and isinstance(b[1][1], (ast.Tuple, ast.List)) and b[2] < len(b[1][1].elts) and \
                    not any(isinstance(x, ast.Starred) for x in b[1][1].elts):
                return self.type(b[1][1].elts[b[2]], f, env)
            if b[1][0] == 'elem' and isinstance(b[1][1], ast.Call) and dotted(b[1][1].func) == 'enumerate' and b[1][1].args:
                return one(Py('int')) if b[2] == 0 else self.elements(self.type(b[1][1].args[0], f, env))
            if b[1][0] == 'elem' and isinstance(b[1][1], ast.Call) and dotted(b[1][1].func) == 'zip' and b[2] < len(b[1][1].args):
                return self.elements(self.type(b[1][1].args[b[2]], f, env))
            return self.elements(self.bound(b[1], f, env))
        return None

    def elements(self, t):
        if t is None:
            return None
        out = []
        for x in t:
            if isinstance(x, Py) and x.name in ('list', 'tuple', 'set') and x.elem is not None:
                out.append(x.elem)
            elif isinstance(x, Py) and x.name == 'str':
                out.append(one(x))
            else:
                return None
        return join(out)

    # ------------------------------------------------------------------ expressions
    def type(self, e, f, env):
        self.depth += 1
        try:
            if self.depth > 60:
                return None
            return self.type_(e, f, env)
        finally:
            self.depth -= 1

    def type_(self, e, f, env):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.thing(self.scope.lookup(f.module, e.id))
        if isinstance(e, ast.Constant):
            n = type(e.value).__name__
            return one(Py(n)) if n in PY else None
        if isinstance(e, ast.JoinedStr):
            return one(Py('str'))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            n = {'List': 'list', 'Tuple': 'tuple', 'Set': 'set'}[type(e).__name__]
            if not e.elts or any(isinstance(x, ast.Starred) for x in e.elts):
                return one(Py(n))
            return one(Py(n, join([self.type(x, f, env) for x in e.elts])))
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return one(Py('dict'))
        if isinstance(e, (ast.ListComp, ast.SetComp)):
            env2 = dict(env)
            for g in e.generators:
                b = {}
                self.target(g.target, ('elem', g.iter), b)
                for n in b:
                    env2[n] = join([self.bound(x, f, env2) for x in b[n]])
            return one(Py('list' if isinstance(e, ast.ListComp) else 'set', self.type(e.elt, f, env2)))
        if isinstance(e, ast.IfExp):
            return join([self.type(e.body, f, env), self.type(e.orelse, f, env)])
        if isinstance(e, ast.BoolOp):
            return join([self.type(x, f, env) for x in e.values])
        if isinstance(e, ast.Subscript):
            t = self.type(e.value, f, env)
            if isinstance(e.slice, ast.Slice):
                return t if t is not None and all(isinstance(x, Py) for x in t) else None
            return self.elements(t)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            t = self.type(e.left, f, env)
            return t if t == one(Py('str')) else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.type(e.left, f, env), self.type(e.right, f, env)
            if a is None or b is None or not a or not b:
                return frozenset() if a == frozenset() or b == frozenset() else None
            names = set(x.name if isinstance(x, Py) else None for x in a | b)
            if len(names) == 1 and names <= {'list', 'tuple', 'str'}:
                n = names.pop()
                return one(Py(n, join([x.elem for x in a | b])) if n != 'str' else Py('str'))
            return None
        if isinstance(e, ast.Attribute):
            return self.attribute(self.type(e.value, f, env), e.attr, f)
        if isinstance(e, ast.Call):
            return self.call(e, f, env)
        if isinstance(e, ast.Lambda):
            return None
        if isinstance(e, ast.NamedExpr):
            return self.type(e.value, f, env)
        return None

    def thing(self, x):
        if isinstance(x, (Class, Func, Module)):
            return one(x)
        if isinstance(x, tuple) and x[0] == 'ext':
            return one(x)
        if isinstance(x, tuple) and x[0] == 'const':
            vals = x[1].consts.get(x[2], [])
            if len(vals) == 1 and isinstance(vals[0], ast.Call) and dotted(vals[0].func):
                k = self.scope.lookup(x[1], dotted(vals[0].func))
                return one(Inst(k)) if isinstance(k, Class) else None
            if len(vals) == 1 and isinstance(vals[0], (ast.Constant, ast.List, ast.Dict, ast.Tuple)):
                return one(Py({'Constant': type(getattr(vals[0], 'value', None)).__name__, 'List': 'list', 'Dict': 'dict', 'Tuple': 'tuple'}[type(vals[0]).__name__]))
        return None

    def attribute(self, t, name, f):
        """type of the attribute of something of this type"""
        if t is None:
            return None
        out = []
        for x in t:
            if isinstance(x, Module):
                out.append(self.thing(self.scope.lookup(x, name)))
            elif isinstance(x, tuple) and x[0] == 'ext':
                out.append(one(('ext', x[1] + '.' + name)))
            elif isinstance(x, Inst):
                out.append(self.inst_attr(x, name, f))
            elif isinstance(x, Class):
                m = self.method(x, name)
                out.append(one(('unbound', m)) if m is not None else None)
            elif isinstance(x, Py) and x.name in PY:
                out.append(one(('pymethod', x, name)))
            else:
                return None
        return join(out)

    def inst_attr(self, x, name, f):
        key = (x, name, f.cls if name.startswith('__') else None)
        if key in self.attrs:
            return self.attrs[key]
        if key in self.busy or len(self.busy) > 40:
            return None
        self.busy.add(key)
        try:
            r = self.inst_attr_(x, name, f)
        finally:
            self.busy.discard(key)
        self.attrs[key] = r
        return r

    def inst_attr_(self, x, name, f):
        private = name.startswith('__') and not name.endswith('__')
        if name == '_owner':
            return self.model_classes()
        ks = self.classes(x)
        found = []
        for k in ks:
            m = None
            if private:
                m = f.cls.methods.get(name) if f.cls is not None else None
            else:
                m = self.method(k, name)
            if m is not None:
                r = self.read(m, k)
                if r is None:
                    return None
                if r not in found:
                    found.append(r)
                continue
            r = self.stored(k, name, f.cls if private else None)
            if r == 'absent':
                continue
            if r is None:
                return None
            found.append(r)
        return join(found) if found else None

    def read(self, m, k):
        ds = [d for d in m.decorators]
        if any(d in ('Property', 'property', 'cached_property') for d in ds):
            return self.result(m)
        if not ds:
            return one(('bound', m))
        if ds == ['staticmethod']:
            return one(('static', m))
        if ds == ['Memoized']:
            return one(('memo', m))
        return None

    def stored(self, k, name, private):
        """type of the values stored in an attribute by the methods of the class and its bases"""
        vals = []
        for c in ([private] if private else self.mro(k)):
            if name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, ast.Call) and dotted(v.func) == 'Component':
                    return self.component(v, c)
                return None
            for m in c.methods.values():
                a = m.node.args.args
                if not a:
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With)):
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if not isinstance(n, ast.With) else [i.optional_vars for i in n.items if i.optional_vars is not None]
                        for t in ts:
                            for q in ast.walk(t):
                                if isinstance(q, ast.Attribute) and q.attr == name and isinstance(q.ctx, ast.Store) and isinstance(q.value, ast.Name) and q.value.id == a[0].arg:
                                    if isinstance(n, ast.Assign) and q is t:
                                        vals.append((m, n.value))
                                    else:
                                        return None
        if not vals:
            return 'absent'
        if all(isinstance(v, ast.Constant) and v.value is None for _, v in vals):
            return None
        return join([self.type(v, m, self.env(m)) for m, v in vals])

    def component(self, call, c):
        """classes a component can be an instance of"""
        out = []
        cands = [k.value for k in call.keywords if k.arg == 'candidates'] + call.args[2:3]
        if not cands or not isinstance(cands[0], (ast.List, ast.Tuple)):
            return None
        for x in cands[0].elts:
            if not isinstance(x, ast.Constant):
                return None
            ks = [m.classes[x.value] for m in self.repo.modules.values() if x.value in m.classes]
            if len(ks) != 1:
                return None
            out.append(Inst(ks[0]))
        return frozenset(out)

    def result(self, m):
        """type of what a function returns"""
        if m.node in self.returns:
            return self.returns[m.node]
        self.returns[m.node] = None
        rs = []
        for s in m.node.body:
            for n in self.walk(s):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    return None
                if isinstance(n, ast.Return):
                    rs.append(self.type(n.value, m, self.env(m)) if n.value is not None else None)
        r = join(rs) if rs else None
        self.returns[m.node] = r
        return r

    def callees(self, e, f, env):
        """what a call can reach: [(kind, Func or Class)], None when not known"""
        fn = e.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super':
            a = fn.value.args
            k = f.cls
            if a:
                t = self.type(a[0], f, env)
                k = next(iter(t)) if t and len(t) == 1 and isinstance(next(iter(t)), Class) else None
            if k is None:
                return None
            for c in self.mro(k)[1:]:
                if fn.attr in c.methods:
                    m = c.methods[fn.attr]
                    return [('bound' if not m.decorators else 'other', m)]
            return None
        t = self.type(fn, f, env)
        if t is None:
            return None
        out = []
        for x in t:
            if isinstance(x, Class):
                out.append(('class', x))
            elif isinstance(x, Func):
                out.append(('func', x) if not x.decorators else ('other', x))
            elif isinstance(x, tuple) and x[0] in ('bound', 'static', 'memo', 'unbound'):
                out.append(x)
            elif isinstance(x, tuple) and x[0] in ('ext', 'pymethod'):
                out.append(x)
            else:
                return None
        return out

    def call(self, e, f, env):
        cs = self.callees(e, f, env)
        if cs is None:
            return None
        out = []
        for kind, x in [(c[0], c[1]) for c in cs]:
            if kind == 'class':
                out.append(one(Inst(x)))
            elif kind in ('func', 'bound', 'static', 'memo'):
                out.append(self.result(x))
            elif kind == 'ext':
                n = x[9:] if x.startswith('builtins.') else x
                if n in ('copy.deepcopy', 'copy.copy') and e.args:
                    out.append(self.type(e.args[0], f, env))
                elif n in ('str', 'repr'):
                    out.append(one(Py('str')))
                elif n == 'logging.getLogger':
                    out.append(one(Py('Logger')))
                elif n == 're.compile':
                    out.append(one(Py('Pattern')))
                elif n in ('re.match', 're.search', 're.fullmatch'):
                    out.append(one(Py('Match')))
                elif n == 'len':
                    out.append(one(Py('int')))
                elif n in ('list', 'tuple', 'set', 'sorted', 'reversed') and len(e.args) == 1:
                    el = self.elements(self.type(e.args[0], f, env))
                    out.append(one(Py('list' if n in ('sorted', 'list') else n, el)) if n != 'reversed' else one(Py('list', el)))
                elif n in ('dict', 'float', 'list', 'tuple', 'set'):
                    out.append(one(Py(n)))
                else:
                    return None
            elif kind == 'pymethod':
                name = [c for c in cs if c[0] == kind and c[1] is x][0][2]
                if x.name == 'str' and name in ('format', 'join', 'strip', 'replace', 'lower', 'upper', 'lstrip', 'rstrip', 'title'):
                    out.append(one(Py('str')))
                elif x.name == 'str' and name in ('split', 'splitlines'):
                    out.append(one(Py('list', one(Py('str')))))
                elif name == 'copy':
                    out.append(one(x))
                elif x.name == 'Pattern' and name in ('match', 'search', 'fullmatch'):
                    out.append(one(Py('Match')))
                else:
                    return None
            else:
                return None
        return join(out)
