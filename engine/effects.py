"""What functions mutate: a flow-sensitive points-to analysis per function with summaries at calls.

An object is
  ('p', name, path)    what a parameter holds, or what is reached from it
  ('m', attr, path)    what the model that owns a component holds under an attribute
  ('g', label, path)   what is shared by all models: a module variable, a class attribute, a default argument
  ('a', n)             made by the function itself (n: allocation); its contents are kept in the heap
with path a tuple of '[]' (an element) and '.name' (an attribute). A value is a set of objects; the empty set is a value
that aliases nothing of interest (a number, text) or nothing known."""
import ast

from .graph import Graph, PROPS
from .infer import Inst, Py
from .repo import Class, Func, Module, dotted

NOTHING = frozenset()
ELEM = '[]'
MAXPATH = 4
MUTATORS = {'append': 1, 'extend': 1, 'insert': 1, 'remove': 1, 'pop': 1, 'clear': 1, 'sort': 1, 'reverse': 1, 'update': 1, 'setdefault': 1, 'popitem': 1,
            'add': 1, 'discard': 1, 'fill': 1, 'put': 1, 'resize': 1, 'itemset': 1, 'partition': 1, '__setitem__': 1, '__delitem__': 1, '__iadd__': 1,
            'move_to_end': 1, 'appendleft': 1, 'popleft': 1, 'extendleft': 1, 'rotate': 1, 'intersection_update': 1, 'difference_update': 1, 'symmetric_difference_update': 1, 'setfield': 1}
FRESH_CALLS = ('copy.deepcopy', 'numpy.array', 'mpmath.matrix', 'numpy.copy', 'numpy.zeros', 'numpy.matrix')
SAME = ('numpy.asarray', 'numpy.asmatrix', 'numpy.asanyarray', 'iter')
SHALLOW = ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'dict', 'copy.copy', 'collections.OrderedDict', 'itertools.chain', 'filter')


class State(object):
    __slots__ = ('env', 'heap')

    def __init__(self, env=None, heap=None):
        self.env, self.heap = env or {}, heap or {}

    def copy(self):
        return State(dict(self.env), {k: dict(v) for k, v in self.heap.items()})


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = State()
    for k in set(a.env) | set(b.env):
        out.env[k] = a.env.get(k, NOTHING) | b.env.get(k, NOTHING)
    for k in set(a.heap) | set(b.heap):
        x, y = a.heap.get(k, {}), b.heap.get(k, {})
        h = {}
        for f in set(x) | set(y):
            if f[0] == '=':
                # an entry set under this key on one of the paths only
                h[f] = x.get(f, x.get(ELEM, NOTHING)) | y.get(f, y.get(ELEM, NOTHING))
                if k[0] != 'a' and not (f in x and f in y):
                    h[f] |= frozenset([deeper(k, ELEM)])
            elif k[0] != 'a' and not (f in x and f in y):
                # one of the paths left what the field held before
                h[f] = x.get(f, NOTHING) | y.get(f, NOTHING) | frozenset([deeper(k, f)])
            else:
                h[f] = x.get(f, NOTHING) | y.get(f, NOTHING)
        out.heap[k] = h
    return out


def deeper(o, f):
    if o[0] == 'a':
        return o
    path = o[2]
    if len(path) >= MAXPATH or path and path[-1] == f and f == ELEM and len(path) >= 3:
        return (o[0], o[1], path)
    return (o[0], o[1], path + (f,))


class Summary(object):
    def __init__(self):
        self.muts = {}        # object -> (where, what)
        self.stores = {}      # (object, '.name') -> set of objects: attributes set
        self.returns = NOTHING
        self.heap = {}        # contents of returned allocations

    def reach(self, objs):
        """everything reached from the objects"""
        todo, seen = list(objs), set()
        while todo:
            o = todo.pop()
            if o not in seen:
                seen.add(o)
                for v in self.heap.get(o, {}).values():
                    todo += list(v)
        return seen

    def key(self):
        return (frozenset(self.muts), frozenset((k, v) for k, v in self.stores.items()), self.returns)


class Effects(object):
    def __init__(self, repo, graph=None):
        self.repo = repo
        self.graph = graph or Graph(repo)
        self.inf = self.graph.inf
        self.sums = {}
        self.busy = []
        self.unknown_calls = 0
        self.calls = 0

    def summary(self, f):
        if f.node in self.sums:
            return self.sums[f.node]
        if f.node in self.busy:
            return Summary()
        self.busy.append(f.node)
        try:
            s = Run(self, f).run()
        finally:
            self.busy.pop()
        self.sums[f.node] = s
        return s


class Run(object):
    def __init__(self, ef, f, assume=None):
        self.assume, self.assumed = assume or {}, 0       # {text of a test: truth}
        self.ef, self.f, self.inf = ef, f, ef.inf
        self.s = Summary()
        self.n = 0
        self.ids = {}
        self.env_types = self.inf.env(f)
        self.loops = []
        self.tries = []
        self.local_funcs = {}
        self.globals = set(x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names)

    def run(self):
        st = State()
        a = self.f.node.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        for x in params + [y for y in (a.vararg, a.kwarg) if y]:
            st.env[x.arg] = frozenset([('p', x.arg, ())])
        if a.kwarg:
            # a new dictionary of what was given
            st.env[a.kwarg.arg] = self.alloc(a.kwarg, st, frozenset([('p', a.kwarg.arg, (ELEM,))]))
        if a.vararg:
            st.env[a.vararg.arg] = self.alloc(a.vararg, st, frozenset([('p', a.vararg.arg, (ELEM,))]))
        pos = a.posonlyargs + a.args
        self.defaults = {}
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call)):
                st.env[p.arg] = st.env[p.arg] | {('g', 'the default of %s of %s' % (p.arg, self.f.qual), ())}
        self.block(self.f.node.body, st)
        return self.s

    # ------------------------------------------------------------------ objects
    def alloc(self, node, st, contents=NOTHING, tag=None):
        k = (id(node), tag)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
        o = ('a', self.ids[k])
        h = st.heap.setdefault(o, {})
        h[ELEM] = h.get(ELEM, NOTHING) | contents
        for f in [f for f in h if f[0] == '=']:
            del h[f]            # another object made here
        return frozenset([o])

    def field(self, v, name, st):
        out = set()
        for o in v:
            h = st.heap.get(o, {})
            if name in h:
                out |= h[name]
            elif o[0] == 'a':
                # a copy of something keeps its attributes
                if name != ELEM and '*' in h:
                    out |= self.field(h['*'], name, st)
            elif o == ('m', '', ()):
                out.add(('m', name[1:], ()))
            else:
                out.add(deeper(o, name))
        return frozenset(out)

    def elems(self, v, st):
        return self.field(v, ELEM, st)

    def put(self, v, name, new, st, strong=False, key=None):
        for o in v:
            h = st.heap.setdefault(o, {})
            if strong and len(v) == 1:
                h[name] = new
            elif name in h or o[0] == 'a':
                h[name] = h.get(name, NOTHING) | new
            else:
                h[name] = new | {deeper(o, name)}
            if name == ELEM:
                for f in h:
                    if f[0] == '=' and f != key:
                        h[f] = h[f] | new
            if key is not None:
                h[key] = new if len(v) == 1 and o[0] == 'a' else h.get(key, h[ELEM]) | new

    def mutate(self, v, node, what, via=None):
        where = '%s:%s (line %d)' % (self.f.module.rel, self.f.qual, getattr(node, 'lineno', 0))
        for o in v:
            if o[0] != 'a' and o not in self.s.muts:
                self.s.muts[o] = (where, what) if via is None else via

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st, s.value)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st, s.value)
            return st
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                old = st.env.get(s.target.id, NOTHING)
                if self.listlike(s.value) or self.islist(s.target) or \
                        not self.type(s.target) and any(o[0] != 'a' for o in old) and (self.seqlike(s.target.id) or any(o[0] == 'p' and not o[2] and self.seqlike(o[1]) for o in old)):
                    # in place
                    self.mutate(old, s, '%s += ...' % s.target.id)
                    self.put(old, ELEM, self.elems(v, st), st)
                elif not all(o[0] == 'a' for o in old):
                    st.env[s.target.id] = NOTHING
            elif isinstance(s.target, ast.Subscript):
                self.mutate(self.ev(s.target.value, st), s, ast.unparse(s.target) + ' is changed')
                if self.listlike(s.value):
                    self.mutate(self.elems(self.ev(s.target.value, st), st), s, ast.unparse(s.target) + ' += ...')
            elif isinstance(s.target, ast.Attribute):
                if self.listlike(s.value) or self.islist(s.target):
                    self.mutate(self.ev(s.target, st), s, ast.unparse(s.target) + ' += ...')
                else:
                    self.setattr(s.target, NOTHING, st)
            return st
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else NOTHING
            self.s.returns = self.s.returns | v
            self.keep(v, st)
            return None
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x, st)
            if self.tries:
                self.tries[-1].append(st.copy())
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][0 if isinstance(s, ast.Break) else 1].append(st.copy())
            return None
        if isinstance(s, ast.If):
            self.ev(s.test, st)
            k = self.known(s.test)
            if k is not None:
                return self.block(s.body if k else s.orelse, st)
            a, b = st.copy(), st
            self.narrow(s.test, a, True)
            self.narrow(s.test, b, False)
            return join(self.block(s.body, a), self.block(s.orelse, b))
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                it = self.ev(s.iter, st)
            out = st.copy()
            breaks = []
            cur = st
            for _ in range(3):
                body = cur.copy()
                if isinstance(s, ast.For):
                    self.assign(s.target, self.elems(it, body), body, None)
                else:
                    self.ev(s.test, body)
                self.loops.append(([], []))
                after = self.block(s.body, body)
                brk, cont = self.loops.pop()
                for x in cont:
                    after = join(after, x)
                breaks = brk
                nxt = join(cur.copy(), after)
                if nxt.env == cur.env and nxt.heap == cur.heap:
                    break
                cur = nxt
            out = join(out, cur)
            if s.orelse:
                out = self.block(s.orelse, out)
            for x in breaks:
                out = join(out, x)
            return out
        if isinstance(s, ast.Try):
            before = st.copy()
            self.tries.append([])
            body = self.block(s.body, st)
            raised = self.tries.pop()
            ok = self.block(s.orelse, body) if body is not None else None
            start = before
            for x in raised + ([body] if body is not None else []):
                start = join(start, x.copy())
            outs = ok
            for h in s.handlers:
                outs = join(outs, self.block(h.body, start.copy()))
            if s.finalbody:
                if outs is None:
                    self.block(s.finalbody, start.copy())
                else:
                    outs = self.block(s.finalbody, outs)
            return outs
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, st, None)
            return self.block(s.body, st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, st), s, 'del ' + ast.unparse(t))
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value, st), s, 'del ' + ast.unparse(t))
            return st
        if isinstance(s, ast.FunctionDef):
            self.local_funcs[s.name] = s
            return st
        if isinstance(s, (ast.Expr, ast.Assert)):
            self.ev(s.value if isinstance(s, ast.Expr) else s.test, st)
            return st
        return st

    def known(self, test):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            k = self.known(test.operand)
            return None if k is None else not k
        d = dotted(test)
        if d in self.assume:
            self.assumed += 1
            return self.assume[d]
        return None

    def narrow(self, test, st, truth):
        """a name that is None, falsy or of another type on a branch holds nothing there"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    self.narrow(v, st, truth)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth:
                st.env[test.left.id] = NOTHING
        elif isinstance(test, ast.Name) and not truth:
            # empty: what it holds can still be filled; None most of the time
            pass

    def keep(self, v, st):
        """contents of what is returned"""
        todo = list(v)
        seen = set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o in st.heap:
                h = self.s.heap.setdefault(o, {})
                for k, x in st.heap[o].items():
                    if o[0] != 'a' and k != ELEM:
                        continue
                    h[k] = h.get(k, NOTHING) | x
                    todo += list(x)

    def assign(self, t, v, st, value):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            self.glob(t, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + value.elts):
                vs = [self.ev(x, st) for x in value.elts]
                for x, y, z in zip(t.elts, vs, value.elts):
                    self.assign(x, y, st, z)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, self.elems(v, st) if not isinstance(x, ast.Starred) else self.alloc(x, st, self.elems(v, st)), st, None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.mutate(b, t, ast.unparse(t) + ' is set')
            k = t.slice.value if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) else None
            self.put(b, ELEM, v, st, key=None if k is None else '=' + k)
        elif isinstance(t, ast.Attribute):
            self.setattr(t, v, st)

    def setattr(self, t, v, st):
        b = self.ev(t.value, st)
        k = self.type(t.value)
        if k and all(isinstance(x, Class) for x in k):
            self.mutate([('g', 'class %s' % ' or '.join(sorted(x.name for x in k)), ())], t, ast.unparse(t) + ' is set')
        elif isinstance(t.value, ast.Attribute) and t.value.attr == '__class__' or isinstance(t.value, ast.Call) and dotted(t.value.func) == 'type':
            self.mutate([('g', 'class of %s' % ast.unparse(t.value), ())], t, ast.unparse(t) + ' is set')
        else:
            d = self.external(t.value, st)
            if d:
                self.mutate([('g', d, ())], t, ast.unparse(t) + ' is set')
        self.store(b, '.' + t.attr, v, st, t)

    def store(self, b, name, v, st, node):
        self.put(b, name, v, st, strong=True)
        for o in b:
            if o[0] != 'a':
                k = (o, name)
                self.s.stores[k] = self.s.stores.get(k, NOTHING) | v
                self.keep(v, st)

    def glob(self, t, st):
        if t.id in self.globals:
            self.mutate([('g', '%s of %s' % (t.id, self.f.module.rel), ())], t, 'the module variable %s is set' % t.id)

    # ------------------------------------------------------------------ types
    def type(self, e):
        try:
            return self.inf.type(e, self.f, self.env_types)
        except Exception:
            return None

    def islist(self, e):
        t = self.type(e)
        return bool(t) and all(isinstance(x, Py) and x.name in ('list', 'set', 'dict') for x in t)

    def seqlike(self, name):
        """what the name holds is used as a sequence somewhere in the function"""
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'zip', 'enumerate', 'map', 'sorted', 'reversed', 'list', 'tuple'):
                if any(isinstance(x, ast.Name) and x.id == name for x in n.args):
                    return True
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == name:
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
        return False

    def listlike(self, e):
        if isinstance(e, (ast.List, ast.ListComp, ast.Set, ast.SetComp)):
            return True
        return self.islist(e)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        if e is None:
            return NOTHING
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, st)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, st)
        return NOTHING

    def e_Constant(self, e, st):
        return NOTHING

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        if e.id in self.env_types and e.id not in self.local_funcs:
            return NOTHING
        x = self.inf.scope.lookup(self.f.module, e.id)
        if isinstance(x, tuple) and x[0] == 'const':
            return self.module_var(x[1], x[2])
        if x is None:
            return self.module_var(self.f.module, e.id)
        return NOTHING

    def module_var(self, mod, name):
        for s in mod.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and \
                    isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.Call)):
                return frozenset([('g', '%s of %s' % (name, mod.rel), ())])
        return NOTHING

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_List(self, e, st):
        v = NOTHING
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v |= self.elems(self.ev(x.value, st), st)
            else:
                v |= self.ev(x, st)
        return self.alloc(e, st, v)
    e_Tuple = e_Set = e_List

    def e_Dict(self, e, st):
        v = NOTHING
        for k, x in zip(e.keys, e.values):
            if k is None:
                v |= self.elems(self.ev(x, st), st)
            else:
                self.ev(k, st)
                v |= self.ev(x, st)
        return self.alloc(e, st, v)

    def comp(self, e, st):
        s2 = State(dict(st.env), st.heap)
        for g in e.generators:
            it = self.ev(g.iter, s2)
            self.assign(g.target, self.elems(it, s2), s2, None)
            for x in g.ifs:
                self.ev(x, s2)
        if isinstance(e, ast.DictComp):
            self.ev(e.key, s2)
            v = self.ev(e.value, s2)
        else:
            v = self.ev(e.elt, s2)
        return self.alloc(e, st, v)
    e_ListComp = e_SetComp = e_DictComp = e_GeneratorExp = comp

    def e_Lambda(self, e, st):
        return NOTHING

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        k = self.known(e.test)
        if k is not None:
            return self.ev(e.body if k else e.orelse, st)
        a, b = st, st
        return self.ev(e.body, a) | self.ev(e.orelse, b)

    def e_BoolOp(self, e, st):
        v = NOTHING
        for x in e.values:
            v |= self.ev(x, st)
        return v

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)):
            c = self.elems(a, st) | self.elems(b, st)
            return self.alloc(e, st, c) if a or b else NOTHING
        return NOTHING

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                self.ev(x, st)
            return self.alloc(e, st, self.elems(b, st)) if b else NOTHING
        self.ev(e.slice, st)
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            k = '=' + e.slice.value
            out = NOTHING
            for o in b:
                h = st.heap.get(o, {})
                out |= h[k] if k in h else self.elems([o], st)
            return out
        return self.elems(b, st)

    def e_Attribute(self, e, st):
        if e.attr == '_owner' or e.attr == 'owner':
            return frozenset([('m', '', ())])
        if e.attr in ('__dict__',):
            return self.ev(e.value, st)
        d = dotted(e)
        if d and d.split('.')[0] not in st.env and d.split('.')[0] not in self.env_types:
            x = self.inf.scope.lookup(self.f.module, d)
            if isinstance(x, tuple) and x[0] == 'const':
                return self.module_var(x[1], x[2])
        # shared: an attribute of a class
        t = self.type(e.value)
        if t and all(isinstance(x, Class) for x in t):
            out = set()
            for x in t:
                for k in self.inf.mro(x):
                    if e.attr in k.attrs:
                        out.add(('g', '%s of class %s' % (e.attr, k.name), ()))
                        break
            return frozenset(out)
        b = self.ev(e.value, st)
        if not b:
            return NOTHING
        if t and all(isinstance(x, Inst) for x in t):
            out = NOTHING
            done = True
            for x in t:
                m = self.inf.method(x.cls, e.attr)
                if m is not None:
                    if any(d.split('.')[-1] in ('Property', 'property', 'cached_property') for d in m.decorators):
                        out |= self.apply(m, [b], {}, e, st)
                        continue
                    return NOTHING
                k = self.declared(x.cls, e.attr)
                if k is not None:
                    kind, node = k
                    if kind == 'shared':
                        # an attribute of the class, unless the instance has its own
                        got = NOTHING
                        for o in b:
                            if '.' + e.attr in st.heap.get(o, {}):
                                got |= st.heap[o]['.' + e.attr]
                            else:
                                got |= {('g', '%s of class %s' % (e.attr, x.cls.name), ())}
                        out |= got
                        continue
                    if kind == 'copy':
                        out |= self.alloc(e, st)
                        continue
                done = False
            if done:
                return out
        return self.field(b, '.' + e.attr, st)

    def declared(self, c, name):
        """('copy'|'descriptor'|'shared', node) of an attribute in a class body that instances do not set"""
        for k in self.inf.mro(c):
            for s in k.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    v = s.value
                    if isinstance(v, ast.Call):
                        x = self.inf.scope.lookup(k.module, dotted(v.func) or '')
                        if isinstance(x, Class) and self.inf.method(x, '__get__') is not None:
                            deep = [w.value for w in v.keywords if w.arg == 'deepcopy']
                            default = False
                            init = self.inf.method(x, '__init__')
                            if init is not None:
                                a = init.node.args
                                for p, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
                                    if p.arg == 'deepcopy':
                                        default = isinstance(d, ast.Constant) and bool(d.value)
                            yes = isinstance(deep[0], ast.Constant) and bool(deep[0].value) if deep else default
                            return ('copy' if yes else 'descriptor', s)
                        if not isinstance(x, Class) and isinstance(x, tuple) and x[1] in ('builtins.dict', 'builtins.list', 'builtins.set', 'collections.defaultdict', 'collections.OrderedDict'):
                            if self.set_by_instances(c, name):
                                return None
                            return ('shared', s)
                    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) and not self.set_by_instances(c, name):
                        return ('shared', s)
                    return None
        return None

    def set_by_instances(self, c, name):
        """constructors give each instance its own"""
        for k in self.inf.mro(c):
            m = k.methods.get('__init__')
            if m is not None:
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        fn = e.func
        d = self.external(fn, st)
        args = [self.ev(a, st) for a in e.args]
        kws = {k.arg: self.ev(k.value, st) for k in e.keywords}
        for k in e.keywords:
            if k.arg == 'out':
                self.mutate(kws['out'], e, 'out=%s' % ast.unparse(k.value))
        self.ef.calls += 1
        # a function of the package
        cs = None
        if not (isinstance(fn, ast.Name) and (fn.id in self.local_funcs or fn.id in st.env)):
            try:
                cs = self.inf.callees(e, self.f, self.env_types)
            except Exception:
                cs = None
        if isinstance(fn, ast.Name) and fn.id in self.local_funcs and fn.id not in st.env:
            return self.local(self.local_funcs[fn.id], args, kws, e, st)
        if cs and all(c[0] in ('class', 'func', 'bound', 'static', 'memo', 'unbound') for c in cs):
            out = NOTHING
            for c in cs:
                if c[0] == 'class':
                    o = self.alloc(e, st)
                    out |= o
                    for k in self.inf.mro(c[1]):
                        self.tag(o, k)
                    m = self.inf.method(c[1], '__init__')
                    if m is not None:
                        self.apply(m, [o] + args, kws, e, st)
                    continue
                m = c[1]
                if not isinstance(m, Func):
                    continue
                if c[0] in ('bound', 'memo'):
                    me = self.ev(fn.value, st) if isinstance(fn, ast.Attribute) and not (isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super') else st.env.get(self.me(), NOTHING)
                    ms = [m]
                    r = NOTHING
                    for x in ms:
                        r |= self.apply(x, [me] + args, kws, e, st)
                    out |= r if c[0] == 'bound' else self.alloc(e, st)
                else:
                    out |= self.apply(m, args, kws, e, st)
            return out
        if isinstance(fn, ast.Attribute):
            return self.method(e, fn, args, kws, st, d)
        return self.builtin(d or (fn.id if isinstance(fn, ast.Name) else None), e, args, kws, st)

    def tag(self, o, k):
        pass

    def me(self):
        a = self.f.node.args
        ps = a.posonlyargs + a.args
        return ps[0].arg if ps else ''

    def external(self, fn, st):
        d = dotted(fn)
        if not d:
            return None
        root = d.split('.')[0]
        if root in st.env or root in self.local_funcs:
            return None
        x = self.inf.scope.lookup(self.f.module, d) if '.' not in d else self.inf.scope.lookup(self.f.module, root)
        if isinstance(x, tuple) and x[0] == 'ext':
            n = x[1] + d[len(root):]
            return n[9:] if n.startswith('builtins.') else n
        return None

    def local(self, node, args, kws, e, st):
        """a nested function: its body with the parameters bound"""
        if node in self.loops_local:
            return NOTHING
        self.loops_local.append(node)
        try:
            s2 = State(dict(st.env), st.heap)
            a = node.args
            ps = a.posonlyargs + a.args
            for p, v in zip(ps, args):
                s2.env[p.arg] = v
            for p in ps[len(args):] + a.kwonlyargs:
                s2.env[p.arg] = kws.get(p.arg, NOTHING)
            saved, self.s.returns = self.s.returns, NOTHING
            loops, self.loops = self.loops, []
            self.block(node.body, s2)
            r, self.s.returns = self.s.returns, saved
            self.loops = loops
            return r
        finally:
            self.loops_local.pop()

    @property
    def loops_local(self):
        return self.__dict__.setdefault('_ll', [])

    def apply(self, m, args, kws, e, st):
        """the effects of a called function of the package"""
        s = self.ef.summary(m)
        a = m.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        bind = {}
        i = 0
        rest = NOTHING
        exprs = list(args)
        if isinstance(e, ast.Call) and any(isinstance(x, ast.Starred) for x in e.args):
            # *args: everything can be anywhere
            star = NOTHING
            for x in e.args:
                if isinstance(x, ast.Starred):
                    star |= self.elems(self.ev(x.value, st), st)
            off = len(args) - len(e.args)
            for j, x in enumerate(e.args):
                if isinstance(x, ast.Starred):
                    for p in ps[off + j:]:
                        bind[p] = bind.get(p, NOTHING) | star
                    rest |= star
                    exprs = args[:off + j]
                    break
        for p, v in zip(ps, exprs):
            bind[p] = bind.get(p, NOTHING) | v
        for v in exprs[len(ps):]:
            rest |= v
        kwrest = NOTHING
        names = set(ps) | set(p.arg for p in a.kwonlyargs)
        for k, v in kws.items():
            if k is None:
                for p in names:
                    if p not in bind:
                        bind[p] = self.elems(v, st)
                kwrest |= self.elems(v, st)
            elif k in names:
                bind[k] = bind.get(k, NOTHING) | v
            else:
                kwrest |= v
        if a.vararg:
            bind[a.vararg.arg] = rest       # only its elements appear in the summary
        if a.kwarg:
            bind[a.kwarg.arg] = kwrest
        # defaults
        pos = a.posonlyargs + a.args
        fresh = {}

        def of(o, seen=()):
            if o[0] == 'p':
                v = bind.get(o[1], NOTHING)
                path = o[2]
                if a.vararg and o[1] == a.vararg.arg or a.kwarg and o[1] == a.kwarg.arg:
                    path = path[1:]
                for f in path:
                    v = self.field(v, f, st)
                return v
            if o[0] == 'm':
                return frozenset([o])
            if o[0] == 'g':
                return frozenset([o])
            if o not in fresh:
                fresh[o] = self.alloc(e, st, tag=(id(m.node), o))
                for f, v in s.heap.get(o, {}).items():
                    c = NOTHING
                    for x in v:
                        c |= of(x)
                    self.put(fresh[o], f, c, st)
            return fresh[o]
        for o, why in list(s.muts.items()):
            self.mutate_via(of(o), o, e, m, why, given=bind, a=a)
        for (o, name), v in list(s.stores.items()):
            new = NOTHING
            for x in v:
                new |= of(x)
            b = of(o)
            self.put(b, name, new, st)
            for x in b:
                if x[0] != 'a':
                    k = (x, name)
                    self.s.stores[k] = self.s.stores.get(k, NOTHING) | new
                    self.keep(new, st)
        r = NOTHING
        for o in s.returns:
            r |= of(o)
        # what the callee put into objects it was given
        for o, h in list(s.heap.items()):
            if o[0] != 'a' and ELEM in h:
                b = of(o)
                c = NOTHING
                for x in h[ELEM]:
                    c |= of(x)
                self.put(b, ELEM, c, st)
        if any(d.split('.')[-1] == 'Memoized' for d in m.decorators):
            return self.alloc(e, st, tag='memo')
        return r

    def mutate_via(self, v, o, e, m, why, given, a):
        # a default that was replaced by an argument
        if o[0] == 'g' and o[1].startswith('the default of ') and o[1].endswith(' of ' + m.qual):
            p = o[1].split(' ')[3]
            if p in given:
                return
        self.mutate(v, e, why[1], via=why)

    def method(self, e, fn, args, kws, st, d):
        name = fn.attr
        if d is not None and d not in MUTATORS:
            r = self.builtin(d, e, args, kws, st)
            return r
        b = self.ev(fn.value, st)
        if not b:
            return self.unknown(e, fn, args, kws, st)
        t = self.type(fn.value)
        if name in MUTATORS:
            self.mutate(b, e, '%s.%s(...)' % (ast.unparse(fn.value), name))
            c = NOTHING
            if name in ('append', 'add', 'appendleft', 'insert', 'setdefault', '__setitem__', 'fill'):
                for x in args[1:] if name in ('setdefault', '__setitem__', 'insert') else args:
                    c |= x
            elif name in ('extend', 'update', 'extendleft', '__iadd__'):
                for x in args:
                    c |= self.elems(x, st)
                for x in kws.values():
                    c |= x
            r = self.elems(b, st)
            if c:
                self.put(b, ELEM, c, st)
            if name in ('setdefault',):
                return r | (args[1] if len(args) > 1 else NOTHING)
            return r if name in ('pop', 'popitem', 'popleft') else NOTHING
        if name == 'get':
            r = self.elems(b, st)
            for x in args[1:]:
                r |= x
            return r
        if name in ('values', 'keys', '__iter__'):
            return self.alloc(e, st, self.elems(b, st))
        if name == 'items':
            return self.alloc(e, st, self.alloc(e, st, self.elems(b, st), tag='pair'))
        if name == 'copy':
            o = self.alloc(e, st, self.elems(b, st))
            return o
        if name in ('tolist', 'astype', 'flatten'):
            if not self.methods_named(name) or not self.package_like(t):
                return self.alloc(e, st)
        return self.unknown(e, fn, args, kws, st, b)

    def package_like(self, t):
        return t is None

    def methods_named(self, name):
        return [g for g in self.ef.graph.by_name.get(name, []) if g.cls is not None]

    def unknown(self, e, fn, args, kws, st, b=NOTHING):
        """a method of something of unknown type: the only function of that name, if there is one and the name is no one else's"""
        from checks.defs import external
        gs = [g for g in self.methods_named(fn.attr) if not g.decorators or g.decorators == ['Memoized']]
        if fn.attr in external()['all'] and fn.attr != 'tolist' or not gs:
            self.ef.unknown_calls += 1
            return NOTHING
        if len(gs) > 4:
            self.ef.unknown_calls += 1
            return NOTHING
        b = b or self.ev(fn.value, st)
        out = NOTHING
        for g in gs:
            out |= self.apply(g, [b] + args, kws, e, st)
        return out

    def builtin(self, d, e, args, kws, st):
        if d is None:
            return NOTHING
        last = d.split('.')[-1]
        if d in FRESH_CALLS:
            return self.alloc(e, st)
        if d in SAME:
            return args[0] if args else NOTHING
        if d in ('next', 'min', 'max'):
            r = NOTHING
            for a in args:
                r |= self.elems(a, st) if len(args) == 1 or d == 'next' else a
            return r
        if d in SHALLOW:
            c = NOTHING
            for a in args:
                c |= self.elems(a, st)
            for v in kws.values():
                c |= v
            o = self.alloc(e, st, c)
            if d == 'copy.copy' and args:
                for x in o:
                    st.heap[x]['*'] = args[0]
            return o
        if d in ('zip', 'enumerate', 'itertools.product', 'itertools.zip_longest', 'zip_longest'):
            c = NOTHING
            for a in args:
                c |= self.elems(a, st)
            return self.alloc(e, st, self.alloc(e, st, c, tag='pair'))
        if d == 'map' and len(e.args) > 1:
            return self.alloc(e, st)
        if d == 'sum' and len(args) > 1:
            c = self.elems(self.elems(args[0], st), st) | self.elems(args[1], st)
            return self.alloc(e, st, c)
        if d == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            n = ast.copy_location(ast.Attribute(e.args[0], e.args[1].value, ast.Load()), e)
            return self.ev(n, st) | (args[2] if len(args) > 2 else NOTHING)
        if d == 'setattr' and len(args) == 3:
            if isinstance(e.args[1], ast.Constant):
                self.store(args[0], '.' + str(e.args[1].value), args[2], st, e)
            else:
                # some attribute
                for o in args[0]:
                    if o[0] != 'a':
                        k = (o, '.*')
                        self.s.stores[k] = self.s.stores.get(k, NOTHING) | args[2]
            return NOTHING
        if d in ('random.shuffle', 'numpy.random.shuffle', 'heapq.heapify', 'heapq.heappop', 'heapq.heappush', 'numpy.put', 'numpy.copyto', 'numpy.fill_diagonal', 'numpy.place', 'bisect.insort',
                 'operator.setitem', 'operator.delitem', 'operator.iadd') and args:
            self.mutate(args[0], e, '%s(...)' % d)
            return NOTHING
        if d in ('list.append', 'list.extend', 'list.sort', 'list.reverse', 'list.insert', 'list.pop', 'list.remove', 'list.clear', 'dict.update', 'dict.pop', 'dict.setdefault', 'dict.clear') and args:
            self.mutate(args[0], e, '%s(...)' % d)
            return NOTHING
        if d == 'vars' and args:
            return args[0]
        return NOTHING
