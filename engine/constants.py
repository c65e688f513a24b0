"""Constant propagation over the top level of a module: the values its names are bound to."""
import ast
import operator

OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.Pow: operator.pow,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod}
CALLS = {'dict': dict, 'list': list, 'tuple': tuple, 'float': float, 'int': int, 'str': str, 'range': range, 'zip': zip, 'len': len,
         'sorted': sorted, 'enumerate': enumerate, 'sum': sum, 'max': max, 'min': min, 'abs': abs, 'round': round}
METHODS = {'items', 'keys', 'values', 'update', 'append', 'extend', 'split', 'format', 'get', 'setdefault', 'copy', 'strip', 'join',
           'splitlines', 'replace', 'rstrip', 'lstrip', 'startswith', 'endswith'}


class Unknown(Exception):
    pass


class _U(object):
    def __repr__(self):
        return '<unknown>'


UNKNOWN = _U()


class Consts(object):
    def __init__(self, tree, budget=200000):
        self.env = {}
        self.steps = budget
        self.poison = False
        self.block(tree.body)

    def block(self, body):
        for s in body:
            try:
                self.stmt(s)
            except (Unknown, TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, OverflowError):
                # whatever the statement may write is unknown from here on
                for n in ast.walk(s):
                    if isinstance(n, ast.Name):
                        if not isinstance(n.ctx, ast.Load) or type(self.env.get(n.id)) in (dict, list):
                            self.env[n.id] = UNKNOWN

    def stmt(self, s):
        self.steps -= 1
        if self.steps < 0:
            raise Unknown()
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, self.env)
            for t in s.targets:
                self.store(t, v, self.env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.store(s.target, self.ev(s.value, self.env), self.env)
        elif isinstance(s, ast.AugAssign):
            t = self.ev(target_load(s.target), self.env)
            v = self.ev(s.value, self.env)
            self.store(s.target, OPS[type(s.op)](t, v), self.env)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, self.env)
        elif isinstance(s, ast.For) and not s.orelse:
            for x in self.ev(s.iter, self.env):
                self.store(s.target, x, self.env)
                for b in s.body:
                    self.stmt(b)
        elif isinstance(s, ast.If):
            for b in (s.body if self.ev(s.test, self.env) else s.orelse):
                self.stmt(b)
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Pass)):
            pass
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    del self.ev(t.value, self.env)[self.ev(t.slice, self.env)]
        else:
            raise Unknown()

    def store(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(v)
            if len(v) != len(t.elts):
                raise Unknown()
            for a, b in zip(t.elts, v):
                self.store(a, b, env)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)[self.ev(t.slice, env)] = v
        else:
            raise Unknown()

    def ev(self, e, env):
        self.steps -= 1
        if self.steps < 0:
            raise Unknown()
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env and env[e.id] is not UNKNOWN:
                return env[e.id]
            raise Unknown()
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, ast.List):
            return [self.ev(x, env) for x in e.elts]
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d.update(self.ev(v, env))
                else:
                    d[self.ev(k, env)] = self.ev(v, env)
            return d
        if isinstance(e, ast.BinOp):
            return OPS[type(e.op)](self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            x = self.ev(e.operand, env)
            return -x if isinstance(e.op, ast.USub) else x
        if isinstance(e, ast.Subscript):
            return self.ev(e.value, env)[self.ev(e.slice, env)]
        if isinstance(e, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.JoinedStr) and not any(isinstance(p, ast.FormattedValue) and (p.conversion != -1 or p.format_spec) for p in e.values):
            return ''.join(str(self.ev(p.value if isinstance(p, ast.FormattedValue) else p, env)) for p in e.values)
        if isinstance(e, (ast.ListComp, ast.DictComp, ast.GeneratorExp)):
            out = []

            def go(gs, env):
                if not gs:
                    out.append((self.ev(e.key, env), self.ev(e.value, env)) if isinstance(e, ast.DictComp) else self.ev(e.elt, env))
                    return
                for x in self.ev(gs[0].iter, env):
                    e2 = dict(env)
                    self.store(gs[0].target, x, e2)
                    if all(self.ev(c, e2) for c in gs[0].ifs):
                        go(gs[1:], e2)
            go(e.generators, env)
            return dict(out) if isinstance(e, ast.DictComp) else out
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.Gt: operator.gt, ast.LtE: operator.le,
                 ast.GtE: operator.ge, ast.In: lambda x, y: x in y, ast.NotIn: lambda x, y: x not in y}.get(type(e.ops[0]))
            if f is None:
                raise Unknown()
            return f(a, b)
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.ev(e.test, env) else e.orelse, env)
        if isinstance(e, ast.Call):
            if any(isinstance(a, ast.Starred) for a in e.args):
                raise Unknown()
            args = [self.ev(a, env) for a in e.args]
            kw = {}
            for k in e.keywords:
                if k.arg is None:
                    kw.update(self.ev(k.value, env))
                else:
                    kw[k.arg] = self.ev(k.value, env)
            if isinstance(e.func, ast.Name) and e.func.id in CALLS and e.func.id not in env:
                return CALLS[e.func.id](*args, **kw)
            if isinstance(e.func, ast.Attribute) and e.func.attr in METHODS:
                o = self.ev(e.func.value, env)
                if type(o) in (dict, list, str, tuple):
                    return getattr(o, e.func.attr)(*args, **kw)
        raise Unknown()


def target_load(t):
    import copy
    n = copy.deepcopy(t)
    for x in ast.walk(n):
        if hasattr(x, 'ctx') and x is n:
            x.ctx = ast.Load()
    return n


def constants(module):
    return Consts(module.tree).env
