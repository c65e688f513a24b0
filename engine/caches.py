"""Hand-made caches: containers (or attributes) that a function consults and fills itself, their keys, and what the kept values depend on."""
import ast

from .repo import dotted


def walk(f):
    """nodes of a function"""
    for s in f.node.body:
        yield from ast.walk(s)


class Deps(object):
    """which parameters (and the energies of the model) the value of an expression comes from"""

    def __init__(self, f):
        self.f = f
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
        self.me = self.params[0] if f.cls is not None and self.params and 'staticmethod' not in f.decorators else None
        pos = a.posonlyargs + a.args
        self.none = set(p.arg for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
                        if isinstance(d, ast.Constant) and d.value is None)
        self.binds = {}
        for n in walk(f):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension, ast.NamedExpr)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                v = n.iter if isinstance(n, (ast.For, ast.comprehension)) else n.value
                if isinstance(v, ast.Call) and dotted(v.func) == 'zip' and isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == len(v.args) \
                        and all(isinstance(x, ast.Name) for x in n.target.elts) and not any(isinstance(x, ast.Starred) for x in v.args):
                    for x, y in zip(n.target.elts, v.args):
                        self.binds.setdefault(x.id, []).append(y)
                    continue
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and v is not None:
                            self.binds.setdefault(x.id, []).append(v)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ('append', 'extend', 'update', 'add', 'insert', 'setdefault'):
                for x in n.args:
                    self.binds.setdefault(n.func.value.id, []).append(x)

    def of(self, exprs):
        out, seen, todo = set(), set(), list(exprs)
        while todo:
            e = todo.pop()
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if n.id in seen:
                        continue
                    seen.add(n.id)
                    if n.id in self.params and n.id != self.me:
                        out.add(n.id)
                    todo += self.binds.get(n.id, [])
                elif isinstance(n, ast.Attribute) and n.attr in ('relative_energies', '_relative_energies', 'absolute_energies', '_absolute_energies'):
                    out.add('@energies')
        return out


def fresh(e):
    return isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Constant, ast.BinOp, ast.Tuple)) or \
        isinstance(e, ast.Call) and dotted(e.func) in ('dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'copy.copy', 'copy.deepcopy', 'collections.OrderedDict', 'collections.defaultdict')


def kept(e, d, f, depth=0):
    """does the expression denote something that outlives the call? Its name, or None"""
    if isinstance(e, ast.Name):
        if e.id in d.binds:
            rs = [kept(x, d, f, depth + 1) for x in d.binds[e.id]] if depth < 4 else []
            rs = [r for r in rs if r]
            return rs[0] if rs else None
        a = f.node.args
        pos = a.posonlyargs + a.args
        dflt = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
        if e.id in d.params:
            return e.id if isinstance(dflt.get(e.id), (ast.Dict, ast.List, ast.Set)) else None
        return e.id
    if isinstance(e, ast.Attribute):
        return ast.unparse(e)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('setdefault', 'get') and kept(e.func.value, d, f, depth + 1):
        return ast.unparse(e.func.value)
    if isinstance(e, ast.Subscript):
        return kept(e.value, d, f, depth + 1)
    if isinstance(e, ast.Call) and dotted(e.func) == 'getattr' and len(e.args) >= 2:
        return ast.unparse(e)
    return None


def caches(f):
    """[(node, name, key expressions, value expressions)]"""
    d = Deps(f)
    out = []
    read = set()
    for n in walk(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            read.add((ast.unparse(n.comparators[0]), ast.unparse(n.left)))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and n.args:
            read.add((ast.unparse(n.func.value), ast.unparse(n.args[0])))
        elif isinstance(n, ast.Try) and any(h.type is not None and 'KeyError' in ast.unparse(h.type) for h in n.handlers):
            for s in n.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                        read.add((ast.unparse(x.value), ast.unparse(x.slice)))
    loops = set(x.id for n in walk(f) if isinstance(n, (ast.For, ast.comprehension)) for x in ast.walk(n.target) if isinstance(x, ast.Name))
    for n in walk(f):
        if not isinstance(n, ast.Assign):
            continue
        for t in n.targets:
            if isinstance(t, ast.Subscript) and (ast.unparse(t.value), ast.unparse(t.slice)) in read:
                name = kept(t.value, d, f)
                if name and computed([n.value], d):
                    sub = [x.slice for x in ast.walk(t.value) if isinstance(x, ast.Subscript)]
                    out.append((n, name, [t.slice, t.value] + sub + outer(t.value, d), [n.value], d))
    for n in walk(f):
        # what is found there stays: C.setdefault(k, v), where v are energies
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'setdefault' and len(n.value.args) == 2:
            t, (k, v) = n.value.func.value, n.value.args
            name = kept(t, d, f)
            if name and '@energies' in d.of([v]) and not filled_anew(f, t, d):
                out.append((n, name, [k] + outer(t, d), [v], d))
    for n in walk(f):
        # an attribute computed once, or again when the test says so
        if isinstance(n, (ast.If, ast.Try)):
            missing = missing_attrs(n) if isinstance(n, ast.Try) else ()
            for s in n.body + n.orelse if isinstance(n, ast.If) else [s for h in n.handlers for s in h.body]:
                for x in ast.walk(s):
                    if not isinstance(x, ast.Assign) or not any(isinstance(y, ast.Call) for y in ast.walk(x.value)) or fresh(x.value):
                        continue
                    for t in x.targets:
                        if not isinstance(t, ast.Attribute) or isinstance(n, ast.Try) and ast.unparse(t) not in missing:
                            continue
                        t = ast.unparse(t)
                        if any(isinstance(y, ast.Assign) and t in map(ast.unparse, y.targets) for y in f.node.body):
                            continue
                        if any(isinstance(r, ast.Return) and r.value is not None and t in [ast.unparse(y) for y in ast.walk(r.value) if isinstance(y, ast.Attribute)] for r in walk(f)):
                            out.append((x, t, [n.test] if isinstance(n, ast.If) else [], [x.value], d))
    return out


def filled_anew(f, t, d):
    """is the container made, or emptied, by the function itself?"""
    ts = [t] + (d.binds.get(t.id, []) if isinstance(t, ast.Name) else [])
    texts = set(ast.unparse(x) for x in ts)
    for n in walk(f):
        if isinstance(n, ast.Assign) and fresh(n.value) and texts & set(ast.unparse(x) for x in n.targets):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('clear', 'pop', 'popitem') and texts & {ast.unparse(n.func.value)}:
            return True
    return False


STATE = {'_relative_energies', '_absolute_energies', '_has_relative_energy', '_has_absolute_energy', 'relative_energies', 'absolute_energies'}


def reads_energies(g, f, value):
    """does a call in this expression, to which no energies are given, read those of the model?"""
    inside = set(ast.walk(value))
    for n, h in g.enters(f):
        if n in inside and isinstance(n, ast.Call) and not any(k.arg == 'relative_energies' for k in n.keywords) and \
                not any('energies' in ast.unparse(a) for a in n.args):
            for x in g.reach([h]).values():
                if any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load) and y.attr in STATE for y in ast.walk(x.node)):
                    return True
    return False


def stale(g, fs):
    """[(function, node, name, why or None)]: the tables of results of these functions, and what is wrong with them"""
    out = []
    for f in fs:
        for node, name, keys, values, d in caches(f):
            if f.cls is not None and f.cls.name == 'Memoized':
                continue        # compared with its reference
            have, need = d.of(keys), d.of(values)
            if 'relative_energies' in d.of(values) & d.none or any(reads_energies(g, f, v) for v in values):
                need = need | {'@energies'}
            missing = sorted(need - have - {'log'})
            why = lossy(keys, d)
            out.append((f, node, name, 'what is kept in %s depends on %s, which the key does not' % (name, ', '.join(m.replace('@energies', 'the energies of the model') for m in missing)) if missing
                        else 'the key of %s: %s' % (name, why) if why else None))
    return out


PLAIN = ('copy.copy', 'copy.deepcopy', 'dict', 'list', 'set', 'tuple', 'str', 'float', 'int', 'len', 'isinstance', 'type', 'getattr', 'range', 'enumerate', 'zip')


def computed(exprs, d):
    """is the value the result of a call?"""
    todo, seen = list(exprs), set()
    while todo:
        e = todo.pop()
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and dotted(n.func) not in PLAIN:
                return True
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                todo += d.binds.get(n.id, [])
    return False


def missing_attrs(n):
    return [ast.unparse(x) for s in n.body for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)] \
        if isinstance(n, ast.Try) and any(h.type is not None and 'AttributeError' in ast.unparse(h.type) for h in n.handlers) else []


def outer(e, d):
    """keys of the containers around: C.setdefault(k, {})"""
    out = []
    if isinstance(e, ast.Name):
        for b in d.binds.get(e.id, []):
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('setdefault', 'get') and x.args:
                    out.append(x.args[0])
                if isinstance(x, ast.Subscript):
                    out.append(x.slice)
    return out


def lossy(keys, d):
    """why a key does not tell different arguments apart"""
    todo, seen = list(keys), set()
    while todo:
        e = todo.pop()
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                todo += d.binds.get(n.id, [])
            if isinstance(n, ast.Call) and dotted(n.func) in ('id', 'hash', 'round', 'len', 'int', 'type', 'sum', 'sorted', 'set', 'frozenset', 'numpy.round', 'np.round'):
                if dotted(n.func) in ('sorted', 'frozenset') and n.args and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Attribute) and n.args[0].func.attr == 'items':
                    continue
                if any(x in d.params for x in names(n, d)):
                    return '%s does not tell different arguments apart' % ast.unparse(n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' or isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                txt = ast.unparse(n.func.value if isinstance(n, ast.Call) else n.left)
                if any(c in txt for c in ('.0', '.1', '.2', '.3', '.4', '.5', '.6', '.7', '.8', '.9', 'e}', 'f}', '%e', '%f', '%g', '%d')):
                    return '%s rounds' % ast.unparse(n)
    return None


def names(n, d):
    return d.of([n])
