"""Name resolution: what a name means at the top level of a module, star imports included."""
import ast
import builtins

from .repo import Class, Func, Module, dotted


class Scope(object):
    """top-level names of the modules of the package

    names(m)  -> {name: thing}; a thing is a Class, a Func, a Module, ('const', module, name), ('ext', dotted name)
                 or ('any',) for a name that something defines in a way that is not followed
    open(m)   -> True when the module imports * from a module outside the package (its names are then not all known)
    """
    def __init__(self, repo):
        self.repo = repo
        self.tables = {}
        self.opened = set()

    def names(self, m):
        if m.name not in self.tables:
            self.tables[m.name] = t = {}
            self.fill(m, m.tree.body, t)
        return self.tables[m.name]

    def fill(self, m, body, t):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = m.functions.get(s.name)
                t[s.name] = f if f is not None and f.node is s else ('any',)
            elif isinstance(s, ast.ClassDef):
                c = m.classes.get(s.name)
                t[s.name] = c if c is not None and c.node is s else ('any',)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    full = a.name if a.asname else a.name.split('.')[0]
                    t[a.asname or full] = self.thing(full)
            elif isinstance(s, ast.ImportFrom):
                base = self.base(m, s)
                for a in s.names:
                    if a.name == '*':
                        self.star(m, base, t)
                    else:
                        t[a.asname or a.name] = self.thing(base + '.' + a.name)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for n in ast.iter_child_nodes(s):
                    if isinstance(n, ast.expr):
                        self.walrus(n, t)
                if isinstance(s, ast.For):
                    self.target(s.target, t)
                if isinstance(s, ast.With):
                    for i in s.items:
                        if i.optional_vars is not None:
                            self.target(i.optional_vars, t)
                if not (isinstance(s, ast.If) and dotted(s.test) == 'PY2'):
                    self.fill(m, s.body, t)
                for part in ('orelse', 'finalbody'):
                    self.fill(m, getattr(s, part, []), t)
                for h in getattr(s, 'handlers', []):
                    if not self.gone(h):
                        u = {}
                        self.fill(m, h.body, u)
                        for k in u:
                            if t.get(k) is None:
                                t[k] = u[k]
            elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for x in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(x, ast.Name):
                        t[x.id] = ('const', m, x.id) if isinstance(s, ast.Assign) else ('any',)
                    else:
                        self.target(x, t)
            elif isinstance(s, ast.Delete):
                for x in s.targets:
                    if isinstance(x, ast.Name):
                        t.pop(x.id, None)

    def gone(self, h):
        return False

    def target(self, x, t):
        if isinstance(x, ast.Name):
            t[x.id] = ('any',)
        elif isinstance(x, ast.Starred):
            self.target(x.value, t)
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.target(y, t)

    def walrus(self, e, t):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                t[n.target.id] = ('any',)

    def base(self, m, s):
        base = s.module or ''
        if s.level:
            pk = m.name.split('.')
            pk = pk[:len(pk) - s.level + (1 if m.path.endswith('__init__.py') else 0)]
            base = '.'.join(pk + ([s.module] if s.module else []))
        return base

    def star(self, m, base, t):
        b = self.thing(base)
        if isinstance(b, Module):
            src = self.names(b)
            allowed = None
            for v in b.consts.get('__all__', []):
                if isinstance(v, (ast.List, ast.Tuple)):
                    allowed = [x.value for x in v.elts if isinstance(x, ast.Constant)]
            for k in list(src):
                if (k in allowed if allowed is not None else not k.startswith('_')):
                    t[k] = src[k]
            if b.name in self.opened:
                self.opened.add(m.name)
        else:
            self.opened.add(m.name)

    def thing(self, full):
        if full in self.repo.modules:
            return self.repo.modules[full]
        root = full.split('.')[0]
        if root != self.repo_root():
            return ('ext', full)
        if '.' in full:
            base, last = full.rsplit('.', 1)
            b = self.thing(base)
            if isinstance(b, Module):
                n = self.names(b)
                if last in n:
                    return n[last]
                if b.name in self.opened:
                    return ('any',)
                if b.name + '.' + last in self.repo.modules:
                    return self.repo.modules[b.name + '.' + last]
                return None
        return None

    def repo_root(self):
        return 'scaks'

    def lookup(self, m, d):
        """the thing a dotted name means at the top level of the module; None when nothing defines it"""
        head, _, rest = d.partition('.')
        x = self.names(m).get(head)
        if x is None:
            if head in vars(builtins):
                return ('ext', 'builtins.' + d)
            return ('any',) if m.name in self.opened else None
        while rest:
            head, _, rest = rest.partition('.')
            if isinstance(x, Module):
                y = self.names(x).get(head)
                if y is None and x.name + '.' + head in self.repo.modules:
                    y = self.repo.modules[x.name + '.' + head]
                if y is None:
                    return ('any',) if x.name in self.opened else None
                x = y
            elif isinstance(x, tuple) and x[0] == 'ext':
                x = ('ext', x[1] + '.' + head)
            else:
                return ('any',)
        return x

    def bases(self, c):
        out = []
        for b in c.node.bases:
            d = dotted(b)
            x = self.lookup(c.module, d) if d else None
            if isinstance(x, Class):
                out.append(x)
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out
