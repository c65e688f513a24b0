"""Syntax index of the analysed tree: modules, classes, functions, imports, method resolution."""
import ast
import hashlib
import os

ROOT = os.environ.get('SCAKS_ROOT', '/repo')


class Func(object):
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = node.name
        self.decorators = [deco_name(d) for d in node.decorator_list]

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def where(self):
        return '%s:%s (line %d)' % (self.module.rel, self.qual, self.node.lineno)


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return '?'


class Class(object):
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef,)):
                # property setters share the name: keep the getter
                f = Func(s, module, self)
                if 'setter' in f.decorators:
                    self.methods[s.name + '@setter'] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value


class Module(object):
    def __init__(self, path, rel, name):
        self.path, self.rel, self.name = path, rel, name
        with open(path, 'rb') as f:
            data = f.read()
        import warnings
        warnings.simplefilter("ignore", SyntaxWarning)
        self.source = data.decode('utf-8', 'replace')
        self.tree = ast.parse(self.source, path)
        self.functions, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.load(self.tree.body)

    def load(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.functions[s.name] = Func(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pk = self.name.split('.')
                    pk = pk[:len(pk) - s.level + (1 if self.path.endswith('__init__.py') else 0)]
                    base = '.'.join(pk + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts.setdefault(t.id, []).append(s.value)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.consts.setdefault(a.id, []).append(b)
            elif isinstance(s, ast.If):
                py2 = isinstance(s.test, ast.Name) and s.test.id == 'PY2'
                if not py2:
                    self.load(s.body)
                self.load(s.orelse)
            elif isinstance(s, ast.Try):
                self.load(s.body)
                for h in s.handlers:
                    self.load(h.body)


class Repo(object):
    def __init__(self, root=None):
        self._const_attr = {}
        self._sole = {}
        self.root = root or ROOT
        self.modules = {}      # dotted name -> Module
        self.by_rel = {}
        self.errors = []
        for base, dirs, files in os.walk(os.path.join(self.root, 'scaks')):
            dirs[:] = sorted(d for d in dirs if d not in ('tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(base, f)
                    rel = os.path.relpath(p, self.root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    m = Module(p, rel, name)
                    self.modules[name] = m
                    self.by_rel[rel] = m
        self.method_index = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.method_index.setdefault(n, []).append(f)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].source.encode())
        return h.hexdigest()[:16]

    def module(self, rel):
        if rel not in self.by_rel:
            raise Missing('module %s' % rel)
        return self.by_rel[rel]

    def cls(self, name):
        c = [m.classes[name] for m in self.modules.values() if name in m.classes]
        if not c:
            raise Missing('class %s' % name)
        return c[0]

    def resolve(self, dotted, depth=0):
        """dotted name -> Module | Class | Func | (Module, constname) | None"""
        if depth > 8:
            return None
        if dotted in self.modules:
            return self.modules[dotted]
        if '.' not in dotted:
            return None
        base, last = dotted.rsplit('.', 1)
        b = self.resolve(base, depth + 1)
        if isinstance(b, Module):
            if last in b.classes:
                return b.classes[last]
            if last in b.functions:
                return b.functions[last]
            if last in b.consts:
                return (b, last)
            if last in b.imports:
                return self.resolve(b.imports[last], depth + 1)
        return None

    def star_lookup(self, module, n, seen=None):
        seen = seen or set()
        if module.rel in seen:
            return None
        seen.add(module.rel)
        for s in ast.walk(module.tree):
            if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
                base = s.module or ''
                if s.level:
                    pk = module.name.split('.')
                    pk = pk[:len(pk) - s.level + (1 if module.path.endswith('__init__.py') else 0)]
                    base = '.'.join(pk + ([s.module] if s.module else []))
                m = self.modules.get(base)
                if m is None:
                    continue
                if n in m.classes:
                    return m.classes[n]
                if n in m.functions:
                    return m.functions[n]
                if n in m.consts:
                    return (m, n)
                if n in m.imports:
                    return self.resolve(m.imports[n]) or ('ext', m.imports[n])
                r = self.star_lookup(m, n, seen)
                if r is not None:
                    return r
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            d = dotted(b)
            if d is None:
                continue
            r = self.lookup(cls.module, d)
            if r is None and '.' not in d:
                r = self.star_lookup(cls.module, d)
            if isinstance(r, Class):
                out.append(r)
        return out

    def lookup(self, module, d):
        head, _, rest = d.partition('.')
        if not rest:
            if head in module.classes:
                return module.classes[head]
            if head in module.functions:
                return module.functions[head]
        if head in module.imports:
            return self.resolve(module.imports[head] + ('.' + rest if rest else ''))
        return None

    def mro(self, cls):
        """C3 for the simple hierarchies here"""
        def merge(seqs):
            res = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    if not any(s[0] in t[1:] for t in seqs):
                        break
                else:
                    return res
                c = s[0]
                res.append(c)
                seqs = [[x for x in t if x is not c] for t in seqs]
        bs = self.bases(cls)
        return [cls] + merge([self.mro(b) for b in bs] + [bs])

    def find_method(self, cls, name):
        # private names are mangled with the class that contains the use; by name is enough here
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def const_attr(self, cls, name):
        """(expression, class) if the instance attribute is assigned once, in __init__, with an expression
        that refers to nothing but constants and module-level names"""
        key = (cls.name, name)
        if key in self._const_attr:
            return self._const_attr[key]
        res, n = None, 0
        for c in self.mro(cls):
            for fn, f in c.methods.items():
                params = set(a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg))
                local = set(x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
                for s in ast.walk(f.node):
                    targets = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
                    for t in targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store):
                                n += 1
                                if fn == '__init__' and isinstance(s, ast.Assign) and x is t and \
                                        not any(isinstance(y, ast.Name) and y.id in params | local for y in ast.walk(s.value)) and \
                                        any(isinstance(y, ast.Call) for y in ast.walk(s.value)) and \
                                        'compile' in ast.dump(s.value):
                                    res = (s.value, c)
        if n != 1:
            res = None
        self._const_attr[key] = res
        return res

    def sole_writer(self, cls, name):
        """the only method that assigns the attribute, if that is __init__(self, owner) or takes no argument"""
        key = (cls.name, name)
        if key in self._sole:
            return self._sole[key]
        ws, bad = [], False
        for c in self.mro(cls) + [x for x in self.subclasses(cls) if x is not cls]:
            for fn, f in c.methods.items():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and x.attr == name:
                        if isinstance(x.ctx, ast.Store):
                            ws.append((c, f))
                        elif isinstance(x.ctx, ast.Del):
                            bad = True
                    if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) and \
                            isinstance(x.value, ast.Attribute) and x.value.attr == name:
                        bad = True
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute) and x.target.attr == name:
                        bad = True
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and \
                            x.func.value.attr == name and x.func.attr in ('append', 'extend', 'update', 'setdefault', 'pop', 'clear', 'insert', 'remove', 'sort', 'add'):
                        bad = True
        res = None
        if not bad and len(set(id(f) for _, f in ws)) == 1:
            c, f = ws[0]
            n = len(f.node.args.args) - 1
            if 'staticmethod' not in f.decorators and (f.name == '__init__' and n == 1 or n == 0):
                res = f
        self._sole[key] = res
        return res

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c.attrs[name], c
        return None

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not cls and cls in self.mro(c):
                    out.append(c)
        return out

    def func(self, spec):
        """'rel.py:Class.method' or 'rel.py:function'"""
        rel, q = spec.split(':')
        m = self.module(rel)
        if '.' in q:
            c, f = q.split('.')
            if c not in m.classes:
                raise Missing('class %s in %s' % (c, rel))
            r = self.find_method(m.classes[c], f)
        else:
            r = m.functions.get(q)
            if r is None and q in m.imports:
                r = self.resolve(m.imports[q])
        if r is None:
            raise Missing('%s' % spec)
        return r


class Missing(Exception):
    """An anchored entry point is gone: the check has no answer."""


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + '.' + node.attr if b else None
    return None
