"""Definitions and uses: C41."""
import ast
import builtins
import importlib
import json
import os
import sys

from engine.domain import Domain
from engine.infer import Infer, Inst, Py, PY
from engine.unbound import Flow
from engine.names import Scope
from engine.repo import Class, Func, Module, dotted
from . import check
from .rxn import VF

NAMES = 'every name read is bound in its scope, in an enclosing function, at the top level of its module (star imports followed) or built in'
LOCAL = ('no local name is read on a path, guarded by nothing but independent flags, on which nothing has bound it, nor where only another branch '
         'or an earlier iteration could have bound it')
ATTRS = 'every attribute read from an expression of inferred class, module or built-in type is defined by it, a base, a subclass or a store'
CALLS = 'every call of a package function, method or class binds its arguments to the parameters of what it can reach'
OPERANDS = 'no method of the package is itself an operand, a sequence looped over or a container looked into where only its result can be'
SKIP = ('scaks/plotters/images2gif.py',)
IMPORTABLE = {'math', 'copy', 'os', 're', 'time', 'functools', 'operator', 'itertools', 'logging', 'pickle', 'sys', 'collections', 'string', 'random',
              'importlib', 'cProfile', 'pstats', 'warnings', 'numpy', 'sympy', 'mpmath', 'scipy', 'subprocess', 'json'}


_EXT = {}


def external():
    """names of the libraries (engine/external.json, made by tools/gen_external.py)"""
    if not _EXT:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine', 'external.json')) as f:
            _EXT.update(json.load(f))
        _EXT['all'] = set(_EXT['vocabulary']).union(*_EXT['modules'].values())
    return _EXT


def known_module(d):
    """a module whose names do not come and go with the version of Python"""
    return d.split('.')[0] in ('numpy', 'scipy', 'sympy', 'mpmath')


def absent(repo, m):
    """modules imported by m that are neither of the package nor known"""
    for n in ast.walk(m.tree):
        ns = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ''] if isinstance(n, ast.ImportFrom) and not n.level else []
        for x in ns:
            if x.split('.')[0] not in external()['modules'] and not x.startswith('scaks') and x.split('.')[0] not in ('', '__future__') and x not in sys.stdlib_module_names:
                return x
    return None


@check('C41')
def definitions(c):
    for r in (NAMES, LOCAL, ATTRS, CALLS, OPERANDS):
        c.rule(r)
    scope = Scope(c.repo)
    mods = [m for r, m in sorted((m.rel, m) for m in c.repo.modules.values()) if not r.startswith('scaks/tests/') and r not in SKIP]
    for m in mods:
        Names(c, scope, m).run()
        unbound(c, m)
    inf = Infer(c.repo, scope)
    u = Uses(c, inf)
    u.prepare(mods)
    for m in mods:
        u.run(m)
    unavailable(c, mods)


class Results(Domain):
    """a result that is there is not None"""
    def never_none(self, t):
        return t.op == 'attr' and t.args[1].startswith('__')


M = 'scaks/models/micro_kinetic_model.py:MicroKineticModel'


def unavailable(c, mods):
    """queries for what is not available yet"""
    c.rule(VF)
    for q in ('steady_state_coverages', 'TOFs', 'reversibilities', 'error'):
        c.equiv(M + '.' + q, 'defs', q, ob='query without result', domain=Results())
    c.rule('an attribute whose absence a query reports is not set to None or left empty when nothing is known')
    n = bad = 0
    for m in mods:
        for k in m.classes.values():
            asked = set()
            for f in k.methods.values():
                for t in ast.walk(f.node):
                    if isinstance(t, ast.Try) and any(h.type is not None and 'AttributeError' in ast.unparse(h.type) for h in t.handlers):
                        asked |= set(x.attr for s in t.body for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == 'self')
                    if isinstance(t, ast.Call) and dotted(t.func) == 'hasattr' and len(t.args) == 2 and isinstance(t.args[1], ast.Constant) and dotted(t.args[0]) == 'self':
                        asked.add(t.args[1].value)
            n += len(asked)
            for f in k.methods.values():
                for t in ast.walk(f.node):
                    if isinstance(t, ast.Assign) and isinstance(t.value, ast.Constant) and t.value.value is None:
                        for x in t.targets:
                            if isinstance(x, ast.Attribute) and x.attr in asked and dotted(x.value) == 'self':
                                bad += 1
                                c.violated('query without result', '%s:%s (line %d)' % (m.rel, f.qual, t.lineno), '%s is None instead of missing, which is what its query asks for' % ast.unparse(x))
    c.count('attributes asked for', n)
    if not bad:
        c.hold('query without result', 'scaks', '%d attributes asked for' % n)


def unbound(c, m):
    """local names read on a path on which nothing has bound them"""
    n = bad = 0
    for k in ast.walk(m.tree):
        if isinstance(k, ast.FunctionDef):
            names = Names.bindings(None, k) - {'*'}
            fl = Flow(k, names)
            reports = fl.run()
            n += len(names)
            for e, g in reports:
                bad += 1
                c.violated('local names', '%s:%s (line %d)' % (m.rel, k.name, e.lineno), 'the local name %s is read when nothing has bound it%s' % (
                    e.id, '' if not g else ', on the path where ' + ' and '.join('%s is %s' % (text(t), v) for t, v in g)))
    c.count('local_names', n)
    if n and not bad:
        c.hold('local names', m.rel, '%d names' % n)


def text(dump):
    try:
        return ast.unparse(eval(dump, vars(ast)))
    except Exception:
        return dump


def reachable(stmts):
    for s in stmts:
        yield s
        if isinstance(s, (ast.Raise, ast.Return, ast.Continue, ast.Break)):
            return


def statements(n):
    """the blocks of a compound statement and the expressions evaluated before them"""
    blocks, exprs = [], []
    for k, v in ast.iter_fields(n):
        if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
            blocks.append(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, ast.ExceptHandler):
                    blocks.append(x.body)
                    if x.type is not None:
                        exprs.append(x.type)
                elif isinstance(x, ast.AST):
                    exprs.append(x)
        elif isinstance(v, ast.AST):
            exprs.append(v)
    return exprs, blocks


# ------------------------------------------------------------------ names
class Names(object):
    def __init__(self, c, scope, m):
        self.c, self.scope, self.m = c, scope, m
        self.top = scope.names(m)
        self.n = self.bad = 0

    def run(self):
        self.body(self.m.tree.body, [])
        self.c.count('names_resolved', self.n)
        if not self.bad:
            self.c.hold('names', self.m.rel, '%d names' % self.n) if self.n else None

    def body(self, stmts, scopes, where=None):
        for s in reachable(stmts):
            self.visit(s, scopes, where)

    def bindings(self, node):
        """names bound directly in a function or lambda"""
        a = node.args
        out = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
        if isinstance(node, ast.Lambda):
            return out
        glob = set()

        def go(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                for d in n.decorator_list:
                    go(d)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                return
            if isinstance(n, ast.Global):
                glob.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    if x.name == '*':
                        out.add('*')
                    out.add(x.asname or x.name.split('.')[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            for k in ('MatchAs', 'MatchStar'):
                if type(n).__name__ == k and n.name:
                    out.add(n.name)
            for x in ast.iter_child_nodes(n):
                go(x)
        for s in node.body:
            go(s)
        return out - glob

    def visit(self, n, scopes, where):
        """scopes: [(names, is a class body)] from the outermost to the innermost"""
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            name = getattr(n, 'name', 'lambda')
            inner = (where + '.' if where else '') + name if name != 'lambda' else where
            for d in getattr(n, 'decorator_list', []):
                self.visit(d, scopes, where)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, scopes, where)
            s2 = [s for s in scopes] + [(self.bindings(n), False)]
            # the body of a class is not visible in its methods
            s2 = [s for i, s in enumerate(s2) if not s[1]]
            if isinstance(n, ast.Lambda):
                self.visit(n.body, s2, inner)
            else:
                self.body(n.body, s2, inner)
            return
        if isinstance(n, ast.ClassDef):
            for x in n.bases + [k.value for k in n.keywords] + n.decorator_list:
                self.visit(x, scopes, where)
            bound = set()
            for s in n.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        bound.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        bound.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        bound |= set(y.asname or y.name.split('.')[0] for y in x.names)
            self.body(n.body, scopes + [(bound, True)], (where + '.' if where else '') + n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = set()
            for g in n.generators:
                b |= set(x.id for x in ast.walk(g.target) if isinstance(x, ast.Name))
            s2 = scopes + [(b, False)]
            for x in ast.iter_child_nodes(n):
                self.visit(x, s2, where)
            return
        if isinstance(n, ast.If) and dotted(n.test) == 'PY2':
            self.body(n.orelse, scopes, where)
            return
        if isinstance(n, ast.Try):
            caught = set(dotted(x) for h in n.handlers for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts) if h.type is not None)
            if caught & {'NameError', 'Exception', 'ImportError'} or any(h.type is None for h in n.handlers):
                # what is tried may fail
                for h in n.handlers:
                    self.body(h.body, scopes, where)
                self.body(n.finalbody, scopes, where)
                return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.n += 1
            if not self.known(n.id, scopes):
                self.bad += 1
                self.c.violated('names', '%s:%s (line %d)' % (self.m.rel, where or 'top level', n.lineno), 'nothing defines the name %s' % n.id)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return self.imports(n, scopes, where)
        exprs, blocks = statements(n)
        for x in exprs:
            self.visit(x, scopes, where)
        for b in blocks:
            self.body(b, scopes, where)

    def imports(self, n, scopes, where):
        for a in n.names:
            self.n += 1
            if isinstance(n, ast.Import):
                ok = not a.name.startswith('scaks') or self.scope.thing(a.name) is not None
                what = a.name
            else:
                base = self.scope.base(self.m, n)
                what = base if a.name == '*' else base + '.' + a.name
                ok = self.scope.thing(what) is not None
            if not ok:
                self.bad += 1
                self.c.violated('names', '%s:%s (line %d)' % (self.m.rel, where or 'top level', n.lineno), 'nothing defines %s, which is imported' % what)

    def known(self, name, scopes):
        if any(name in s or '*' in s for s, _ in scopes):
            return True
        if name in self.top or name in vars(builtins) or name in ('__file__', '__name__', '__doc__', '__path__', '__package__', '__class__', '__qualname__', '__module__'):
            return not (name in self.top and self.top[name] is None)
        # names declared global in a function
        return self.m.name in self.scope.opened or name in self.globals()

    def globals(self):
        if not hasattr(self, 'globs'):
            self.globs = set()
            for f in ast.walk(self.m.tree):
                if isinstance(f, ast.Global):
                    self.globs.update(f.names)
        return self.globs


# ------------------------------------------------------------------ attributes and calls
def operands(n):
    """expressions whose value must support an operation no function has"""
    if isinstance(n, ast.BinOp):
        text = isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)
        return [n.left] if text else [n.left, n.right]
    if isinstance(n, ast.UnaryOp) and not isinstance(n.op, ast.Not):
        return [n.operand]
    if isinstance(n, ast.Compare):
        return [x for x in [n.left] + n.comparators] if not all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops) else \
            [y for o, y in zip(n.ops, n.comparators) if isinstance(o, (ast.In, ast.NotIn))]
    if isinstance(n, ast.AugAssign):
        return [n.value]
    if isinstance(n, (ast.For, ast.comprehension)):
        return [n.iter]
    if isinstance(n, ast.Subscript):
        return [n.value]
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return [g.iter for g in n.generators]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'sum', 'list', 'tuple', 'sorted', 'float', 'int', 'abs', 'dict', 'set', 'zip', 'enumerate', 'range', 'min', 'max'):
        return [x for x in n.args]
    return []


class Uses(object):
    def __init__(self, c, inf):
        self.c, self.inf, self.repo = c, inf, c.repo
        self.nattr = self.ncall = self.noper = 0
        self.ext = {}

    def prepare(self, mods):
        """attributes stored through something else than self, attributes set by name"""
        self.foreign, self.mangled, self.open = set(), set(), set()
        self.strangers, self.methods, self.stored, self.attrstores = {}, {}, set(), set()
        self.vocabulary = set(external()['all'])
        self.classnames = set()
        for m in self.repo.modules.values():
            self.vocabulary |= set(m.functions) | set(m.classes)
            for k in m.classes.values():
                self.classnames.add(k.name)
                self.vocabulary |= set(k.methods) | set(k.attrs)
                for x in k.methods.values():
                    self.methods.setdefault(x.node.name, []).append(x)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    self.vocabulary.add(n.attr)
                    self.stored.add(n.attr)
                    self.attrstores.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.vocabulary.add(n.id)
                    self.stored.add(n.id)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    # set or asked for by name
                    self.vocabulary.add(n.value)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.vocabulary.add(n.name)
        self.open_private = False
        for m in mods:
            for f in self.functions(m):
                me = f.node.args.args[0].arg if f.cls is not None and f.node.args.args and 'staticmethod' not in f.decorators else None
                loops = {}
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.List, ast.Tuple)):
                        loops[n.target.id] = [x.value for x in n.iter.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                        loops.setdefault('=' + n.targets[0].id, n.value)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == me):
                        self.foreign.add(n.attr)
                    if isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and len(n.args) == 3:
                        self.by_name(n.args[0], n.args[1], f, me, loops)
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__':
                        self.by_name(n.value.value, n.slice, f, me, loops)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault' and dotted(n.func.value) and \
                            dotted(n.func.value).endswith('__dict__') and n.args and isinstance(n.args[0], ast.Constant):
                        self.foreign.add(n.args[0].value)

    def by_name(self, target, key, f, me, loops):
        if isinstance(key, ast.Name) and '=' + key.id in loops:
            key = loops['=' + key.id]
        keys = None
        mangled = False
        if isinstance(key, ast.Call) and dotted(key.func) and dotted(key.func).split('.')[-1] == 'mangled_name' and len(key.args) == 2:
            mangled, key = True, key.args[1]
        if isinstance(key, ast.Constant):
            keys = [key.value]
        elif isinstance(key, ast.Name) and key.id in loops:
            keys = loops[key.id]
        if keys is not None:
            (self.mangled if mangled else self.foreign).update(keys)
        elif f.module.rel == 'scaks/descriptors/descriptors.py' or f.module.rel == 'scaks/descriptors/component_descriptors.py' or f.qual == 'KineticModel._load':
            pass    # declared parameters: the names in the class bodies
        elif isinstance(target, ast.Name) and target.id == me:
            self.open.add(f.cls)
        else:
            self.open_private = True

    def functions(self, m):
        out = list(m.functions.values())
        for k in m.classes.values():
            out += list(k.methods.values())
        return out

    # -- what a class defines
    def family(self, i):
        out = []
        for k in self.inf.classes(i):
            for b in self.inf.mro(k):
                if b not in out:
                    out.append(b)
        return out

    def opened(self, k):
        """a class that can have attributes this analysis does not see"""
        if k in self.open or any(x in self.open for x in self.inf.mro(k)):
            return True
        for x in self.inf.mro(k):
            if '__getattr__' in x.methods or '__getattribute__' in x.methods:
                return True
            if x.node.keywords or x.node.decorator_list:
                return True
            for b in x.node.bases:
                d = dotted(b)
                t = self.inf.scope.lookup(x.module, d) if d else None
                if isinstance(t, Class):
                    continue
                if isinstance(t, tuple) and t[0] == 'ext' and t[1].startswith('builtins.') and hasattr(builtins, t[1][9:]):
                    continue
                return True
        return False

    def defines(self, k, name):
        """the class (without its bases) defines the attribute"""
        if name in k.methods or name in k.attrs or name + '@setter' in k.methods:
            return True
        for s in k.node.body:
            for x in ([s] if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else []):
                for n in ast.walk(x):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                        return True
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                        return True
            if isinstance(s, ast.ClassDef) and s.name == name:
                return True
        for m in k.methods.values():
            a = m.node.args.posonlyargs + m.node.args.args
            if a and any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == a[0].arg
                         for n in ast.walk(m.node)):
                return True
        for b in k.node.bases:
            d = dotted(b)
            t = self.inf.scope.lookup(k.module, d) if d else None
            if isinstance(t, tuple) and t[0] == 'ext' and t[1].startswith('builtins.') and hasattr(getattr(builtins, t[1][9:], None), name):
                return True
        return hasattr(object, name) or name in ('__dict__', '__name__', '__module__')

    def has(self, i, name, f):
        """does something of this type have the attribute"""
        if isinstance(i, Inst):
            if name.startswith('__') and not name.endswith('__'):
                k = f.cls
                if k is None:
                    return True
                if name[2:] in self.mangled or self.open_private or k in self.open or name in self.foreign:
                    return True
                if name[2:] in set(a for x in self.inf.mro(k) for a in x.attrs):
                    return True
                return self.defines(k, name)
            fam = self.family(i)
            if any(self.opened(k) for k in fam):
                return True
            if any(self.defines(k, name) for k in fam):
                return True
            # a mangled name written out
            for k in fam:
                if name.startswith('_%s__' % k.name):
                    return True
            return name in self.foreign
        if isinstance(i, Class):
            return self.opened(i) or any(self.defines(k, name) for k in self.inf.mro(i)) or hasattr(type, name) or name in self.foreign
        if isinstance(i, Module):
            return self.inf.scope.lookup(i, name) is not None
        if isinstance(i, Py):
            return i.name not in PY or hasattr(PY[i.name], name)
        if isinstance(i, tuple) and i[0] == 'ext':
            return self.has_ext(i[1], name)
        return True

    def has_ext(self, d, name):
        if d.startswith('builtins.'):
            d = d[9:]
            x = getattr(builtins, d.split('.')[0], None)
            rest = d.split('.')[1:]
        else:
            known = external()['modules']
            if d in known:
                return name in known[d] or d + '.' + name in known or not known_module(d)
            root = d.split('.')[0]
            if root not in IMPORTABLE:
                return True
            parts = d.split('.')
            x, rest = self.load(parts)
        if x is None:
            return True
        for p in rest:
            if not hasattr(x, p):
                return True     # reported where it is read
            x = getattr(x, p)
        if not isinstance(x, (type, type(ast))):
            return True
        if hasattr(x, name):
            return True
        if isinstance(x, type(ast)):
            try:
                importlib.import_module(x.__name__ + '.' + name)
                return True
            except Exception:
                return hasattr(x, '__getattr__')
        return False

    def load(self, parts):
        key = tuple(parts)
        if key not in self.ext:
            r = (None, [])
            for n in range(len(parts), 0, -1):
                try:
                    r = (importlib.import_module('.'.join(parts[:n])), parts[n:])
                    break
                except Exception:
                    continue
            self.ext[key] = r
        return self.ext[key]

    # -- the walk
    def run(self, m):
        na, nc, bad = self.nattr, self.ncall, len([r for r in self.c.results if r[0] == 'VIOLATED'])
        for f in self.functions(m):
            self.function(f)
        if len([r for r in self.c.results if r[0] == 'VIOLATED']) == bad:
            if self.nattr > na:
                self.c.hold('attributes', m.rel, '%d reads' % (self.nattr - na))
            if self.ncall > nc:
                self.c.hold('calls', m.rel, '%d calls' % (self.ncall - nc))
        self.c.count('attribute_reads', self.nattr - na)
        self.c.count('calls_bound', self.ncall - nc)

    def function(self, f):
        env = self.inf.env(f)
        self.visit(f.node.body, f, env)
        for d in f.node.args.defaults:
            self.visit(d, f, {})

    def visit(self, n, f, env):
        if isinstance(n, list):
            for x in reachable(n):
                self.visit(x, f, env)
            return
        if isinstance(n, ast.If) and dotted(n.test) == 'PY2':
            self.visit(n.orelse, f, env)
            return
        if isinstance(n, ast.If) and any(isinstance(x, ast.Call) and dotted(x.func) in ('hasattr', 'callable') for x in ast.walk(n.test)):
            # what may be missing is asked for
            return
        if isinstance(n, ast.Try):
            caught = set(dotted(x) for h in n.handlers for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts) if h.type is not None)
            if caught & {'AttributeError', 'Exception', 'TypeError'} or any(h.type is None for h in n.handlers):
                if caught == {'AttributeError'}:
                    # what is tried may be missing, but must be possible
                    for x in ast.walk(ast.Module(n.body, [])):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and dotted(x.value) == 'self':
                            t = self.inf.type(x.value, f, env)
                            if t and not any(self.has(i, x.attr, f) for i in t):
                                self.c.violated('attributes', self.at(f, x), 'nothing ever defines the attribute %s of %s, which is tried' % (x.attr, self.show(x.value, t)))
                for h in n.handlers:
                    self.visit(h.body, f, env)
                self.visit(n.finalbody, f, env)
                return
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            a = n.args
            env = dict(env)
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                env[x.arg] = None
            if isinstance(n, ast.FunctionDef):
                b = {}
                self.inf.collect(n.body, b)
                for k in b:
                    env[k] = None
            self.visit(n.body, f, env)
            return
        if isinstance(n, ast.ClassDef):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            env = dict(env)
            for g in n.generators:
                self.visit(g.iter, f, env)
                b = {}
                self.inf.target(g.target, ('elem', g.iter), b)
                for k in b:
                    env[k] = self.inf.bound(b[k][0], f, env)
                self.visit(g.ifs, f, env)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(x, f, env)
            return
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            t = self.inf.type(n.value, f, env)
            if isinstance(n.value, ast.Call) and dotted(n.value.func) == 'super':
                self.above(n, f, env)
            if not t and isinstance(n.value, ast.expr):
                self.unknown(n, f)
            if t:
                self.nattr += 1
                if not any(self.has(i, n.attr, f) for i in t):
                    self.c.violated('attributes', self.at(f, n), 'nothing defines the attribute %s of %s' % (n.attr, self.show(n.value, t)))
        if isinstance(n, ast.Call):
            self.call(n, f, env)
        for x in operands(n):
            m = self.uncalled(x, f, env)
            if m is not None:
                self.c.violated('operands', self.at(f, x), '%s is the method %s itself, not its result, and used as an operand' % (ast.unparse(x), m.qual))
        exprs, blocks = statements(n)
        for x in exprs:
            self.visit(x, f, env)
        for b in blocks:
            self.visit(b, f, env)

    def uncalled(self, e, f, env):
        """the method that an attribute denotes"""
        if not isinstance(e, ast.Attribute):
            return None
        t = self.inf.type(e.value, f, env)
        if t:
            ms = [self.inf.method(x.cls, e.attr) if isinstance(x, Inst) else None for x in t]
            if not all(ms) or e.attr in self.attrstores:
                return None
        else:
            if e.attr in external()['all'] or e.attr in self.stored or any(e.attr in k.attrs for m in self.repo.modules.values() for k in m.classes.values()):
                return None
            ms = self.methods.get(e.attr)
        if not ms or any(d.split('.')[-1] not in ('staticmethod', 'classmethod', 'Memoized', 'master_only', 'return_deepcopy') for m in ms for d in m.decorators):
            return None
        self.noper += 1
        return ms[0]

    def unknown(self, n, f):
        """an attribute of something of unknown type that nothing in the package or in its libraries has"""
        if n.attr in self.vocabulary or self.strange(f.module):
            return
        if n.attr.startswith('_') and any(n.attr.startswith('_%s__' % k) for k in self.classnames):
            return
        self.c.violated('attributes', self.at(f, n), 'nothing in the package or the libraries it uses has an attribute %s, which is read from %s' % (n.attr, ast.unparse(n.value)))

    def strange(self, m):
        """the module works with objects of libraries that are not known here"""
        if m.rel not in self.strangers:
            self.strangers[m.rel] = absent(self.repo, m)
        return self.strangers[m.rel] is not None

    def named(self, n):
        """the methods a call on something of unknown type can reach, by the name"""
        fn = n.func
        if not isinstance(fn, ast.Attribute) or fn.attr not in self.methods or fn.attr in external()['all'] or fn.attr in self.stored:
            return None
        if isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super':
            return None
        out = []
        for x in self.methods[fn.attr]:
            d = [q.split('.')[-1] for q in x.decorators]
            if not d:
                out.append(('bound', x))
            elif d == ['staticmethod']:
                out.append(('static', x))
            elif d == ['Memoized']:
                out.append(('memo', x))
            else:
                return None
        return out

    def above(self, n, f, env):
        """super(K, self).name"""
        k = f.cls
        if n.value.args:
            t = self.inf.type(n.value.args[0], f, env)
            k = next(iter(t)) if t and len(t) == 1 else None
        if not isinstance(k, Class):
            return
        self.nattr += 1
        up = self.inf.mro(k)[1:]
        # the next class of a subclass with several bases can be anything
        if self.opened(k) or any(self.defines(x, n.attr) for x in up) or hasattr(object, n.attr):
            return
        if any(self.defines(x, n.attr) for y in self.inf.subclasses(k) for x in self.inf.mro(y) if x is not k and k not in self.inf.mro(x)):
            return
        self.c.violated('attributes', self.at(f, n), 'no class above %s defines %s' % (k.name, n.attr))

    def at(self, f, n):
        return '%s:%s (line %d)' % (f.module.rel, f.qual, n.lineno)

    def show(self, e, t):
        return '%s (%s)' % (ast.unparse(e), ', '.join(sorted(x.name if isinstance(x, (Class, Module)) else repr(x) if not isinstance(x, tuple) else x[1] if isinstance(x[1], str) else x[1].name for x in t)))

    def call(self, n, f, env):
        cs = self.inf.callees(n, f, env)
        if not cs:
            cs = self.named(n)
        if not cs:
            return
        why = []
        for x in cs:
            r = self.binds(x[0], x[1], n)
            if r is None:
                return
            why.append(r)
        self.ncall += 1
        if all(why):
            self.c.violated('calls', self.at(f, n), 'the call %s does not fit %s: %s' % (ast.unparse(n)[:80], cs[0][1].qual if isinstance(cs[0][1], Func) else cs[0][1].name, why[0]))

    def binds(self, kind, x, n):
        """'' when the arguments fit, a reason when not, None when not known"""
        skip = 0
        if kind == 'class':
            m = self.inf.method(x, '__init__')
            if m is None or '__new__' in [k for c in self.inf.mro(x) for k in c.methods]:
                if self.opened(x) or any(dotted(b) != 'object' and not isinstance(self.inf.scope.lookup(k.module, dotted(b)), Class) for k in self.inf.mro(x) for b in k.node.bases):
                    return None
                return '' if not n.args and not n.keywords else 'it takes no arguments'
            x, skip = m, 1
        elif kind == 'bound':
            skip = 1
        elif kind == 'memo':
            if any(not isinstance(a, ast.Starred) for a in n.args):
                return 'a memoised query takes keyword arguments only'
            skip = 1
        elif kind in ('func', 'static'):
            pass
        else:
            return None
        a = x.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        if skip and not params and not a.vararg:
            return 'it takes no arguments, not even the instance'
        params = params[skip:] if params else params
        star = any(isinstance(p, ast.Starred) for p in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        npos = len([p for p in n.args if not isinstance(p, ast.Starred)])
        if npos > len(params) and not a.vararg:
            return 'it takes %d positional arguments, %d are given' % (len(params), npos)
        given = set(params[:npos])
        kwonly = [p.arg for p in a.kwonlyargs]
        for k in n.keywords:
            if k.arg is None:
                continue
            if k.arg in given:
                return 'two values for %s' % k.arg
            if k.arg not in params + kwonly and not a.kwarg:
                return 'it has no parameter %s' % k.arg
            given.add(k.arg)
        if star or dstar:
            return ''
        nd = len(a.defaults)
        allp = [p.arg for p in a.posonlyargs + a.args]
        required = set(allp[skip:len(allp) - nd] if nd else allp[skip:])
        required |= set(p for p, d in zip(kwonly, a.kw_defaults) if d is None)
        missing = [p for p in params + kwonly if p in required and p not in given]
        return 'no value for %s' % ', '.join(missing) if missing else ''
