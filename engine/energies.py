"""Which energies a call is evaluated with: the ones supplied or the model's own.

Every function with a parameter for relative energies (found by name, by use and by what it is passed on to) is followed twice, flow-sensitively:
with energies supplied, and without.  Values are sets of
  G  the energies supplied (or made from them)       N  None
  M  the energies of the model                       O  anything else
  R  a quantity computed with energies (a rate constant, a rate, a residual, a derivative)
  ('D', ((key, value), ...))  a dictionary of known keys    ('T', (value, ...))  a tuple or list
  ('F', function)  a function that still takes energies
Bodies of nested functions are followed with every value their free names ever have (they run later)."""
import ast

from .infer import Inst
from .names import dotted
from .repo import Func

KEYS = ('Gaf', 'Gar')
NAMES = ('relative_energies', '_relative_energies')
G, M, N, O, R = 'G', 'M', 'N', 'O', 'R'
NOTHING = frozenset([O])
LOGS = ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log')
HARMLESS = ('len', 'isinstance', 'bool', 'str', 'repr', 'print', 'type', 'id', 'hasattr', 'callable', 'format')
SHAPES = ('list', 'tuple', 'sorted', 'reversed', 'zip', 'enumerate', 'map', 'filter', 'array', 'asarray', 'float', 'mpf', '_mpf', 'OrderedDict', 'dict', 'set', 'frozenset', 'iter', 'next')
COPIES = ('copy.deepcopy', 'copy.copy', 'deepcopy', 'copy', 'dict', 'OrderedDict', 'collections.OrderedDict')
QUANTITIES = ('get_rate_constants', 'get_rates', 'get_net_rates', 'get_tof', 'get_rxn_rates_TST', 'get_rxn_rates_CT', 'steady_state_function', 'analytical_jacobian')
GUESSES = ('hybrid_method',)        # registered by the user, proposes a starting point from the model alone


ANY = (('*', NOTHING),)      # other keywords may be given


def may(d, key):
    return ANY[0] in d[1] and key not in dict(d[1]) and key != 'relative_energies'


def params(node):
    a = node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


class Energies(object):
    def __init__(self, graph):
        self.g, self.inf = graph, graph.inf
        self.envs = {}
        self.memo = {}
        self.kept = {}          # attribute -> where what energies gave is stored
        self.sites = 0
        self.energy = {}        # function node -> names of its parameters for energies
        self.funcs = {f.node: f for f in graph.functions()}
        self.discover()

    # ------------------------------------------------------------ which parameters are energies
    def discover(self):
        for f in self.g.functions():
            for n in ast.walk(f.node):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    ps = params(n)
                    s = set(p for p in ps if p == 'relative_energies')
                    for x in ast.walk(n):
                        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in ps and isinstance(x.slice, ast.Constant) and x.slice.value in KEYS:
                            s.add(x.value.id)
                    self.energy[n] = s
        while True:
            more = False
            for f in self.g.functions():
                inner = {}
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                        for x in ast.walk(n):
                            inner[x] = n        # the innermost one
                for n in ast.walk(f.node):
                    node = inner.get(n)
                    ps = set(params(node)) - self.energy[node] - {'self', 'cls'} if node is not None else ()
                    if not ps:
                        continue
                    if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id in ps for a in list(n.args) + [k.value for k in n.keywords]):
                        for h in self.typed(n, f) or ():
                            got = self.bind(n, h, lambda e: e)
                            for p in self.energy[h.node]:
                                a = got.get(p)
                                if isinstance(a, ast.Name) and a.id in ps:
                                    self.energy[node].add(a.id)
                                    more = True
            if not more:
                return

    def takes(self, f):
        """names of the parameters of f for energies; '**' when it takes them as a keyword argument of any name"""
        s = set(self.energy.get(f.node, ()))
        if not s and f.node.args.kwarg is not None:
            k = f.node.args.kwarg.arg
            for n in ast.walk(f.node):
                if isinstance(n, ast.Constant) and n.value == 'relative_energies':
                    return {'**' + k}
        return s

    def functions(self):
        wrappers = set(d.split('.')[-1] for f in self.g.functions() for d in f.decorators)
        return [f for f in self.g.functions() if self.takes(f) and not (f.cls is not None and f.cls.name in wrappers)]

    def all(self):
        """[(function, run given energies, run without)], attributes that keep results known beforehand"""
        fs = self.functions()
        while True:
            n = len(self.kept)
            out = [(f, self.run(f, self.takes(f)), self.run(f, None)) for f in fs]
            if len(self.kept) == n:
                return out
            self.memo = {}

    # ------------------------------------------------------------ calls
    def env_of(self, f):
        if f.node not in self.envs:
            self.envs[f.node] = {n: env for n, env in self.g.nodes(f)}
        return self.envs[f.node]

    def typed(self, n, f):
        """functions a call reaches when what is called is known, else None"""
        env = self.env_of(f).get(n)
        if env is None:
            return None
        cs = self.inf.callees(n, f, env)
        return self.g.targets(n, f, env) if cs is not None else None

    def bind(self, n, h, ev):
        """parameter -> value of its argument (None: not given, '?': not known)"""
        a = h.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if h.cls is not None and 'staticmethod' not in h.decorators and ps and ps[0] in ('self', 'cls'):
            ps = ps[1:]
        out = {}
        pos = 0
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = ev(x.value)
                t = [y for y in v if isinstance(y, tuple) and y[0] == 'T'] if isinstance(v, frozenset) else []
                if len(t) == 1:
                    for y in t[0][1]:
                        if pos < len(ps):
                            out[ps[pos]] = y
                        pos += 1
                else:
                    for p in ps[pos:]:
                        out[p] = '?'
                    pos = len(ps)
                continue
            v = ev(x)
            if pos < len(ps):
                out[ps[pos]] = v
            pos += 1
        for k in n.keywords:
            v = ev(k.value)
            if k.arg is not None:
                out[k.arg] = v
                continue
            d = [y for y in v if isinstance(y, tuple) and y[0] == 'D'] if isinstance(v, frozenset) else []
            if d:
                names = set(x for y in d for x, _ in y[1])
                for name in names:
                    vs = [dict(y[1]).get(name) for y in d]
                    out[name] = frozenset().union(*[x if x is not None else frozenset([N]) for x in vs])
            else:
                for p in ps:
                    out.setdefault(p, '?')
        return out

    # ------------------------------------------------------------ summaries
    def run(self, f, given):
        """events of f: given is the set of parameters that hold energies supplied (None: energies are not supplied)"""
        key = (f.node, frozenset(given) if given is not None else None)
        if key not in self.memo:
            self.memo[key] = Run(self, f, given)        # guards against recursion
            self.memo[key].go()
        return self.memo[key]

    def reads(self, f):
        """does a call of f, without energies, depend on those of the model"""
        r = self.run(f, None)
        return r.model


def flat(v):
    for x in v:
        if isinstance(x, tuple) and x[0] == 'D':
            for _, y in x[1]:
                yield from flat(y)
        elif isinstance(x, tuple) and x[0] == 'T':
            for y in x[1]:
                yield from flat(y)
        else:
            yield x


class Run(object):
    def __init__(self, E, f, given):
        self.E, self.f, self.given = E, f, given
        self.bad, self.open = [], []
        self.model = False
        self.used = False
        self.ret = frozenset()
        self.ever = {}
        self.nested = {}
        self.done = False
        self.sites = 0
        self.tests, self.guarded = [], set()
        self.unsupplied, self.loose = [], False
        self.node_env = E.env_of(f)

    def go(self):
        env = {}
        for p in params(self.f.node):
            env[p] = NOTHING
        a = self.f.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = NOTHING
        for p in self.E.takes(self.f) if self.given is not None or self.E.takes(self.f) else ():
            v = frozenset([G if self.given is not None and (p in self.given or p[:2] == '**') else N])
            if p[:2] == '**':
                env[p[2:]] = frozenset([('D', ANY + ((('relative_energies', v),) if self.given is not None else ()))])
            else:
                env[p] = v
        for p in self.given or ():
            if p[:2] != '**':
                env[p] = frozenset([G])
        for k, v in env.items():
            self.note(k, v)
        self.block(self.f.node.body, env)
        while any(self.nested[n] is None for n in self.nested):
            for n in list(self.nested):
                self.inner(n)
        for e, why in self.unsupplied:
            self.say(e, why, sure=not self.loose)
        self.done = True

    def note(self, k, v):
        self.ever[k] = self.ever.get(k, frozenset()) | v

    # -- events
    def say(self, n, why, sure=True):
        e = (getattr(n, 'lineno', self.f.node.lineno), why)
        l = self.bad if sure else self.open
        if e not in l:
            l.append(e)

    def model_used(self, n, what):
        self.model = True
        if self.given is not None:
            self.say(n, what)

    def use(self, v, n):
        if G in v:
            self.used = True
        if M in v:
            self.model_used(n, 'the energies of the model are used where energies are supplied: %s' % ast.unparse(n)[:80])

    # -- nested functions
    def inner(self, n):
        """follow the body of a nested function; its result"""
        if self.nested.get(n) is not None:
            return self.nested[n]
        self.nested[n] = NOTHING
        env = dict(self.ever)
        a = n.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            env[p.arg] = NOTHING
        allp = a.posonlyargs + a.args
        for p, d in list(zip(allp[len(allp) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            env[p.arg] = self.ev(d, dict(self.ever)) - {N} or NOTHING
        for p in self.E.energy.get(n, ()):
            env[p] = frozenset([G if self.given is not None else N])
        old, self.ret = self.ret, frozenset()
        if isinstance(n, ast.Lambda):
            self.ret = self.ev(n.body, env)
        else:
            b = {}
            self.block(n.body, env)
        r, self.ret = self.ret or NOTHING, old
        self.nested[n] = r
        return r

    # -- statements
    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def join(self, *es):
        es = [e for e in es if e is not None]
        if not es:
            return None
        out = dict(es[0])
        for e in es[1:]:
            for k, v in e.items():
                out[k] = out.get(k, frozenset()) | v
        for k in list(out):
            if k in self.guarded and not all(k in e for e in es):
                del out[k]
        return out

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef,)):
            self.nested.setdefault(s, None)
            env = dict(env)
            env[s.name] = frozenset([('F', s)]) if self.E.energy.get(s) else frozenset([('L', s)])
            self.note(s.name, env[s.name])
            return env
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else frozenset([N])
            if G in set(flat(v)):
                self.used = True
            if M in v:
                self.use(v, s)
            self.ret = self.ret | v
            return None
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.ev(x, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return env      # joined with what follows the loop
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            env = dict(env)
            for t in s.targets:
                self.assign(t, v, env)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                env = dict(env)
                self.assign(s.target, self.ev(s.value, env), env)
            return env
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                return env
            self.ev(s.target.value, env)
            if isinstance(s.target, ast.Subscript):
                self.use(self.ev(s.target.value, env), s.target)
            return env
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return env
        if isinstance(s, ast.If):
            t = self.truth(s.test, env)
            self.tests.append(s.test)
            a = self.block(s.body, dict(env)) if t is not False else None
            b = self.block(s.orelse, dict(env)) if t is not True else None
            self.tests.pop()
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                it = self.ev(s.iter, env)
                self.use(it, s.iter)
                v = self.element(it)
            for _ in range(2):
                e = dict(env)
                if isinstance(s, ast.For):
                    self.assign(s.target, v, e)
                elif self.truth(s.test, e) is False:
                    break
                env = self.join(env, self.block(s.body, e))
            return self.block(s.orelse, env) if s.orelse else env
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(env))
            start = self.join(env, a)
            outs = [self.block(s.orelse, a) if a is not None and s.orelse else a]
            for h in s.handlers:
                e = dict(start)
                if h.name:
                    e[h.name] = NOTHING
                outs.append(self.block(h.body, e))
            env2 = self.join(*outs)
            if s.finalbody:
                if env2 is None:
                    self.block(s.finalbody, dict(start))
                    return None
                return self.block(s.finalbody, env2)
            return env2
        if isinstance(s, ast.With):
            env = dict(env)
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, NOTHING, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Delete):
            return env
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return env

    def element(self, v):
        out = frozenset(x for x in (G, M, R) if x in v)
        for x in v:
            if isinstance(x, tuple) and x[0] == 'T':
                for y in x[1]:
                    out |= y
            if isinstance(x, tuple) and x[0] == 'D' and any(G in y for _, y in x[1]):
                out |= frozenset([O])
        return out or NOTHING

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
            self.note(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            ts = [x for x in v if isinstance(x, tuple) and x[0] == 'T' and len(x[1]) == len(t.elts)]
            for i, x in enumerate(t.elts):
                w = frozenset().union(*[y[1][i] for y in ts]) if ts and len(ts) == len(v) else self.element(v)
                self.assign(x.value if isinstance(x, ast.Starred) else x, w, env)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            if isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Constant) and any(isinstance(x, tuple) and x[0] == 'D' for x in b):
                env[t.value.id] = frozenset(('D', tuple(sorted(dict(dict(x[1]), **{str(t.slice.value): v}).items(), key=lambda p: p[0]))) if isinstance(x, tuple) and x[0] == 'D' else x for x in b)
                self.note(t.value.id, env[t.value.id])
            elif M in b:
                self.use(b, t)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, env)
            if R in set(flat(v)):
                self.E.kept.setdefault(t.attr, '%s, line %d' % (self.f.qual, t.lineno))
            if isinstance(t.value, ast.Name):
                env['@' + ast.unparse(t)] = v
                if any(t.attr in (getattr(x, 'attr', None), getattr(x, 'value', None)) for s in self.tests for x in ast.walk(s)):
                    self.guarded.add('@' + ast.unparse(t))      # stored only when what is there already is not used

    # -- conditions
    def truth(self, e, env):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, env)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = []
            for x in e.values:
                t = self.truth(x, env)
                if isinstance(e.op, ast.And) and t is False or isinstance(e.op, ast.Or) and t is True:
                    return t
                ts.append(t)
            return None if None in ts else isinstance(e.op, ast.And)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            for x, y in ((a, b), (b, a)):
                if y == frozenset([N]):
                    r = True if x == frozenset([N]) else False if N not in x and O not in x else None
                    return r if r is None or isinstance(e.ops[0], (ast.Is, ast.Eq)) else not r
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.left, ast.Constant):
            v = self.ev(e.comparators[0], env)
            k = str(e.left.value)
            r = set((None if may(x, k) else k in dict(x[1])) if isinstance(x, tuple) and x[0] == 'D' else None for x in v)
            if len(r) == 1 and None not in r:
                return r.pop() is isinstance(e.ops[0], ast.In)
            return None
        if isinstance(e, ast.Constant):
            return bool(e.value)
        v = self.ev(e, env)
        if v == frozenset([N]):
            return False
        if v and v <= frozenset([G, M]):
            return True
        return None

    # -- expressions
    def ev(self, e, env):
        if e is None:
            return NOTHING
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        out = frozenset()
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                v = self.ev(x, env)
                if M in v and not isinstance(e, (ast.Compare, ast.JoinedStr, ast.FormattedValue)):
                    self.use(v, x)
                out |= v
        if isinstance(e, (ast.Compare, ast.JoinedStr, ast.FormattedValue)):
            return NOTHING
        return frozenset(x for x in (G, R) if x in set(flat(out))) or NOTHING

    def x_Constant(self, e, env):
        return frozenset([N]) if e.value is None else NOTHING

    def x_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        x = self.E.inf.scope.lookup(self.f.module, e.id)
        if isinstance(x, Func) and self.E.takes(x):
            return frozenset([('F', x)])
        return NOTHING

    def is_model(self, e):
        t = self.E.inf.type(e, self.f, self.node_env.get(e, {})) if e in self.node_env else None
        if not t:
            return True
        ks = [x.cls for x in t if isinstance(x, Inst)]
        return not ks or any(b.name in ('KineticModel',) for k in ks for b in self.E.inf.mro(k)) or any(self.E.inf.method(k, n) is not None for k in ks for n in NAMES)

    def x_Attribute(self, e, env):
        if e.attr in NAMES and isinstance(e.ctx, ast.Load) and self.is_model(e.value):
            self.ev(e.value, env)
            return frozenset([M])
        self.ev(e.value, env)
        if isinstance(e.ctx, ast.Load) and e.attr in self.E.kept:
            name = '@' + ast.unparse(e)
            if name in env:
                return env[name]
            self.say(e, '%s may hold what was computed with other energies (stored in %s)' % (ast.unparse(e), self.E.kept[e.attr]))
            return NOTHING
        if e in self.node_env and isinstance(e.ctx, ast.Load):
            t = self.E.inf.type(e.value, self.f, self.node_env[e])
            for x in t or ():
                if isinstance(x, Inst):
                    for k in self.E.inf.classes(x):
                        own = self.f.cls.methods.get(e.attr) if self.f.cls is not None and e.attr.startswith('__') and not e.attr.endswith('__') else None
                        h = own or self.E.inf.method(k, e.attr)
                        if h is None:
                            continue
                        if any(d in ('Property', 'property', 'Memoized') or d.endswith('property') for d in h.decorators) and 'Memoized' not in h.decorators:
                            if self.E.reads(h):
                                self.model_used(e, '%s is evaluated with the energies of the model' % ast.unparse(e)[:80])
                        elif self.E.takes(h):
                            return frozenset([('F', h)])
        return NOTHING

    def x_Subscript(self, e, env):
        v = self.ev(e.value, env)
        self.ev(e.slice, env)
        out = frozenset()
        for x in v:
            if isinstance(x, tuple) and x[0] == 'D' and isinstance(e.slice, ast.Constant):
                out |= dict(x[1]).get(str(e.slice.value), NOTHING)
            elif isinstance(x, tuple) and x[0] == 'T' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(x[1]) <= e.slice.value < len(x[1]):
                out |= x[1][e.slice.value]
        if out:
            return out
        self.use(v, e)
        return frozenset(x for x in (G, R) if x in v) or NOTHING

    def x_IfExp(self, e, env):
        t = self.truth(e.test, env)
        out = frozenset()
        if t is not False:
            out |= self.ev(e.body, env)
        if t is not True:
            out |= self.ev(e.orelse, env)
        return out

    def x_BoolOp(self, e, env):
        out = frozenset()
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            t = self.truth(x, env)
            last = i == len(e.values) - 1
            if isinstance(e.op, ast.Or):
                if t is True or last:
                    return out | v
                if t is None:
                    out |= v - {N}
            else:
                if t is False or last:
                    return out | v
                if t is None:
                    out |= v & {N, O}
        return out

    def x_Dict(self, e, env):
        d = {}
        known = True
        vs = frozenset()
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, env)
            vs |= v
            if k is None:
                ds = [y for y in v if isinstance(y, tuple) and y[0] == 'D']
                if len(ds) == 1 and len(v) == 1:
                    d.update(dict(ds[0][1]))
                else:
                    known = False
            elif isinstance(k, ast.Constant):
                d[str(k.value)] = v
            else:
                known = False
        if not known or any(k in KEYS for k in d):
            for v in (vs,):
                self.use(v - {G}, e)
            return frozenset(x for x in (G, R) if x in set(flat(vs))) or NOTHING
        return frozenset([('D', tuple(sorted(d.items(), key=lambda p: p[0])))])

    def x_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            vs = frozenset().union(*[self.ev(x, env) for x in e.elts])
            return frozenset(x for x in (G, R) if x in set(flat(vs))) or NOTHING
        return frozenset([('T', tuple(self.ev(x, env) for x in e.elts))])

    x_List = x_Tuple

    def comp(self, e, env, elts):
        env = dict(env)
        src = frozenset()
        for g in e.generators:
            v = self.ev(g.iter, env)
            self.use(v, g.iter)
            src |= v
            self.assign(g.target, self.element(v), env)
            for x in g.ifs:
                self.ev(x, env)
        out = frozenset()
        for x in elts:
            v = self.ev(x, env)
            if M in v:
                self.use(v, x)
            out |= v
        return frozenset(x for x in (G, R) if x in set(flat(out))) or NOTHING

    def x_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])

    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e, env):
        return self.comp(e, env, [e.key, e.value])

    def x_Lambda(self, e, env):
        self.nested.setdefault(e, None)
        return frozenset([('F', e)]) if self.E.energy.get(e) else frozenset([('L', e)])

    def x_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        self.note(e.target.id, v)
        return v

    def x_Starred(self, e, env):
        return self.ev(e.value, env)

    # -- calls
    def x_Call(self, e, env):
        fn = e.func
        d = dotted(fn) or ''
        last = fn.attr if isinstance(fn, ast.Attribute) else d
        args = list(e.args) + [k.value for k in e.keywords]
        if d in HARMLESS or isinstance(fn, ast.Attribute) and (fn.attr in LOGS or fn.attr == 'format'):
            for a in args:
                self.ev(a, env)
            if isinstance(fn, ast.Attribute):
                self.ev(fn.value, env)
            return NOTHING
        recv = None
        if d == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            x = ast.copy_location(ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Load()), e)
            if x.attr in NAMES or x.attr in self.E.kept:
                for a in e.args[2:]:
                    self.ev(a, env)
                return self.x_Attribute(x, env)
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, env)
            ds = [x for x in recv if isinstance(x, tuple) and x[0] == 'D']
            if fn.attr in ('pop', 'get', 'setdefault') and ds and args and isinstance(args[0], ast.Constant):
                key = str(args[0].value)
                default = self.ev(args[1], env) if len(args) > 1 else frozenset([N])
                out = frozenset()
                for x in ds:
                    out |= dict(x[1]).get(key, default | NOTHING if may(x, key) else default)
                if fn.attr == 'pop' and isinstance(fn.value, ast.Name):
                    env[fn.value.id] = frozenset(('D', tuple(p for p in x[1] if p[0] != key)) if isinstance(x, tuple) and x[0] == 'D' else x for x in recv)
                return out
            if fn.attr == 'update' and ds and isinstance(fn.value, ast.Name):
                new = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
                for a in e.args:
                    for x in self.ev(a, env):
                        if isinstance(x, tuple) and x[0] == 'D':
                            new.update(dict(x[1]))
                env[fn.value.id] = frozenset(('D', tuple(sorted(dict(dict(x[1]), **new).items(), key=lambda p: p[0]))) if isinstance(x, tuple) and x[0] == 'D' else x for x in recv)
                self.note(fn.value.id, env[fn.value.id])
                return NOTHING
            if fn.attr in ('append', 'extend', 'insert', 'add') and isinstance(fn.value, ast.Name) and fn.value.id in env:
                got = frozenset(x for a in args for x in flat(self.ev(a, env)) if x in (G, R))
                if M in frozenset().union(*[self.ev(a, env) for a in args]):
                    self.use(frozenset([M]), e)
                if got:
                    env[fn.value.id] = frozenset(x for x in recv if not (isinstance(x, tuple) and x[0] == 'T')) | got
                    self.note(fn.value.id, env[fn.value.id])
                return frozenset([N])
            if set(recv) & {G, M} and fn.attr in ('items', 'values', 'keys', 'copy', 'get'):
                if fn.attr == 'get':
                    self.use(recv, e)
                for a in args:
                    self.ev(a, env)
                return frozenset(x for x in (G, M) if x in recv)
        if d in COPIES and len(e.args) <= 1:
            v = self.ev(e.args[0], env) if e.args else frozenset()
            kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
            if set(v) & {G, M}:
                for x in kw.values():
                    if M in x:
                        self.use(x, e)
                return frozenset(x for x in v if x in (G, M, N))
            ds = [x for x in v if isinstance(x, tuple) and x[0] == 'D']
            if (not e.args or ds) and None not in kw:
                if any(k in KEYS for k in kw):
                    vs = frozenset().union(*kw.values())
                    self.use(vs - {G}, e)
                    return frozenset(x for x in (G, R) if x in set(flat(vs))) or NOTHING
                base = dict(ds[0][1]) if ds else {}
                base.update(kw)
                return frozenset([('D', tuple(sorted(base.items(), key=lambda p: p[0])))])
            if None not in kw:
                return v or NOTHING
        values = {}

        def ev(a):
            if a not in values:
                values[a] = self.ev(a, env)
            return values[a]
        for a in args:
            ev(a)
        got = frozenset().union(*[values[a] for a in args]) if args else frozenset()
        # what is called
        cands, known = [], False
        fv = self.x_Name(fn, env) if isinstance(fn, ast.Name) else self.ev(fn, env) if not isinstance(fn, ast.Attribute) else frozenset()
        for x in fv:
            if isinstance(x, tuple) and x[0] in ('F', 'L'):
                known = True
                cands.append(x[1])
        if not known and not (isinstance(fn, ast.Attribute) and fn.attr in GUESSES):
            hs = self.E.typed(e, self.f)
            if hs is None and e not in self.node_env:
                hs = None
            if hs is not None:
                known = True
                cands += hs
            else:
                named = [h for h in self.E.g.by_name.get(last, []) if (h.cls is not None) == isinstance(fn, ast.Attribute)]
                if named and all(self.E.takes(h) for h in named) or len(named) == 1 and '_' in last:
                    cands += named
        if isinstance(fn, ast.Attribute) and fn.attr in GUESSES:
            return NOTHING
        if last == 'partial' and e.args:
            return self.partial(e, env, values)
        out = frozenset()
        energies = False
        for h in cands:
            if not isinstance(h, Func):
                # a function of this one
                if isinstance(h, ast.Lambda) or isinstance(h, ast.FunctionDef):
                    ps = self.E.energy.get(h)
                    if ps:
                        energies = True
                        b = self.E.bind(e, Func(h, self.f.module, None), ev)
                        for p in ps:
                            self.supplied(e, p, b.get(p), self.default(h, p, env), 'a nested function')
                    out |= self.inner(h)
                continue
            ps = self.E.takes(h)
            if ps:
                energies = True
                b = self.E.bind(e, h, ev)
                for p in ps:
                    q = 'relative_energies' if p[:2] == '**' else p
                    self.supplied(e, q, b.get(q), self.default(h.node, q, {}), h.qual)
            r = None
            if ps or any(isinstance(v, frozenset) and G in v for v in values.values()):
                b = self.E.bind(e, h, ev)
                gs = {p for p, v in b.items() if isinstance(v, frozenset) and G in v and p in params(h.node)}
                if gs or ps:
                    r = self.E.run(h, (gs | (ps if self.given is not None else set())) if self.given is not None else None)
            elif self.E.reads(h):
                self.model_used(e, '%s is evaluated with the energies of the model' % ast.unparse(e)[:80])
            if r is not None and G in r.ret:
                out |= frozenset([G])
        if energies:
            self.used = self.used or G in set(flat(got))
            if last in QUANTITIES:
                out |= frozenset([R])
            return out or NOTHING
        for a in args:
            if M in values[a]:
                self.use(values[a], a)
        # functions that still need energies, handed over
        for a in args:
            for x in values[a]:
                if isinstance(x, tuple) and x[0] == 'F':
                    self.handed(e, a, x[1], got)
        if G in set(flat(got)):
            self.used = True
            if not known and isinstance(fn, ast.Attribute):
                self.loose = True
            if not known or not cands:
                out |= frozenset([G if last in SHAPES else R])
        if R in set(flat(got)) | set(recv or ()) and (not known or not cands):
            out |= frozenset([R])
        return out or NOTHING

    def default(self, node, p, env):
        a = node.args
        allp = a.posonlyargs + a.args
        for q, dflt in list(zip(allp[len(allp) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if q.arg == p and dflt is not None:
                return self.ev(dflt, env)
        return frozenset([N])

    def supplied(self, e, p, v, default, name):
        self.sites += 1
        v = default if v is None else v
        if v == '?':
            self.say(e, '%s: whether %s is passed is not known' % (ast.unparse(e)[:80], p), sure=False)
            return
        if M in v or N in v:
            self.model = True
        if self.given is None:
            return
        if M in v:
            self.say(e, '%s is evaluated with the energies of the model where energies are supplied: %s' % (name, ast.unparse(e)[:100]))
        elif N in v:
            self.say(e, '%s is evaluated without the energies supplied: %s' % (name, ast.unparse(e)[:100]))
        elif G in v:
            self.used = True
        else:
            self.say(e, '%s: where its energies come from is not known: %s' % (name, ast.unparse(e)[:100]), sure=False)

    def position(self, h):
        """places of the parameters for energies of a function handed over"""
        node = h.node if isinstance(h, Func) else h
        ps = [p.arg for p in node.args.posonlyargs + node.args.args]
        if isinstance(h, Func) and h.cls is not None and 'staticmethod' not in h.decorators:
            ps = ps[1:]
        en = self.E.takes(h) if isinstance(h, Func) else self.E.energy.get(h, ())
        return [ps.index(p) for p in en if p in ps]

    def handed(self, e, a, h, got):
        self.sites += 1
        if self.given is None:
            self.model = True
            return
        name = h.qual if isinstance(h, Func) else getattr(h, 'name', 'a function')
        if G not in set(flat(got)):
            self.unsupplied.append((e, '%s is handed over without the energies supplied: %s' % (name, ast.unparse(e)[:100])))
            return
        self.used = True
        ts = [x for x in got if isinstance(x, tuple) and x[0] == 'T' and G in set(flat(x[1] and frozenset().union(*x[1]) or ()))]
        if ts and all(not any(0 <= i - 1 < len(t[1]) and G in t[1][i - 1] for i in self.position(h)) for t in ts):
            self.say(e, '%s is handed over with the energies supplied in another place: %s' % (name, ast.unparse(e)[:100]), sure=False)

    def partial(self, e, env, values):
        f = values.get(e.args[0], NOTHING)
        for x in f:
            if isinstance(x, tuple) and x[0] == 'F':
                h = x[1]
                en = self.E.takes(h) if isinstance(h, Func) else self.E.energy.get(h, ())
                kw = {k.arg: values[k.value] for k in e.keywords}
                for p in en:
                    if p in kw:
                        self.supplied(e, p, kw[p], NOTHING, getattr(h, 'qual', 'a function'))
                        return NOTHING
                return f
        return NOTHING
