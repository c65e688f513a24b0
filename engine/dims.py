"""Physical dimensions, followed through assignments, containers, calls and nested functions (nothing is run).

Every expression has a quantity with exponents of base units, a plain number, a container of these, or nothing known.
Joules and electron volts are kept apart, so that the two forms of a constant cannot be confused, and a factor of a
thousand is kept as a unit of its own, so that kJ and J cannot be confused either."""
import ast
from fractions import Fraction


class Q(object):
    """a quantity: exponents of base units"""
    def __init__(self, d):
        self.d = {k: Fraction(v) for k, v in d.items() if v}

    def __eq__(self, o):
        return isinstance(o, Q) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __mul__(self, o):
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Q(r)

    def __pow__(self, n):
        return Q({k: v*n for k, v in self.d.items()})

    def __repr__(self):
        up = ' '.join(k if v == 1 else '%s^%s' % (k, v) for k, v in sorted(self.d.items()))
        return '[%s]' % (up or '1')


class Num(object):
    """a number written in the text; one that has been given a name may stand for a quantity of any kind"""
    def __init__(self, v=None, named=False):
        self.v, self.named = v, named

    def __repr__(self):
        return 'number'


class Mix(object):
    """one of several quantities, depending on the way taken"""
    def __init__(self, qs):
        self.qs = frozenset(qs)

    def __repr__(self):
        return ' or '.join(sorted(repr(q) for q in self.qs))


class Any_(object):
    def __repr__(self):
        return 'unknown'


class None_(object):
    pass


class Seq(object):
    def __init__(self, elem, n=None):
        self.elem, self.n = elem, n

    def __repr__(self):
        return 'sequence of %r' % (self.elem,)


class Tup(object):
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return 'tuple %r' % (self.items,)


class Map(object):
    def __init__(self, keys=None, elem=None):
        self.keys, self.elem = dict(keys or {}), elem


class Fn(object):
    def __init__(self, node, env, module, cls, name):
        self.node, self.env, self.module, self.cls, self.name = node, env, module, cls, name


class Alt(object):
    def __init__(self, fs):
        self.fs = fs


ANY, NONE = Any_(), None_()


def alts(v):
    return (v,) if isinstance(v, Q) else tuple(v.qs) if isinstance(v, Mix) else ()


def mix(qs):
    qs = set(qs)
    return ANY if not qs or len(qs) > 6 else qs.pop() if len(qs) == 1 else Mix(qs)


def fits(a, b):
    """every possibility of one has its equal in the other"""
    a, b = set(alts(a)), set(alts(b))
    return a == b if len(a) > 1 and len(b) > 1 else len(a | b) == 1


def unit(s):
    """'eV/K', 'kg m2 / s2 / K' """
    d = {}
    for i, part in enumerate(s.split('/')):
        for w in part.split():
            if w == '1':
                continue
            b = w.rstrip('0123456789')
            n = int(w[len(b):] or 1)*(1 if i == 0 else -1)
            if b == 'J':
                for k, e in (('kg', 1), ('m', 2), ('s', -2)):
                    d[k] = d.get(k, 0) + e*n
            elif b == 'Pa':
                for k, e in (('kg', 1), ('m', -1), ('s', -2)):
                    d[k] = d.get(k, 0) + e*n
            else:
                d[b] = d.get(b, 0) + n
    return Q(d)


ONE, EV, KELVIN, RATE = Q({}), unit('eV'), unit('K'), unit('1/s')
KJMOL = unit('J/mol/thousand')

# numbers that are constants of nature or conversions
KNOWN = [(1.380649e-23, unit('J/K')), (8.617333e-5, unit('eV/K')), (6.62607e-34, unit('J s')), (4.135667e-15, unit('eV s')), (101325.0, unit('Pa')),
         (1.66054e-27, unit('kg')), (0.01036427, unit('eV mol thousand/J')), (96.4853, unit('J/mol/thousand/eV')), (1.602177e-19, unit('J/eV')), (6.241509e18, unit('eV/J')),
         (298.15, unit('K')), (273.15, unit('K'))]

CONSTS = {'kB_J': unit('J/K'), 'kB_eV': unit('eV/K'), 'h_J': unit('J s'), 'h_eV': unit('eV s'), 'P0': unit('Pa'), 'amu': unit('kg'), '_kJmol2eV': unit('eV mol thousand/J'),
          'pi': ONE, 'rotation_temperatures': Map({}, Map({'sigma': ONE, 'theta': Seq(KELVIN)})), 'vibration_temperatures': Map({}, Seq(KELVIN)),
          'chem_elements': Map({}, Map({'mass': ONE})),
          'shomate_params': Map({}, Tup([unit('J/mol/K'), unit('J thousand/mol/K2'), unit('J thousand2/mol/K3'), unit('J thousand3/mol/K4'),
                                         unit('J K/mol/thousand2'), KJMOL, unit('J/mol/K'), KJMOL]))}
REDUCED = unit('K/thousand')            # thousands of kelvin, the argument of Shomate's logarithm

ENERGIES = Map({}, Seq(EV))
ATTRS = {'temperature': KELVIN, 'unitcell_area': unit('m2'), 'active_ratio': ONE, 'kB': unit('eV/K'), '_kB': unit('eV/K'), 'h': unit('eV s'), '_h': unit('eV s'),
         'relative_energies': ENERGIES, '_relative_energies': ENERGIES, 'absolute_energies': Map({}, EV), '_absolute_energies': Map({}, EV),
         '_p': Map({}, ONE), '_c': Map({}, ONE), '_kB_sym': unit('eV/K'), '_h_sym': unit('eV s'), '_T_sym': KELVIN, '_Ga_sym': Seq(EV), '_dG_sym': Seq(EV),
         '_p_sym': Seq(ONE), '_c_sym': Seq(ONE), '_ads_theta_sym': Seq(ONE), '_fsite_theta_sym': Seq(ONE), 'E': Num(2.718281828459045)}
KEYS = {'pressure': ONE, 'concentration': ONE, 'total': ONE, 'Gaf': Seq(EV), 'Gar': Seq(EV), 'dG': Seq(EV)}

# parameters (after self) and results
DECL = {'get_kTST': ([('Ga', EV), ('T', KELVIN)], RATE),
        'get_kCT': ([('Ea', EV), ('Auc', unit('m2')), ('act_ratio', ONE), ('m', unit('kg')), ('T', KELVIN), ('p', unit('Pa')), ('f', ONE)], RATE),
        'get_TST_barrier_from_CT': ([('kCT', RATE), ('T', KELVIN)], EV),
        'entropy_correction': ([('gas_name', ANY), ('m', unit('kg')), ('p', unit('Pa')), ('T', KELVIN)], EV),
        'shomate_correction': ([('gas_name', ANY), ('T', KELVIN)], EV),
        'get_rxn_rates_TST': ([('rxn_expression', ANY), ('relative_energies', ENERGIES), ('include_pressure', ANY)], Tup([RATE, RATE])),
        'get_rxn_rates_CT': ([('rxn_expression', ANY), ('relative_energies', ENERGIES), ('include_pressure', ANY)], Tup([RATE, RATE])),
        '_get_relative_energies': ([('rxn_expression', ANY), ('relative_energies', ENERGIES)], Tup([EV, EV, EV])),
        'stoichiometry': ([], ONE),
        'get_rate_constants': ([('relative_energies', ENERGIES), ('log', ANY)], Tup([Seq(RATE), Seq(RATE)])),
        'boltzmann_coverages': ([('include_empty_site', ANY)], Seq(ONE)),
        'get_rate_constant_syms': ([], Tup([Seq(RATE), Seq(RATE)])),
        '_extract_symbol': ([('sp_name', ANY), ('symbol_type', ANY)], ONE)}
PARAMS = {'relative_energies': ENERGIES}
# functions outside the table whose result is checked at every return
SAME = {'float', 'mpf', '_mpf', 'mpfloat', 'abs', 'fabs', 'round', 'N', 'Float', 'RealNumber', 'array', 'asarray', 'list', 'tuple', 'sorted', 'reversed', 'deepcopy', 'copy',
        'evalf', 'subs', 'doit', 'simplify', 'mpfs', 'float64', 'iter', 'sympify'}
LOGS = {'log', 'ln', 'log10', 'log2'}
EXPS = {'exp', 'expm1', 'sin', 'cos', 'tanh', 'sinh', 'cosh', 'log1p'}


def dim(v):
    """the quantity of a value, None when it is not a quantity"""
    if isinstance(v, Q):
        return v
    return None


def same(a, b):
    """no contradiction between what is known of two values"""
    if alts(a) and alts(b):
        return fits(a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) != len(b.items) or all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return same(a.elem, b.elem)
    if isinstance(a, Seq) and isinstance(b, Tup):
        return all(same(a.elem, x) for x in b.items)
    if isinstance(a, Tup) and isinstance(b, Seq):
        return same(b, a)
    if isinstance(a, Map) and isinstance(b, Map):
        if a.elem is not None and b.elem is not None and not same(a.elem, b.elem):
            return False
        return all(same(a.keys[k], b.keys[k]) for k in a.keys if k in b.keys)
    return True


def join(a, b, loop=False):
    if a is b or a is None:
        return b
    if b is None:
        return a
    if a is NONE:
        return b
    if b is NONE:
        return a
    if alts(a) and alts(b):
        qs = set(alts(a)) | set(alts(b))
        return ANY if loop and len(qs) > 1 else mix(qs)
    if isinstance(a, Num) and isinstance(b, Num):
        return a if a.v == b.v else Num()
    if isinstance(a, Num) and alts(b):
        return b
    if isinstance(b, Num) and alts(a):
        return a
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(join(a.elem, b.elem), a.n if a.n == b.n else None)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([join(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (Tup, Seq)) and isinstance(b, (Tup, Seq)):
        return Seq(join(elem(a), elem(b)))
    if isinstance(a, Map) and isinstance(b, Map):
        ks = dict(a.keys)
        for k, v in b.keys.items():
            ks[k] = join(ks.get(k), v)
        return Map(ks, join(a.elem, b.elem))
    fa, fb = fns(a), fns(b)
    if fa and fb:
        return Alt(fa + [f for f in fb if f.node is not (fa[0].node)])
    return ANY


def fns(v):
    return [v] if isinstance(v, Fn) else v.fs if isinstance(v, Alt) else []


def elem(v):
    if isinstance(v, Seq):
        return v.elem if v.elem is not None else ANY
    if isinstance(v, Tup):
        r = None
        for x in v.items:
            r = join(r, x)
        return r if r is not None else ANY
    if isinstance(v, Map):
        return ANY
    if isinstance(v, Q):
        return v                        # an array of quantities
    return ANY


def known_number(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)) or x == 0:
        return None
    for k, u in KNOWN:
        tol = 2e-3 if k not in (101325.0, 298.15, 273.15) else 1e-9
        if abs(x - k) <= tol*abs(k):
            return u
    return None


def thousands(x):
    """n when x is 1000 to the n"""
    if isinstance(x, bool) or not isinstance(x, (int, float)) or x <= 0:
        return 0
    for n in (-2, -1, 1, 2):
        if abs(x - 1000.0**n) <= 1e-9*1000.0**n:
            return n
    return 0


class Dims(object):
    def __init__(self, graph):
        self.g, self.repo = graph, graph.repo
        self.bad = {}
        self.checked = set()
        self.ret = None
        self.stack = []
        self.memo = {}
        self.byname = {}
        for f in graph.functions():
            self.byname.setdefault(f.name, []).append(f)
        self.cmemo = {}

    # -- reporting
    def rel(self):
        return self.stack[-1]

    def check(self, ok, node, why):
        where = (self.stack[-1][0], self.stack[-1][1], getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        self.checked.add(where)
        if not ok:
            self.bad.setdefault(where, why)

    # -- functions
    def function(self, f):
        """a function on its own: declared parameters, the others unknown"""
        env = {}
        decl = DECL.get(f.name)
        ps = params(f.node)
        if f.cls is not None and 'staticmethod' not in f.decorators and ps:
            ps = ps[1:]
        given = self.declared(f.name, ps)
        for p in ps:
            env[p] = given.get(p, PARAMS.get(p, ANY))
        self.stack.append((f.module.rel, f.qual))
        self.defaults(f.node.args, env, f.module, f.cls)
        r = self.body(f.node, env, f.module, f.cls, (f.module.rel, f.qual))
        self.stack.pop()
        if decl is not None and decl[1] is not ANY:
            return r, decl[1]
        return r, None

    def declared(self, name, ps):
        d = DECL.get(name)
        if d is None:
            return {}
        names = [n for n, _ in d[0]]
        if all(n in ps for n in names):
            return {n: u for n, u in d[0]}
        if len(ps) == len(names):
            return {p: u for p, (_, u) in zip(ps, d[0])}
        return {n: u for n, u in d[0] if n in ps}

    def defaults(self, a, env, module, cls):
        pos = a.args[len(a.args) - len(a.defaults):]
        for p, d in list(zip(pos, a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            v = self.ev(d, {}, module, cls)
            if p.arg in env and v is not NONE:
                if isinstance(v, Q) and isinstance(env[p.arg], Q):
                    self.check(v == env[p.arg], d, 'default of %s: %r where %r is expected' % (p.arg, v, env[p.arg]))

    def body(self, node, env, module, cls, where):
        old = self.ret
        self.ret = []
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, env, module, cls)
            self.ret = old
            return r
        self.block(node.body, env, module, cls)
        out = None
        for n, v in self.ret:
            out = join(out, v)
        rets = self.ret
        self.ret = old
        want = DECL.get(node.name)
        if want is not None and want[1] is not ANY:
            for n, v in rets:
                self.compare(v, want[1], n, '%s returns' % node.name)
        return out if out is not None else NONE

    def compare(self, v, want, node, what):
        if comparable(v, want):
            self.check(same(v, want), node, '%s %r where %r is expected' % (what, v, want))

    # -- statements
    def block(self, body, env, module, cls):
        for s in body:
            if not self.stmt(s, env, module, cls):
                return False
        return True

    def stmt(self, s, env, module, cls):
        """False when nothing follows"""
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, module, cls)
            for t in s.targets:
                self.store(t, v, env, module, cls)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value, env, module, cls), env, module, cls)
        elif isinstance(s, ast.AugAssign):
            a = self.ev(load(s.target), env, module, cls)
            v = self.binop(s.op, a, self.ev(s.value, env, module, cls), s)
            self.store(s.target, v, env, module, cls)
        elif isinstance(s, ast.Return):
            self.ret.append((s, self.ev(s.value, env, module, cls) if s.value is not None else NONE))
            return False
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env, module, cls)
            return False
        elif isinstance(s, (ast.Break, ast.Continue)):
            return False
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env, module, cls)
        elif isinstance(s, ast.If):
            self.ev(s.test, env, module, cls)
            e1, e2 = dict(env), dict(env)
            refine(s.test, e1)
            a = self.block(s.body, e1, module, cls)
            b = self.block(s.orelse, e2, module, cls)
            if a and b:
                merge(env, e1, e2)
            elif a or b:
                env.clear()
                env.update(e1 if a else e2)
            else:
                return False
        elif isinstance(s, (ast.For, ast.While)):
            for _ in range(2):
                e1 = dict(env)
                if isinstance(s, ast.For):
                    self.store(s.target, self.items(self.ev(s.iter, env, module, cls)), e1, module, cls)
                else:
                    self.ev(s.test, e1, module, cls)
                self.block(s.body, e1, module, cls)
                e0 = dict(env)
                merge(env, e0, e1, True)
            self.block(s.orelse, env, module, cls)
        elif isinstance(s, ast.Try):
            e1 = dict(env)
            a = self.block(s.body + s.orelse, e1, module, cls)
            outs = [e1] if a else []
            for h in s.handlers:
                e2 = dict(env)
                if self.block(h.body, e2, module, cls):
                    outs.append(e2)
            if not outs:
                return False
            env.clear()
            env.update(outs[0])
            for o in outs[1:]:
                merge(env, dict(env), o)
            return self.block(s.finalbody, env, module, cls)
        elif isinstance(s, ast.With):
            for w in s.items:
                self.ev(w.context_expr, env, module, cls)
            return self.block(s.body, env, module, cls)
        elif isinstance(s, (ast.FunctionDef,)):
            env[s.name] = Fn(s, env, module, cls, s.name)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env, module, cls)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
        return True

    def store(self, t, v, env, module, cls):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                for x, y in zip(t.elts, v.items):
                    self.store(x, y, env, module, cls)
            else:
                for x in t.elts:
                    self.store(x.value if isinstance(x, ast.Starred) else x, elem(v) if isinstance(v, (Seq, Tup)) else ANY, env, module, cls)
        elif isinstance(t, ast.Attribute):
            if t.attr in ATTRS:
                self.compare(v, ATTRS[t.attr], t, '.%s is given' % t.attr)
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value, env, module, cls)
            want = self.index(c, t.slice, env, module, cls)
            if c is ANY:
                return
            if isinstance(c, Map) and isinstance(t.value, ast.Name) and t.value.id in env:
                k = constant(t.slice)
                if k is not None:
                    n = Map(c.keys, c.elem)
                    n.keys[k] = v
                    env[t.value.id] = n
                    return
                env[t.value.id] = Map(c.keys, join(c.elem, v))
                return
            if isinstance(c, Seq) and isinstance(t.value, ast.Name) and t.value.id in env and want is not None and not isinstance(want, Q):
                env[t.value.id] = Seq(join(c.elem, v), c.n)
                return
            self.compare(v, want, t, 'an entry is given')

    def items(self, v):
        return elem(v)

    # -- expressions
    def ev(self, e, env, module, cls):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, env, module, cls)
            return ANY
        r = m(e, env, module, cls)
        return r if r is not None else ANY

    def e_Constant(self, e, env, module, cls):
        if e.value is None:
            return NONE
        if isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return known_number(e.value) or Num(e.value)
        return ANY

    def e_Name(self, e, env, module, cls):
        v = env[e.id] if e.id in env else self.global_(e.id, module)
        if isinstance(v, Num) and not v.named:
            return Num(v.v, True)
        return v

    def global_(self, n, module):
        if n in CONSTS and (n in module.imports or n in module.consts or n not in module.functions):
            return CONSTS[n]
        if n in module.consts and len(module.consts[n]) == 1:
            key = (module.rel, n)
            if key not in self.cmemo:
                self.cmemo[key] = ANY
                self.stack.append((module.rel, n))
                self.cmemo[key] = self.ev(module.consts[n][0], {}, module, None)
                self.stack.pop()
            return self.cmemo[key]
        if n in module.functions:
            f = module.functions[n]
            return Fn(f.node, {}, f.module, None, n)
        if n in module.imports:
            d = module.imports[n]
            mod, _, last = d.rpartition('.')
            if mod in self.repo.modules and last in CONSTS:
                return CONSTS[last]
            if mod in self.repo.modules and self.repo.modules[mod] is not module:
                return self.global_(last, self.repo.modules[mod])
        return ANY

    def e_Attribute(self, e, env, module, cls):
        if e.attr in ATTRS:
            self.ev(e.value, env, module, cls)
            return ATTRS[e.attr]
        if e.attr in CONSTS and isinstance(e.value, ast.Name):
            return CONSTS[e.attr]
        fs = self.byname.get(e.attr, [])
        if len(fs) == 1 and (fs[0].cls is not None) and isinstance(e.value, (ast.Name, ast.Attribute)):
            f = fs[0]
            if set(f.decorators) & {'property', 'Property'}:
                return self.inline(Fn(f.node, {}, f.module, f.cls, f.name), [ANY], {}, e)
            return Fn(f.node, {'@bound': True}, f.module, f.cls, f.name)
        self.ev(e.value, env, module, cls)
        return ANY

    def index(self, c, sl, env, module, cls):
        if isinstance(sl, ast.Slice):
            return Seq(elem(c)) if isinstance(c, (Seq, Tup)) else c if isinstance(c, Q) else ANY
        i = self.ev(sl, env, module, cls)
        k = constant(sl)
        if isinstance(c, Map):
            if k is not None and k in c.keys:
                return c.keys[k]
            if isinstance(k, str) and k in KEYS and c.elem is not None and isinstance(c.elem, Seq):
                return KEYS[k]
            if c.elem is not None:
                return c.elem
            return KEYS.get(k, ANY)
        if isinstance(c, Tup):
            if isinstance(k, int) and -len(c.items) <= k < len(c.items):
                return c.items[k]
            return elem(c)
        if isinstance(c, Seq):
            return elem(c)
        if isinstance(k, str) and k in KEYS:
            return KEYS[k]
        if isinstance(c, Q):
            return c
        return ANY

    def e_Subscript(self, e, env, module, cls):
        return self.index(self.ev(e.value, env, module, cls), e.slice, env, module, cls)

    def e_Tuple(self, e, env, module, cls):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return ANY
        return Tup([self.ev(x, env, module, cls) for x in e.elts])

    def e_List(self, e, env, module, cls):
        if not e.elts:
            return Seq(None)
        return self.e_Tuple(e, env, module, cls)

    def e_Dict(self, e, env, module, cls):
        keys, el = {}, None
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env, module, cls)
            if k is None:
                continue
            c = constant(k)
            if c is not None:
                keys[c] = x
                if c in KEYS:
                    self.compare(x, KEYS[c], v, 'the entry %r is' % c)
            else:
                s = self.ev(k, env, module, cls)
                if isinstance(s, Q):
                    self.compare(x, s, v, 'the value of a symbol is')
                el = join(el, x)
        return Map(keys, el)

    def comp(self, e, env, module, cls):
        env = dict(env)
        for g in e.generators:
            self.store(g.target, elem(self.ev(g.iter, env, module, cls)), env, module, cls)
            for t in g.ifs:
                self.ev(t, env, module, cls)
        return env

    def e_ListComp(self, e, env, module, cls):
        n = None
        if len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, env, module, cls)
            if isinstance(it, Tup) and len(it.items) <= 8:
                out = []
                for x in it.items:
                    e1 = dict(env)
                    self.store(e.generators[0].target, x, e1, module, cls)
                    out.append(self.ev(e.elt, e1, module, cls))
                return Tup(out)
            n = it.n if isinstance(it, Seq) else None
        env = self.comp(e, env, module, cls)
        x = self.ev(e.elt, env, module, cls)
        return Tup([x]*n) if n is not None and n <= 8 else Seq(x)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, env, module, cls):
        env = self.comp(e, env, module, cls)
        k, v = self.ev(e.key, env, module, cls), self.ev(e.value, env, module, cls)
        if isinstance(k, Q):
            self.compare(v, k, e.value, 'the value of a symbol is')
        return Map({}, v)

    def e_IfExp(self, e, env, module, cls):
        self.ev(e.test, env, module, cls)
        return join(self.ev(e.body, env, module, cls), self.ev(e.orelse, env, module, cls))

    def e_BoolOp(self, e, env, module, cls):
        r = None
        for x in e.values:
            r = join(r, self.ev(x, env, module, cls))
        return r

    def e_UnaryOp(self, e, env, module, cls):
        v = self.ev(e.operand, env, module, cls)
        if isinstance(e.op, ast.USub) and isinstance(v, Num) and v.v is not None:
            return Num(-v.v)
        return v if not isinstance(e.op, ast.Not) else ANY

    def e_Lambda(self, e, env, module, cls):
        return Fn(e, env, module, cls, '<lambda>')

    def e_Compare(self, e, env, module, cls):
        vs = [self.ev(x, env, module, cls) for x in [e.left] + e.comparators]
        for a, b, op in zip(vs, vs[1:], e.ops):
            if isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                continue
            if alts(a) and alts(b):
                self.check(fits(a, b), e, '%r is compared with %r' % (a, b))
        xs = [e.left] + e.comparators
        for i, op in enumerate(e.ops):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                for a, b, x in ((vs[i], vs[i + 1], xs[i + 1]), (vs[i + 1], vs[i], xs[i])):
                    if isinstance(a, Q) and b is ANY and isinstance(x, ast.Name) and env.get(x.id) is ANY:
                        env[x.id] = a           # what a quantity is compared with is of its kind
        return ANY

    def e_BinOp(self, e, env, module, cls):
        return self.binop(e.op, self.ev(e.left, env, module, cls), self.ev(e.right, env, module, cls), e)

    def binop(self, op, a, b, node):
        if isinstance(a, Mix) or isinstance(b, Mix):
            if isinstance(op, (ast.Add, ast.Sub)) and alts(a) and alts(b):
                self.check(fits(a, b), node, '%r and %r are added' % (a, b))
                return a if isinstance(a, Mix) else b
            rs = [self.binop(op, x, y, node) for x in (alts(a) or (a,)) for y in (alts(b) or (b,))]
            return mix(rs) if all(isinstance(r, Q) for r in rs) else ANY
        if isinstance(op, (ast.Add, ast.Sub)):
            if isinstance(a, (Seq, Tup)) and isinstance(b, (Seq, Tup)):
                if isinstance(a, Tup) and isinstance(b, Tup):
                    return Tup(a.items + b.items)
                return Seq(join(elem(a), elem(b)))
            if isinstance(a, Q) and isinstance(b, Q):
                self.check(a == b, node, '%r and %r are added' % (a, b))
                return a
            if isinstance(a, Num) and isinstance(b, Num):
                return num(lambda x, y: x + y if isinstance(op, ast.Add) else x - y, a, b)
            if isinstance(a, Num) and isinstance(b, Q):
                return b
            if isinstance(b, Num) and isinstance(a, Q):
                return a
            return ANY
        if isinstance(op, (ast.Mult, ast.Div, ast.FloorDiv)):
            sgn = 1 if isinstance(op, ast.Mult) else -1
            if isinstance(a, Num) and isinstance(b, Num):
                return num(lambda x, y: x*y if sgn == 1 else x/y, a, b)
            if isinstance(a, (Seq, Tup)) and isinstance(b, Num) and sgn == 1:
                return Seq(elem(a))
            if isinstance(b, (Seq, Tup)) and isinstance(a, Num) and sgn == 1:
                return Seq(elem(b))
            x, y = scaled(a, b), scaled(b, a)
            if isinstance(x, Q) and isinstance(y, Q):
                return x*(y**sgn)
            return ANY
        if isinstance(op, ast.Pow):
            if isinstance(b, Q) and b.d:
                self.check(False, node, 'an exponent is %r' % (b,))
                return ANY
            if alts(b):
                self.check(True, node, '')
            if isinstance(a, Num):
                return num(lambda x, y: x**y, a, b) if isinstance(b, Num) else ONE if isinstance(b, Q) else ANY
            if isinstance(a, Q):
                if isinstance(b, Num) and b.v is not None:
                    return a**Fraction(b.v).limit_denominator(60)
                return ONE if not a.d else ANY
            return ANY
        if isinstance(op, ast.MatMult) and isinstance(a, Q) and isinstance(b, Q):
            return a*b
        return ANY

    def pure(self, v, node, what):
        if alts(v):
            self.check(all(not q.d for q in alts(v)), node, '%s is %r' % (what, v))

    def e_Call(self, e, env, module, cls):
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env, module, cls) for a in e.args]
        star = any(isinstance(a, ast.Starred) for a in e.args)
        kw = {k.arg: self.ev(k.value, env, module, cls) for k in e.keywords}
        base = self.ev(e.func.value, env, module, cls) if isinstance(e.func, ast.Attribute) else None
        local = isinstance(e.func, ast.Name) and e.func.id in env
        f = env[e.func.id] if local else None
        if isinstance(e.func, ast.Lambda):
            f = self.ev(e.func, env, module, cls)
        if local and fns(f):
            return self.apply(f, args, kw, e)
        if name in DECL and not star:
            fs = self.byname.get(name, [])
            if fs or name == 'stoichiometry':
                return self.decl_call(name, args, kw, e)
        if name in LOGS:
            if args and alts(args[0]):
                self.check(all(not q.d or q == REDUCED for q in alts(args[0])), e, 'the argument of a logarithm is %r' % (args[0],))
                return ONE
            return ANY
        if name in EXPS:
            if args:
                self.pure(args[0], e, 'the argument of %s' % name)
            return ONE if args and isinstance(args[0], (Q, Num, Mix)) else ANY
        if name == 'sqrt' and args:
            return mix(q**Fraction(1, 2) for q in alts(args[0])) if alts(args[0]) else num(lambda x, y: x**0.5, args[0], Num(0)) if isinstance(args[0], Num) else ANY
        if name in ('pow', 'power') and len(args) == 2:
            return self.binop(ast.Pow(), args[0], args[1], e)
        if name in ('sum', 'fsum', 'mean', 'nansum'):
            if args and isinstance(args[0], (Seq, Tup)):
                x = args[0]
                if isinstance(x, Tup) and len(x.items) > 1:
                    qs = [q for q in x.items if alts(q)]
                    if len(qs) > 1:
                        self.check(all(fits(q, qs[0]) for q in qs), e, 'quantities of different kinds are added')
                return elem(x)
            return args[0] if args and isinstance(args[0], Q) else ANY
        if name in ('max', 'min', 'amax', 'amin', 'maximum', 'minimum', 'hypot'):
            vs = args if len(args) > 1 else [elem(args[0])] if args else []
            qs = [q for q in vs if alts(q)]
            if len(qs) > 1:
                self.check(all(fits(q, qs[0]) for q in qs), e, '%s of %s' % (name, ' and '.join(repr(q) for q in qs)))
            return qs[0] if qs and len(qs) == len([v for v in vs if not isinstance(v, Num)]) else ANY
        if name == 'reduce' and len(args) >= 2:
            return self.reduce(e, args)
        if name == 'prod' and args:
            return self.product(args[0])
        if name == 'zip':
            return Seq(Tup([elem(a) for a in args]))
        if name == 'enumerate' and args:
            return Seq(Tup([Num(), elem(args[0])]))
        if name == 'map' and len(args) == 2:
            return Seq(self.apply(args[0], [elem(args[1])], {}, e))
        if name == 'filter' and len(args) == 2:
            return Seq(elem(args[1]))
        if name in ('range', 'xrange'):
            return Seq(Num())
        if name in ('len', 'index', 'count', 'int', 'bool', 'ord'):
            if name == 'int' and args:
                return args[0]
            return Num()
        if name in SAME:
            if isinstance(e.func, ast.Attribute) and name in ('evalf', 'subs', 'doit', 'simplify'):
                return base
            if args:
                return args[0]
            return Seq(None) if name in ('list', 'tuple') else ANY
        if name == 'dict' and not args:
            return Map({k: v for k, v in kw.items() if k}, None)
        if isinstance(e.func, ast.Attribute):
            r = self.container(e, name, base, args, env, module, cls)
            if r is not None:
                return r
        if name == 'get_molecular_mass':
            a = [k.value for k in e.keywords if k.arg == 'absolute'] or e.args[1:2]
            if not a or isinstance(a[0], ast.Constant):
                return unit('kg') if a and a[0].value else ONE
            return ANY
        if star:
            return ANY
        v = self.ev(e.func, env, module, cls)
        if fns(v):
            if isinstance(e.func, ast.Attribute):
                return self.apply(v, args, kw, e)
            return self.apply(v, args, kw, e)
        return ANY

    def container(self, e, name, base, args, env, module, cls):
        who = e.func.value.id if isinstance(e.func.value, ast.Name) else None
        if isinstance(base, Seq) and name in ('append', 'add', 'appendleft') and len(args) == 1:
            if who in env:
                env[who] = Seq(join(base.elem, args[0]))
            return NONE
        if isinstance(base, Tup) and name == 'append' and len(args) == 1 and who in env:
            env[who] = Seq(join(elem(base), args[0]))
            return NONE
        if isinstance(base, Seq) and name == 'extend' and len(args) == 1:
            if who in env:
                env[who] = Seq(join(base.elem, elem(args[0])))
            return NONE
        if isinstance(base, Map):
            if name in ('get', 'pop') and e.args:
                return self.index(base, e.args[0], env, module, cls)
            if name == 'values':
                r = base.elem
                for v in base.keys.values():
                    r = join(r, v)
                return Seq(r)
            if name == 'items':
                r = base.elem
                for v in base.keys.values():
                    r = join(r, v)
                return Seq(Tup([ANY, r if r is not None else ANY]))
            if name == 'setdefault' and len(args) == 2:
                if isinstance(args[0], Q):
                    self.compare(args[1], args[0], e, 'the value of a symbol is')
                if who in env:
                    env[who] = Map(base.keys, join(base.elem, args[1]))
                return args[1]
            if name == 'update' and len(args) == 1 and isinstance(args[0], Map) and who in env:
                env[who] = join(base, args[0])
                return NONE
            if name == 'keys':
                return ANY
        if name == 'get' and e.args and constant(e.args[0]) in KEYS:
            return KEYS[constant(e.args[0])]
        return None

    def decl_call(self, name, args, kw, e):
        decl = DECL[name]
        fs = self.byname.get(name, [])
        ps = [p for p, _ in decl[0]]
        given = dict(decl[0])
        if len(fs) == 1:
            ps = params(fs[0].node)
            if fs[0].cls is not None and 'staticmethod' not in fs[0].decorators:
                ps = ps[1:]
            given = self.declared(name, ps)
        for p, v in list(zip(ps, args)) + [(k, v) for k, v in kw.items() if k in given]:
            u = given.get(p, ANY)
            if u is not ANY:
                self.compare(v, u, e, '%s of %s is given' % (p, name))
        return decl[1]

    def apply(self, f, args, kw, e):
        r = None
        for x in fns(f):
            if x.name in DECL:
                r = join(r, self.decl_call(x.name, args, kw, e))
                continue
            a = args
            if x.cls is not None and x.env.get('@bound'):
                if 'staticmethod' not in [getattr(d, 'id', '') for d in x.node.decorator_list]:
                    a = [ANY] + args
            r = join(r, self.inline(x, a, kw, e))
        return r if r is not None else ANY

    def inline(self, f, args, kw, e):
        if len(self.stack) > 7 or any(s[2:] == (f.node,) for s in self.stack):
            return ANY
        ps = params(f.node)
        env = {k: v for k, v in f.env.items() if k != '@bound'}
        for p in ps:
            env[p] = PARAMS.get(p, ANY) if not isinstance(f.node, ast.Lambda) else ANY
        a = f.node.args
        for p, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
            env[p.arg] = self.ev(d, {}, f.module, f.cls)
        for p, v in zip(ps, args):
            env[p] = v
        for k, v in kw.items():
            if k in ps:
                env[k] = v
        where = self.stack[-1][:2] if isinstance(f.node, ast.Lambda) or f.env and '@bound' not in f.env else \
            (f.module.rel, (f.cls.name + '.' if f.cls else '') + f.name)
        self.stack.append(where + (f.node,))
        r = self.body(f.node, env, f.module, f.cls, where)
        self.stack.pop()
        return r

    def product(self, s):
        if isinstance(s, Tup) and all(isinstance(x, (Q, Num)) for x in s.items):
            r = ONE
            for x in s.items:
                r = r*(x if isinstance(x, Q) else ONE)
            return r
        x = elem(s)
        if isinstance(x, Q):
            if not x.d:
                return ONE
            if isinstance(s, Seq) and s.n is not None:
                return x**s.n
        if isinstance(x, Num):
            return Num()
        return ANY

    def reduce(self, e, args):
        f = e.args[0]
        if isinstance(f, ast.Lambda) and isinstance(f.body, ast.BinOp) and isinstance(f.body.left, ast.Name) and isinstance(f.body.right, ast.Name) and \
                {f.body.left.id, f.body.right.id} == {a.arg for a in f.args.args}:
            if isinstance(f.body.op, ast.Mult):
                return self.product(args[1])
            if isinstance(f.body.op, ast.Add):
                return elem(args[1])
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if n == 'mul':
            return self.product(args[1])
        if n == 'add':
            return elem(args[1])
        return ANY


def comparable(v, want):
    if alts(v) and alts(want):
        return True
    if isinstance(v, Tup) and isinstance(want, Tup):
        return len(v.items) == len(want.items) and any(comparable(a, b) for a, b in zip(v.items, want.items))
    if isinstance(v, (Seq, Tup)) and isinstance(want, (Seq, Tup)):
        return comparable(elem(v), elem(want))
    if isinstance(v, Map) and isinstance(want, Map):
        return want.elem is not None and v.elem is not None and comparable(v.elem, want.elem) or any(comparable(v.keys[k], want.keys[k]) for k in v.keys if k in want.keys)
    return False


def decided(v):
    if isinstance(v, (Q, Num, Mix)):
        return True
    if isinstance(v, Tup):
        return all(decided(x) for x in v.items)
    if isinstance(v, Seq):
        return v.elem is not None and decided(v.elem)
    return False


def scaled(a, other):
    """a number beside a quantity: a factor of a thousand counts, another one does not"""
    if isinstance(a, Num):
        if a.named and a.v not in (0, 1, -1):
            return ANY
        if isinstance(other, Q) and other.d and a.v is not None:
            n = thousands(a.v)
            if n:
                return Q({'thousand': n})
        return ONE
    return a


def num(f, a, b):
    if isinstance(a, Num) and isinstance(b, Num) and a.v is not None and b.v is not None:
        try:
            return Num(f(a.v, b.v), a.named or b.named)
        except (ZeroDivisionError, OverflowError, TypeError):
            pass
    return Num(None, getattr(a, 'named', False) or getattr(b, 'named', False))


def params(node):
    a = node.args
    return [x.arg for x in a.args + a.kwonlyargs]


def constant(e):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return -e.operand.value
    return None


def load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return t


def merge(env, a, b, loop=False):
    env.clear()
    for k in set(a) | set(b):
        env[k] = join(a.get(k), b.get(k), loop) if k in a and k in b else a.get(k, b.get(k))


def refine(test, env):
    """the length of a sequence that is compared with a number"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq):
        for x, y in ((test.left, test.comparators[0]), (test.comparators[0], test.left)):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and isinstance(constant(y), int):
                s = env.get(x.args[0].id)
                if isinstance(s, Seq):
                    env[x.args[0].id] = Seq(s.elem, constant(y))
