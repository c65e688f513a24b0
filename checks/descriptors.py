"""Declared parameters of models: C22, C23."""
import ast
import logging

from engine.constants import Consts, Unknown, UNKNOWN
from engine.names import Scope
from engine.repo import Class, dotted
from spec.parameters import DECLARED, TYPES
from . import check
from .rxn import VF
from .coords import raises_only

DE = 'scaks/descriptors/descriptors.py:'
CD = 'scaks/descriptors/component_descriptors.py:'


OPAQUE = {'interval': ['check_analysis_interval'], 'reference': ['check_ref_energies'], 'species': ['check_species_definitions']}


@check('C22')
def parameters(c):
    c.rule(VF)
    both = ('ret', 'heap')
    c.equiv(DE + 'AttrDescriptor.__get__', 'descriptors', 'get', observe=both, ob='reading')
    c.equiv(DE + 'AttrDescriptor.__set__', 'descriptors', 'set_', observe=both + ('trace', 'rejected'), opaque=['_check'], effects=['_check'], ob='setting')
    for cls, s in (('Type', 'check_type'), ('Float', 'check_float'), ('Sequence', 'check_sequence'), ('FloatList2D', 'check_list2d'), ('SpaceVectors', 'check_vectors')):
        c.equiv(DE + cls + '._check', 'descriptors', s, wrap=raises_only, ob='valid values of ' + cls)
    c.equiv(CD + 'Component.__set__', 'descriptors', 'set_component', observe=both + ('rejected',), ob='components')
    c.equiv(DE + 'Property.__get__', 'descriptors', 'property_get', observe=both, ob='reading a property')
    c.equiv(DE + 'Property.__set__', 'descriptors', 'property_set', observe=both + ('rejected',), ob='setting a property')
    kinds = {'Integer': 'integer', 'String': 'string', 'Bool': 'bool_', 'Dict': 'dict_', 'Float': 'float_', 'Sequence': 'sequence', 'FloatList2D': 'list2d',
             'SpaceVectors': 'vectors', 'RefEnergies': 'reference', 'SpeciesDefinitions': 'species', 'AnalysisInterval': 'interval'}
    for k in sorted(kinds):
        s = kinds[k].strip('_')
        c.driver(DE[:-1], 'descriptors', 'drv_' + s, kinds[k], where=DE + k, construct=[k], opaque=OPAQUE.get(s, []), effects=OPAQUE.get(s, []),
                 observe=('ret', 'trace'), ob='declared, set and read: ' + k)
    c.driver(DE[:-1], 'descriptors', 'drv_default', 'default', where=DE + 'AttrDescriptor', construct=['AttrDescriptor'], ob='unset parameter')
    c.driver(DE[:-1], 'descriptors', 'drv_twice', 'twice', where=DE + 'AttrDescriptor', construct=['AttrDescriptor'], ob='set twice')
    KM = 'scaks/models/kinetic_model.py:KineticModel.'
    c.equiv(KM + '_load', 'descriptors', 'load', observe=both + ('trace',), opaque=['__mro_class_attrs', 'parse_elementary_rxns'], effects=['parse_elementary_rxns'],
            watch_store=['parser', 'solver'], watch=['rxn_expressions'], ob='loading set-up data')
    c.equiv(KM + '__mro_class_attrs', 'descriptors', 'class_attrs', ob='declared names')
    declarations(c)
    bypass(c)


# ------------------------------------------------------------------ declarations
RULE = 'constant evaluation of the parameter declarations in the class bodies, against the table of documented parameters'


class ClassRef(object):
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, other):
        return isinstance(other, ClassRef) and other.cls is self.cls

    def __hash__(self):
        return hash(self.cls.name)

    def __repr__(self):
        return self.cls.name


class Declared(Consts):
    """values of the arguments of a declaration: constants, types, classes, logging levels"""
    def __init__(self, scope, module, env):
        self.scope, self.module, self.steps, self.poison = scope, module, 100000, False
        self.env = env

    def ev(self, e, env):
        d = dotted(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if d in TYPES and d not in env:
            return TYPES[d]
        if d is not None and d not in env:
            x = self.scope.lookup(self.module, d)
            if isinstance(x, Class):
                return ClassRef(x)
            if isinstance(x, tuple) and x[0] == 'ext' and x[1].startswith('logging.') and hasattr(logging, x[1][8:]):
                return getattr(logging, x[1][8:])
            if isinstance(x, tuple) and x[0] == 'const':
                v = Consts(x[1].tree).env.get(x[2], UNKNOWN)
                if v is UNKNOWN:
                    raise Unknown()
                return v
        return Consts.ev(self, e, env)


def declared(scope, cls, kinds):
    """attribute -> (kind, arguments) of the parameters declared in the body of a class"""
    env = {k: v for k, v in Consts(cls.module.tree).env.items() if v is not UNKNOWN and k not in TYPES}
    ev = Declared(scope, cls.module, env)
    out = {}
    for s in cls.node.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if not isinstance(t, ast.Name):
                    continue
                k = None
                if isinstance(s.value, ast.Call) and dotted(s.value.func):
                    k = scope.lookup(cls.module, dotted(s.value.func))
                chain = scope.mro(k) if isinstance(k, Class) else []
                k2 = [x for x in chain if x in kinds.values()]
                if not k2:
                    out.pop(t.id, None)
                    try:
                        env[t.id] = ev.ev(s.value, env)
                    except (Unknown, TypeError, ValueError, KeyError, IndexError, AttributeError):
                        env[t.id] = UNKNOWN
                        if s.value is not None and t.id in DECLARED_NAMES:
                            out[t.id] = (None, None, s)
                    continue
                out[t.id] = (k2[0], bound(ev, k2[0], k, s.value, env), s)
    return out


DECLARED_NAMES = set(n for t in DECLARED.values() for n in t)


def bound(ev, base, k, call, env):
    """argument values of a declaration by parameter name, None when they are not constants"""
    if k is not base or '__init__' not in k.methods and base is not k:
        return None
    init = ev.scope.repo.find_method(k, '__init__')
    names = [a.arg for a in init.node.args.args][1:]
    out = {}
    try:
        for n, d in zip(reversed(names), reversed(init.node.args.defaults)):
            out[n] = ev.ev(d, env)
        for n, a in zip(names, call.args):
            out[n] = ev.ev(a, env)
        for kw in call.keywords:
            if kw.arg is None:
                out.update(ev.ev(kw.value, env))
            else:
                out[kw.arg] = ev.ev(kw.value, env)
    except (Unknown, TypeError, ValueError, KeyError, IndexError, AttributeError):
        return None
    return out


def accepts(kind, a):
    """the set of values a declaration accepts, in comparable form"""
    cand = a.get('candidates')
    cand = None if cand is None else frozenset(cand)
    entry = a.get('entry_type')
    entry = getattr(entry, '__name__', None) or (entry.cls.name if isinstance(entry, ClassRef) else None)
    typ = a.get('type')
    return {'Integer': ('int',), 'Float': ('float', 'int'), 'String': ('str',), 'Bool': ('bool',), 'Dict': ('dict',),
            'Type': (getattr(typ, '__name__', '?'),)}.get(kind, kind), entry, cand


def valid(kind, a):
    """the default satisfies the check of its own declaration"""
    v, cand = a.get('default'), a.get('candidates')
    types, entry, _ = accepts(kind, a)
    if v is None:
        return True
    if isinstance(types, tuple):
        return type(v).__name__ in types and (cand is None or v in cand)
    if kind == 'Sequence':
        et = a.get('entry_type')
        return type(v) in (list, tuple) and all((et is None or type(x) is et) and (cand is None or x in cand) for x in v)
    if kind in ('FloatList2D', 'SpaceVectors'):
        return type(v) is list and len(set(len(r) for r in v)) == 1 and all(type(x) is float for r in v for x in r) and (kind == 'FloatList2D' or len(v[0]) == 3)
    if kind in ('RefEnergies', 'SpeciesDefinitions'):
        return v == {}
    if kind == 'Component':
        return False
    return True


def declarations(c):
    c.rule(RULE)
    sc = Scope(c.repo)
    dm = c.repo.module(DE[:-1])
    cm = c.repo.module(CD[:-1])
    kinds = {n: k for m in (dm, cm) for n, k in m.classes.items() if any(x.name == 'AttrDescriptor' for x in sc.mro(k))}
    for cname in sorted(DECLARED):
        cls = c.repo.cls(cname)
        where = '%s:%s' % (cls.module.rel, cname)
        table = declared(sc, cls, kinds)
        private = {}
        for k in reversed(sc.mro(cls)):
            for n, (kind, a, s) in declared(sc, k, kinds).items():
                private[n] = a.get('name') if a else None
        c.count('parameters', len(private))
        for n in sorted(DECLARED[cname]):
            want = DECLARED[cname][n]
            ob = 'declaration of ' + n
            if n not in table:
                inherited = n in private
                (c.undecided if inherited or n in cls.attrs else c.violated)(ob, where, 'the parameter %s is not declared in the class' % n)
                continue
            kind, a, s = table[n]
            at = '%s:%d' % (cls.module.rel, s.lineno)
            if a is None:
                c.undecided(ob, at, 'the declaration is not made of constants')
                continue
            got = accepts(kind.name, a)
            if got[:2] != want[:2] or got[2] not in want[2]:
                c.violated(ob, at, '%s.%s accepts %s, it is documented to accept %s' % (cname, n, show(got), show(want[:2] + (want[2][0],))))
            elif not valid(kind.name, a):
                c.violated(ob, at, 'the default %r of %s.%s is not one of the values it accepts' % (a.get('default'), cname, n))
            elif len(want) > 3 and a.get('default') != want[3]:
                c.violated(ob, at, 'an unset %s.%s reads as %r, documented as %r' % (cname, n, a.get('default'), want[3]))
            elif [x for x in private if x != n and private[x] == private[n]]:
                c.violated(ob, at, '%s shares the storage name %r with %s' % (n, private[n], [x for x in private if x != n and private[x] == private[n]][0]))
            else:
                c.hold(ob, at)
            if kind.name == 'Component':
                for v in a.get('candidates') or ():
                    x = sc.lookup(cm, v) if isinstance(v, str) else None
                    c.decide(isinstance(x, Class), 'candidate %s of %s' % (v, n), at, 'no class %s is known where components are made' % v)


def show(sig):
    t, entry, cand = sig
    return '%s%s%s' % ('/'.join(t) if isinstance(t, tuple) else t, ' of ' + entry if entry else '', ' among %s' % sorted(cand) if cand else '')


# ------------------------------------------------------------------ no way round the checks
ALLOWED = {'set_solver': 'solver', 'set_corrector': 'corrector', 'set_plotter': 'plotter'}


def bindings(n, fn):
    """the expressions a local name is bound to; ('for', iterable, position) where a loop binds it"""
    out = []
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign):
            out += [x.value for t in x.targets if isinstance(t, ast.Name) and t.id == n]
        elif isinstance(x, (ast.For, ast.comprehension)):
            if isinstance(x.target, ast.Name) and x.target.id == n:
                out.append(('for', x.iter, None))
            elif isinstance(x.target, ast.Tuple):
                out += [('for', x.iter, i) for i, t in enumerate(x.target.elts) if isinstance(t, ast.Name) and t.id == n]
        elif isinstance(x, ast.arg) and x.arg == n:
            out.append('given')
    return out


def through(e, fn):
    """a local name bound once, as what it is bound to"""
    b = bindings(e.id, fn) if isinstance(e, ast.Name) else ()
    return b[0] if len(b) == 1 and isinstance(b[0], ast.AST) else e


def strings(e, fn, depth=4):
    """the constant strings an expression can be; 'given' where a caller chooses it; None where it is not known"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return {e.value}
    if isinstance(e, ast.Name) and depth:
        out = set()
        for b in bindings(e.id, fn):
            r = 'given' if b == 'given' else elements(b[1], b[2], fn, depth - 1) if isinstance(b, tuple) else strings(b, fn, depth - 1)
            if not isinstance(r, set):
                return r
            out |= r
        return out or None
    return None


def elements(e, i, fn, depth):
    e = through(e, fn)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.args and e.func.attr in ('items', 'keys'):
        if (i == 0) == (e.func.attr == 'items'):
            return elements(e.func.value, None, fn, depth)
        return None
    if isinstance(e, ast.Call) and dotted(e.func) == 'zip' and i is not None and i < len(e.args):
        return elements(e.args[i], None, fn, depth)
    if isinstance(e, ast.Call) and dotted(e.func) == 'dict' and not e.args and all(k.arg for k in e.keywords) and i is None:
        return {k.arg for k in e.keywords}
    if isinstance(e, ast.Call) and dotted(e.func) in ('sorted', 'list', 'tuple', 'set') and len(e.args) == 1:
        return elements(e.args[0], i, fn, depth)
    if isinstance(e, ast.Name) and bindings(e.id, fn) == ['given']:
        return 'given'
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        es = [x.elts[i] if i is not None and isinstance(x, (ast.Tuple, ast.List)) and i < len(x.elts) else x for x in e.elts]
    elif isinstance(e, ast.Dict) and i is None:
        es = e.keys
    else:
        return None
    rs = [strings(x, fn, depth) for x in es]
    return set().union(*rs) if all(isinstance(r, set) for r in rs) else None


def bypass(c):
    """model parameters are stored by their descriptors only"""
    c.rule('every store into an instance dictionary or under a private parameter name, in the classes of models and in what is handed a model')
    names = set(DECLARED_NAMES)
    n = 0
    for m in sorted(c.repo.modules.values(), key=lambda m: m.rel):
        if m.rel in (DE[:-1], CD[:-1]):
            continue
        models = m.rel.startswith('scaks/models/')
        for f in [f for k in m.classes.values() for f in k.methods.values()] + list(m.functions.values()):
            for x in ast.walk(f.node):
                n += 1
                at = '%s:%s (line %d)' % (m.rel, f.qual, getattr(x, 'lineno', f.node.lineno))
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr.startswith('__') and x.attr[2:] in names and models:
                    c.violated('stores to parameters', at, 'assigns %s directly, past the checks of the parameter' % x.attr)
                target = None
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    target = x.value
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
                    target = x.func.value
                if target is not None and (isinstance(target, ast.Attribute) and target.attr == '__dict__' or isinstance(target, ast.Call) and dotted(target.func) == 'vars'):
                    owner = dotted(target.value) if isinstance(target, ast.Attribute) else dotted(target.args[0]) if target.args else None
                    if models or owner != 'self':
                        c.violated('stores to parameters', at, 'writes into the instance dictionary of a model, past the checks of its parameters')
                if isinstance(x, ast.Call):
                    d = dotted(x.func) or ''
                    if d.endswith('__setattr__') or d == 'setattr':
                        args = x.args[1:] if d == 'object.__setattr__' else x.args
                        made = [y for a in args for y in ast.walk(through(a, f.node)) if isinstance(y, ast.Call) and (dotted(y.func) or '').split('.')[-1] == 'mangled_name']
                        keys = [strings(y.args[-1], f.node) for y in made if y.args]
                        known = set().union(*[k for k in keys if isinstance(k, set)])
                        if keys and 'given' in keys and not known & names and not (models and f.name in ALLOWED):
                            c.undecided('stores to parameters', at, 'assigns a private name it is given')
                        elif keys and (known & names or None in keys) and not (models and f.name in ALLOWED):
                            c.violated('stores to parameters', at, 'assigns a private name computed at run time, past the checks of the parameter')
                        if d == 'object.__setattr__':
                            c.violated('stores to parameters', at, 'assigns past the descriptors')
    if not any(r[:2] == ('VIOLATED', 'stores to parameters') for r in c.results):
        c.hold('stores to parameters', 'scaks/', '%d syntax nodes' % n)
