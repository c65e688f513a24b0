"""What computations leave unchanged: C23, C24."""
import ast
import json
import os

from engine.effects import Effects, Run, ELEM
from engine.infer import Py
from engine.repo import Class, dotted
from . import check
from .rxn import VF

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ARGS = 'no public function changes an object it is given, or one reached from it, on any path of it and of the functions it calls (energy correction apart)'
ENERGIES = 'no function changes the energies or other data of its model in place, and public functions other than the loading of energies do not replace them'
VALUES = 'reactions, states, formulas and groups of coordinates are not changed by their own queries'
KEPT = 'what a public function is given and keeps is not changed by other methods later'
SHARED = 'no function changes an object that all models share: a module variable, an attribute of a class, a default argument, the state of a library'
# what is documented to change
DOCUMENTED = {('scaks/correctors/thermodynamic_corrector.py:ThermodynamicCorrector.correct_relative_energies', 'relative_energies')}
LOADING = ('parse_data',)
VALUE_CLASSES = {'RxnEquation': (), 'ChemState': (), 'ChemFormula': (), 'CoordsGroup': ('append', 'extend')}
# the machinery of attributes and classes: what it is given is the object it works on
MACHINERY = ('scaks/descriptors/', 'scaks/plugins/metaclasses.py')
OWN = ('.relative_energies', '._relative_energies', '.absolute_energies', '._absolute_energies')


def entries(c):
    """the public functions that are still there"""
    with open(os.path.join(HERE, 'spec', 'api.json')) as f:
        for w in json.load(f):
            try:
                yield w, c.repo.func(w)
            except Exception:
                continue


def functions(c):
    for m in sorted(c.repo.modules.values(), key=lambda m: m.rel):
        if m.rel.startswith('scaks/tests/') or m.rel.endswith('images2gif.py'):
            continue
        yield from m.functions.values()
        for k in m.classes.values():
            yield from k.methods.values()


def me(f):
    a = f.node.args
    ps = a.posonlyargs + a.args
    return ps[0].arg if f.cls is not None and ps and 'staticmethod' not in f.decorators else None


def effects(c):
    if not hasattr(c.repo, '_effects'):
        c.repo._effects = Effects(c.repo)
    return c.repo._effects


def show(o):
    return o[1] + ''.join(x if x == ELEM else x for x in o[2])


@check('C24')
def arguments(c):
    for r in (ARGS, ENERGIES, VALUES, KEPT):
        c.rule(r)
    ef = effects(c)
    n = 0
    for w, f in entries(c):
        if w.startswith(MACHINERY):
            continue
        n += 1
        c.functions.add(w)
        s = ef.summary(f)
        bad = False
        own = me(f)
        for o, (where, what) in sorted(s.muts.items()):
            if o[0] != 'p' or o[1] == own:
                continue
            if (w, o[1]) in DOCUMENTED:
                continue
            if o[2] and o[2][0].startswith('.') and o[2][0] not in OWN:
                continue            # a part of a model or of one of its components
            if not o[2] and ef.inf.env(f).get(o[1]) is not None:
                pass
            bad = True
            c.violated('arguments', w, 'changes %s, which it is given: %s in %s' % (show(o), what, where))
        if not bad:
            c.hold('arguments', w, '%d parameters' % len(f.node.args.args))
    c.count('public_functions', n)
    energies(c, ef)
    values(c, ef)
    kept(c, ef)
    c.count('calls_followed', ef.calls)
    c.count('calls_not_followed', ef.unknown_calls)


def energies(c, ef):
    seen = set()
    n = 0
    for f in functions(c):
        n += 1
        s = ef.summary(f)
        for o, (where, what) in sorted(s.muts.items()):
            if (where, what) in seen:
                continue
            if o[0] == 'm' and (o[2] or o[1]) and o[1] or o[0] == 'p' and o[1] == me(f) and o[2] and o[2][0] in OWN:
                seen.add((where, what))
                c.violated('data of the model', '%s:%s' % (f.module.rel, f.qual), 'changes %s of the model: %s in %s' % (
                    show(o) if o[0] == 'm' else o[2][0][1:], what, where))
    public = {f.node for _, f in entries(c)}
    for f in functions(c):
        if f.node not in public or f.node.name in LOADING:
            continue
        s = ef.summary(f)
        for (o, name), v in sorted(s.stores.items(), key=str):
            if name in OWN and (o[0] == 'm' and not o[1] or o[0] == 'p' and f.node.name != '__init__'):
                c.violated('data of the model', '%s:%s' % (f.module.rel, f.qual), 'replaces %s of the model' % name[1:])
                seen.add(name)
    if not seen:
        c.hold('data of the model', 'scaks', '%d functions' % n)


def values(c, ef):
    for k in sorted(VALUE_CLASSES):
        cls = c.repo.cls(k)
        if cls is None:
            c.undecided('values', k, 'the class is not there')
            continue
        # what the constructor sets to something
        init = cls.methods.get('__init__')
        given = set()
        todo, seen = [init] if init is not None else [], set()
        while todo:
            m = todo.pop()
            if m.node.name in seen:
                continue
            seen.add(m.node.name)
            for x in ast.walk(m.node):
                if isinstance(x, ast.Assign) and not (isinstance(x.value, ast.Constant) and x.value.value is None):
                    for t in x.targets:
                        for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(y, ast.Attribute) and dotted(y.value) == me(m):
                                given.add('.' + y.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and dotted(x.func.value) == me(m) and x.func.attr in cls.methods:
                    todo.append(cls.methods[x.func.attr])
        bad = False
        for m in cls.methods.values():
            if m.node.name in VALUE_CLASSES[k] or m.node.name == '__init__' or me(m) is None:
                continue
            if m.node.name.startswith('__') and not m.node.name.endswith('__'):
                # private helpers: of the constructor, or reported where they are used
                continue
            s = ef.summary(m)
            for o, (where, what) in sorted(s.muts.items()):
                if o[0] == 'p' and o[1] == me(m) and o[2] and (o[2][0] in given or not (what.endswith(' is set') or '.setdefault' in what or '.update' in what)):
                    bad = True
                    c.violated('values', '%s:%s' % (m.module.rel, m.qual), 'changes the %s it belongs to: %s in %s' % (k, what, where))
            for (o, name), v in sorted(s.stores.items(), key=str):
                if o == ('p', me(m), ()) and name in given:
                    bad = True
                    c.violated('values', '%s:%s' % (m.module.rel, m.qual), 'sets %s of the %s it belongs to' % (name[1:], k))
        if not bad:
            c.hold('values', '%s:%s' % (cls.module.rel, k), '%d methods' % len(cls.methods))


def kept(c, ef):
    n = bad = 0
    for m, name, x, g, path, where, what in keeps(c, ef):
        if x[0] != 'p':
            continue
        n += 1
        if g is not None:
            bad += 1
            c.violated('what is kept', '%s:%s' % (m.module.rel, m.qual), 'keeps %s, which it is given, as %s, and %s changes it: %s in %s' % (
                show(x), path[0][1:], g.qual, what, where))
    c.count('arguments_kept', n)
    if not bad:
        c.hold('what is kept', 'scaks', '%d arguments' % n)


def keeps(c, ef):
    """(method, attribute, what it keeps there, a method of the class that changes it or None, what it changes, where, how)"""
    public = {f.node: w for w, f in entries(c)}
    by_class = {}
    for f in functions(c):
        if f.cls is not None and me(f) is not None:
            by_class.setdefault(f.cls.name, []).append(f)
    classes = {f.cls.name: f.cls for f in functions(c) if f.cls is not None}
    for k, cls in sorted(classes.items()):
        if cls.module.rel.startswith(MACHINERY):
            continue
        muts = []       # what methods of the class (its bases included) change: (attribute, function, where, what)
        for b in ef.inf.mro(cls):
            for m in by_class.get(b.name, []):
                for o, (where, what) in ef.summary(m).muts.items():
                    if o[0] == 'p' and o[1] == me(m) and o[2] and o[2][0].startswith('.'):
                        muts.append((o[2], m, where, what))
        for m in by_class.get(k, []):
            for (o, name), v in ef.summary(m).stores.items():
                if o != ('p', me(m), ()):
                    continue
                for x in sorted(v, key=str):
                    if x[0] == 'a' or x[0] == 'p' and (x[1] == me(m) or m.node not in public):
                        continue
                    yield m, name, x, None, None, None, None
                    for path, g, where, what in muts:
                        if path[0] != name and not (name == '.*' and declared(ef, cls, path[0][1:])):
                            continue
                        if not x[2] and x[1] in ('owner', 'model', 'kmc_model'):
                            continue
                        if name == '.*' and len(path) > 1 and path[1].startswith('.'):
                            continue
                        if name != '.*' and component(ef, cls, path[0][1:]):
                            continue
                        yield m, name, x, g, path, where, what


def component(ef, cls, name):
    """set to the name of a class, of which an instance is made"""
    for k in ef.inf.mro(cls):
        for s in k.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                x = ef.inf.scope.lookup(k.module, dotted(s.value.func) or '')
                return isinstance(x, Class) and x.name == 'Component'
    return False


def declared(ef, cls, name):
    """a parameter declared in the class body"""
    for k in ef.inf.mro(cls):
        for s in k.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                x = ef.inf.scope.lookup(k.module, dotted(s.value.func) or '')
                if isinstance(x, Class) and x.name == 'Component':
                    return False
                return isinstance(x, Class) and ef.inf.method(x, '__get__') is not None
    return False


DE = 'scaks/descriptors/descriptors.py'


@check('C23')
def shared(c):
    c.rule(VF)
    for d, r in (('another', 'unset'), ('inner', 'inner'), ('mapping', 'mapping'), ('earlier', 'unset'), ('same', 'own'), ('copies', 'unset'),
                 ('copy_of_set', 'copy_of_set'), ('set_apart', 'unset')):
        c.driver(DE, 'shared', 'drv_' + d, r, where=DE + ':AttrDescriptor', construct=['AttrDescriptor'], opaque=["_check"], ob='values of two models: ' + d.replace('_', ' '))
    c.driver(DE, 'shared', 'drv_species', 'mapping', where=DE + ':SpeciesDefinitions', construct=['SpeciesDefinitions'], opaque=["check_species_definitions"], ob='species definitions are copies')
    ef = effects(c)
    handed_out(c, ef)
    c.rule(SHARED)
    seen = set()
    n = bad = 0
    for f in functions(c):
        n += 1
        s = ef.summary(f)
        for o, (where, what) in sorted(s.muts.items()):
            if o[0] != 'g' or (o, where) in seen:
                continue
            seen.add((o, where))
            if table(c, ef, o, where):
                continue
            bad += 1
            c.violated('shared objects', '%s: %s' % (where.split(':')[0], show(o)), 'changes %s, which all models share: %s in %s' % (show(o), what, where))
    for m, name, x, g, path, where, what in keeps(c, ef):
        if x[0] == 'g' and g is not None:
            bad += 1
            c.violated('shared objects', '%s: %s' % (m.module.rel, show(x)), '%s keeps %s, which all models share, as %s, and %s changes it: %s in %s' % (
                m.qual, show(x), path[0][1:], g.qual, what, where))
    c.count('functions', n)
    if not bad:
        c.hold('shared objects', 'scaks', '%d functions' % n)


def table(c, ef, o, where):
    """a table of results that cannot be changed, found again under all they depend on (C19)"""
    from engine.caches import Deps, caches, lossy
    try:
        f = c.repo.func(where.split(' (line')[0])
    except Exception:
        return False
    name = o[1].split(' of ')[0]
    ts = [t for t in caches(f) if t[1].split('.')[-1] == name]
    stores = [n for n in ast.walk(f.node) if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load) and name in ast.unparse(n.value if isinstance(n, ast.Subscript) else n)]
    if not ts or len(stores) != len(ts):
        return False
    for node, _, keys, values, d in ts:
        need = d.of(values) | (set([d.me]) if d.me and any(isinstance(x, ast.Name) and x.id == d.me for v in values for x in ast.walk(v)) else set())
        if need - d.of(keys) or lossy(keys, d):
            return False
        for v in values:
            t = ef.inf.type(v, f, ef.inf.env(f))
            if not t or not all(isinstance(x, Py) and x.name in ('int', 'float', 'str', 'bool', 'tuple', 'NoneType', 'complex', 'frozenset') for x in t):
                return False
    return True


OUT = 'what a declared parameter hands out reaches nothing that the declaration (shared by all models) holds and, where it is declared as copied, nothing that the model holds'


def handed_out(c, ef):
    c.rule(OUT)
    for f in functions(c):
        if f.cls is None or f.node.name != '__get__' or me(f) is None or len(f.node.args.args) < 2:
            continue
        w = '%s:%s' % (f.module.rel, f.qual)
        c.functions.add(w)
        own, inst = f.node.args.args[0].arg, f.node.args.args[1].arg
        for copied in (False, True):
            r = Run(ef, f, {own + '.deepcopy': copied})
            s = r.run()
            got = s.reach(s.returns)
            held = s.reach(x for (o, name), v in s.stores.items() if o[0] == 'p' and o[1] == own for x in v)
            bad = [o for o in sorted(got, key=str) if o[0] == 'p' and o[1] == own and o[2] or o[0] == 'g' or o[0] == 'a' and o in held]
            ob = 'handed out' + (' as a copy' if copied else '')
            if bad:
                c.violated(ob, w, 'hands out %s' % ', '.join('a new object that it keeps itself' if o[0] == 'a' else show(o) for o in bad))
                continue
            if copied and any(o[0] == 'p' and o[1] == inst and (o[2] or o in s.returns) for o in got):
                if r.assumed:
                    c.violated(ob, w, 'hands out what the model holds: %s' % ', '.join(show(o) for o in sorted(got, key=str) if o[0] == 'p' and o[1] == inst))
                    continue
            c.hold(ob, w, '%d objects reached' % len(got))
