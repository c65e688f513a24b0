"""Memoised queries: C19."""
import ast

from engine import terms as K
from engine.caches import Deps, lossy, stale
from engine.domain import Domain
from engine.graph import Graph
from engine.infer import Inst
from . import check
from .rxn import VF

DE = 'scaks/descriptors/descriptors.py:'


class Fresh(Domain):
    """solvers that have not been asked anything yet: nothing is kept in them but what their construction puts there"""

    def contains(self, x, s):
        if x.op == 'str' and s.op == 'attr' and s.args[1] == '__dict__' and s.args[0].op in ('var', 'new', 'obj', 'typeof'):
            return K.FALSE
        return Domain.contains(self, x, s)

    def rewrite(self, t):
        if t.op == 'hasattr' and t.args[0].op in ('var', 'typeof') and t.args[1] not in ('_owner',):
            return K.FALSE
        if t.op == 'typeof' and t.args[0].op == 'var' and t.args[0].args[0] != 'p0':
            return K.raw('typeof', K.raw('var', 'p0'))      # all solvers are of one class
        return Domain.rewrite(self, t)


def equalities(t):
    """alternatives that agree wherever their condition, an equality, holds are one"""
    if t.op != 'ite':
        return t
    c, a, b = t.args
    if c.op == 'eq':
        x, y = c.args
        m = {x: y} if x.op in ('var', 'attr') else {y: x}
        a1, b1 = equalities(K.subst(a, m)), equalities(b)
        return b1 if a1 is equalities(K.subst(b1, m)) else K.cond(c, a1, b1)
    return K.cond(c, equalities(a), equalities(b))


@check('C19')
def memo(c):
    c.rule(VF)
    for d in ('same_solver', 'model_energies', 'two_solvers', 'two_queries', 'changed_result'):
        c.driver(DE[:-1], 'memo', 'drv_' + d, d, where=DE + 'Memoized.query', construct=['Memoized'], opaque=['constants_of', 'derivative_of', 'barrier_of', 'reverse_barrier_of'], domain=Fresh(), wrap=equalities, ob=d.replace('_', ' '))
    c.equiv(DE + 'make_hashable', 'memo', 'make_hashable', ob='hashable copies')
    g = Graph(c.repo)
    state(c, g)
    tables(c, g)
    equality(c, g)


CACHES = ('Memoized', 'lru_cache', 'functools.lru_cache', 'cache', 'functools.cache', 'cached_property', 'functools.cached_property')
ENERGIES = {'_relative_energies', '_absolute_energies', '_has_relative_energy', '_has_absolute_energy'}


def state(c, g):
    """What memoised functions read must be their arguments, declared parameters (which are set once), what only construction stores,
    or the energies of the model (which are part of the key); and they leave no state behind."""
    c.rule('a function whose results are kept reads, directly and through everything it enters, only its arguments, declared parameters, '
           'attributes stored in construction alone and, as part of the key, the energies of the model; it stores no attributes')
    inf = g.inf
    init = constructors(g)
    stores = {}
    for f in g.functions():
        for n, env in g.nodes(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores.setdefault(n.attr, []).append((f, n, inf.type(n.value, f, env)))
    kept = [f for f in g.functions() if any(d in CACHES for d in f.decorators)]
    c.count('memoised functions', len(kept))
    reads = nf = 0
    for f in kept:
        keyed = 'Memoized' in f.decorators
        bad = []
        seen = g.reach([f])
        nf += len(seen)
        for h in seen.values():
            for n, env in g.nodes(h):
                if not isinstance(n, ast.Attribute):
                    continue
                t = inf.type(n.value, h, env)
                ks = [x.cls for x in t or () if isinstance(x, Inst)]
                if not any(part(inf, k) for k in ks):
                    continue
                at = '%s:%s (line %d)' % (h.module.rel, h.qual, n.lineno)
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    if h.node not in init:
                        bad.append((at, 'stores %s, which a reused result does not' % ast.unparse(n)))
                    continue
                reads += 1
                if any(inf.method(k, n.attr) is not None for k in ks) or n.attr in ('__class__', '__dict__', '__name__'):
                    continue
                if any(n.attr in x.attrs and isinstance(x.attrs[n.attr], ast.Call) for k in ks for y in inf.classes(Inst(k, True)) for x in inf.mro(y)):
                    continue        # a declared parameter
                if keyed and n.attr in ENERGIES:
                    continue
                for w, m, wt in stores.get(n.attr, []):
                    if wt is not None and not any(isinstance(x, Inst) and related(inf, x.cls, k) for x in wt for k in ks):
                        continue
                    if n.attr.startswith('__') and w.cls is not h.cls:
                        continue
                    if w.node not in init:
                        bad.append((at, 'reads %s, which %s (line %d of %s) changes' % (ast.unparse(n), w.qual, m.lineno, w.module.rel)))
        for at, why in bad:
            c.violated('state of %s' % f.qual, at, why)
        if not bad:
            c.hold('state of %s' % f.qual, f.where, '%d functions entered' % len(seen))
    c.count('functions entered', nf)
    c.count('reads of solver and model state', reads)


def part(inf, k):
    return any(b.name in ('SolverBase', 'KineticModel', 'ModelShell') for b in inf.mro(k))


def related(inf, a, b):
    return a in inf.mro(b) or b in inf.mro(a)


def constructors(g):
    """functions that run in constructions only: __init__ and what is entered from these alone"""
    callers = {}
    for f in g.functions():
        for _, h in g.enters(f):
            callers.setdefault(h.node, set()).add(f.node)
    init = set(f.node for f in g.functions() if f.node.name == '__init__')
    private = {f.node for f in g.functions() if f.node.name.startswith('_')}
    while True:
        more = [n for n in callers if n not in init and n in private and callers[n] <= init]
        if not more:
            return init
        init |= set(more)


def tables(c, g):
    """A table or an attribute that a function fills to use it again is found again under all that its content depends on."""
    c.rule('what a function keeps in a table (or attribute) to use it again depends only on the key it is kept under: on no other parameter, '
           'and on the energies of the model only where the key does; keys tell different arguments apart')
    fs = list(g.functions())
    ts = stale(g, fs)
    n, nf = len(ts), len(fs)
    for f, node, name, why in ts:
        if why:
            c.violated('tables', '%s:%s (line %d)' % (f.module.rel, f.qual, node.lineno), why)
    c.count('functions searched for tables of results', nf)
    c.count('tables of results', n)
    c.hold('tables', 'scaks', '%d functions, %d tables' % (nf, n))


def equality(c, g):
    """Keys are equal only when their contents are."""
    c.rule('container classes whose instances serve as keys do not redefine equality by something that different contents share')
    n = 0
    for m in c.repo.modules.values():
        for k in m.classes.values():
            if not any(ast.unparse(b) in ('dict', 'list', 'tuple', 'OrderedDict') for b in k.node.bases) or '__hash__' not in k.methods:
                continue
            n += 1
            f = k.methods.get('__eq__')
            where = '%s:%s' % (m.rel, k.name)
            if f is None:
                c.hold('equality', where, 'inherited')
                continue
            why = lossy([x.value for x in ast.walk(f.node) if isinstance(x, ast.Return) and x.value is not None], Deps(f))
            me = f.node.args.args[0].arg
            hashed = any(isinstance(x, ast.Call) and (ast.unparse(x.func) in ('hash', 'id', 'len') or ast.unparse(x.func).endswith('.__hash__') or ast.unparse(x.func) in (me + '.keys', me + '.values')) for x in ast.walk(f.node))
            if why or hashed and not any(isinstance(x, ast.Call) and ast.unparse(x.func) in ('dict.__eq__', 'list.__eq__', 'dict', 'list') or isinstance(x, ast.Call) and ast.unparse(x.func).startswith('super') for x in ast.walk(f.node)):
                c.violated('equality', f.where, 'equality is decided by %s' % (why or 'hashes or parts'))
            else:
                c.undecided('equality', f.where, 'equality is redefined')
    c.count('classes of keys', n)


@check('C19')
def processes(c):
    """The processes of a kinetic Monte Carlo run are generated again when what they are made of has changed."""
    from engine import interp as I
    c.rule('wherever the query of processes returns those kept from an earlier query, what it has decided before implies that the definitions and the '
           'energies equal the ones kept with them; what is kept is what was compared, the energies (which are corrected in place) as a copy')
    where = 'scaks/solvers/kmc_solver.py:KMCSolver.processes'
    f = c.repo.func(where)
    it, tree = c.summary(f, c.config(opaque=['get_processes']), None, f.cls)
    c.functions.add(f.where)
    bad, unclear, snaps = [], [], set()

    def paths(t, facts):
        if t.op == 'ite':
            yield from paths(t.args[1], facts + [(t.args[0], True)])
            yield from paths(t.args[2], facts + [(t.args[0], False)])
        else:
            yield t, facts
    ends = list(paths(K.canon(it.outcome(tree)), []))
    heap = it.final_heap(tree)
    for t, facts in ends:
        v = t.args[0] if t.op == 'ret' else None
        if v is None or v.op in ('m', 'call') and v.args[0] == 'get_processes':
            continue
        if v.op != 'attr':
            unclear.append(K.show(v)[:100])
            continue
        for name in ('process_dicts', 'relative_energies'):
            eqs = [a for a, x in facts if x and a.op == 'eq' and any(y.op == 'attr' and y.args[1] == name for y in a.args)]
            kept = [y for a in eqs for y in a.args if not (y.op == 'attr' and y.args[1] == name) and y.op == 'attr' and y.args[0] is v.args[0]]
            if kept:
                snaps.add((name, kept[0]))
            else:
                bad.append(name)
    for name in sorted(set(bad)):
        c.violated('processes generated again', f.where, 'processes made before are returned without %s compared with what they were made of' % name)
    for name, k in sorted(snaps, key=str):
        for l in I.leaves(tree):
            if not any(x.op in ('m', 'call') and x.args[0] == 'get_processes' for x in K.subterms(it.D(l.val, l.st))):
                continue
            v = l.st.heap.get(k)
            vs = [x for x in I.leaf_terms(v) if x is not k] if v is not None else []
            if not vs:
                c.violated('processes generated again', f.where, 'what the processes were made of (%s) is not kept' % name)
            for x in vs:
                y = it.D(x, l.st)
                if not (y.op == 'attr' and y.args[1] == name):
                    c.violated('processes generated again', f.where, 'kept as %s: %s' % (name, K.show(y)[:100]))
                elif name == 'relative_energies' and x.op != 'loc':
                    c.violated('processes generated again', f.where, 'the energies are kept without a copy, and change with those of the model')
    if unclear:
        c.undecided('processes generated again', f.where, 'returns %s' % unclear[0])
    elif not any(r[0] == 'VIOLATED' and r[1] == 'processes generated again' for r in c.results):
        c.hold('processes generated again', f.where, '%d ends' % len(ends))
