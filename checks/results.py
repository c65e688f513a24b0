"""Archive and model runs: C25, C45."""
import ast

from engine import terms as K
from engine import interp as I
from engine import domain as DOM
from engine.terms import raw
from . import check
from .rxn import VF
from .parallel import events

MF = 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.'
SS = 'scaks/solvers/steady_state_solver.py:SteadyStateSolver.'
MK = 'scaks/models/micro_kinetic_model.py:MicroKineticModel.'
SOLVE = ['get_steady_state_cvgs', 'coarse_steady_state_cvgs', 'fsolve_steady_state_cvgs', 'solve_ode', 'hybrid_method']
QUERY = ['get_rates', 'get_tof', 'get_reversibilities', 'get_rate_constants', 'get_single_XRC']
KINDS = ('initial_guess', 'steady_state_coverages', 'steady_state_error', 'rates', 'net_rates', 'reversibilities', 'tofs')
PRODUCERS = [('get_rates', 'rates'), ('get_net_rates', 'net_rates'), ('get_reversibilities', 'reversibilities'), ('get_tof', 'tofs'),
             ('get_rates_by_sym', 'rates'), ('get_net_rates_by_sym', 'net_rates')]


@check('C25')
def archive(c):
    c.rule(VF)
    c.rule('writer/reader agreement: every producer stores what it returns, unconditionally and under its documented name; the run reads the file and the name that the writers use')
    c.equiv('scaks/__init__.py:ModelShell.archive_data', 'archive', 'archive_data', observe=('ret', 'heap', 'trace'), ob='archive writer')
    c.equiv(MK + 'data_file', 'archive', 'data_file', opaque=['rank', 'size'], ob='data file of the own process')
    for m, kind in PRODUCERS:
        producer(c, MF + m, kind)
    who_writes(c)
    reader(c)


def summary(c, target, self_class=None, limit=900000, **kw):
    """(outcome, final heap) of a function; why not, if it is too large"""
    f = c.repo.func(target)
    cfg = c.config(**kw)
    K.LIMIT[0] = K._counter[0] + limit
    cls = c.repo.cls(self_class) if self_class else f.cls
    DOM.SELF_SORT[0] = {v: k for k, v in DOM.CLASS.items()}.get(cls.name if cls is not None else None)
    try:
        it, tree = c.summary(f, cfg, None, cls)
        c.functions.add(f.where)
        c.functions |= it.inlined
        return K.canon(it.outcome(tree)), it.final_heap(tree)
    except (K.Budget, RecursionError) as e:
        return 'summary too large: %s' % e


def rets(t):
    if t.op == 'ite':
        return rets(t.args[1]) + rets(t.args[2])
    return [t.args[0]] if t.op == 'ret' else []


def same(a, b):
    if a is b:
        return True
    if a.op in ('tuple', 'cat') and b.op in ('tuple', 'cat', 'for', 'one'):
        a, b = [K.mk_cat([K.one(y) for y in x.args]) if x.op == 'tuple' else x for x in (a, b)]
    return a is b


def producer(c, target, kind):
    """what a query returns is archived, on every path that returns, under the documented name"""
    f = c.repo.func(target)
    ob = '%s archives its result as %r' % (f.name, kind)
    res = summary(c, target, 'SteadyStateSolver', effects=['archive_data'], opaque=['archive_data', 'get_rate_constants', 'get_rates', 'get_net_rates', 'get_rate_syms', 'get_net_rate_syms', 'get_subs_dict'], initattrs=False)
    if isinstance(res, str):
        return c.undecided(ob, f.where, res)
    r, heap = res
    vals = rets(r)
    evs = [(g, e) for g, e in events(K.trace_canon(heap.get(I.TRACE, K.EMPTY))) if e.args[0] != '?']
    if any(e.args[0] == '?' for g, e in events(K.trace_canon(heap.get(I.TRACE, K.EMPTY)))):
        return c.undecided(ob, f.where, 'unresolved event')
    mine = [(g, e) for g, e in evs if len(e.args) == 4 and K.canon(e.args[2]) is K.const(kind)]
    c.decide(bool(mine), ob, f.where, 'nothing is archived under that name; names: %s' % [K.show(e.args[2]) for g, e in evs])
    for g, e in evs:
        if e.args[2].op != 'str' or len(e.args) != 4:
            c.undecided(ob, f.where, 'computed name %s' % K.show(e.args[2]))
            continue
        name = e.args[2].args[0]
        c.decide(name == kind, ob, f.where, 'archives under %r' % name)
        v = K.canon(e.args[3])
        ok = any(same(v, K.canon(x)) for x in vals)
        if ok or not blocked(c, v):
            c.decide(ok, ob, f.where, 'archived value %s is not the result %s' % (K.show(v)[:300], [K.show(x)[:300] for x in vals]))
        else:
            c.undecided(ob, f.where, 'archived value %s' % K.show(v)[:300])
    for g, e in mine:
        # a guard may only separate the paths that return from those that raise
        live = K.canon(K.lift(lambda o: K.TRUE if o.op == 'ret' else K.FALSE, [r]))
        under = K.TRUE
        for cnd, val in g:
            under = K.land(under, cnd if val else K.lnot(cnd))
        miss = K.land(live, K.lnot(under))
        c.decide(miss is K.FALSE, ob, f.where, 'not archived when %s' % K.show(miss)[:300])


def blocked(c, v):
    from engine.compare import blockers
    return bool(blockers(v))


def who_writes(c):
    """only the archive writer touches the archive, and only results of the documented kinds are produced"""
    ob = 'the archive is only changed by its writer'
    for rel, m in sorted(c.repo.by_rel.items()):
        if rel.startswith('spec/'):
            continue
        for cls, fn in functions(m.tree):
            w = '%s:%s%s' % (rel, cls + '.' if cls else '', fn.name)
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and x.attr == '_archived_data_dict' and not isinstance(x.ctx, ast.Load):
                    c.count('archive_stores')
                    c.decide(cls == 'ModelShell', ob, w, 'line %d stores the archive' % x.lineno)
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == '_archived_data_dict' and not isinstance(x.ctx, ast.Load):
                    c.count('archive_stores')
                    c.decide(cls == 'ModelShell', ob, w, 'line %d changes the archive' % x.lineno)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'archive_data':
                    c.count('archive_calls')
                    if x.args and isinstance(x.args[0], ast.Constant):
                        c.decide(x.args[0].value in KINDS, 'results are archived under documented names', w, 'line %d: %r' % (x.lineno, x.args[0].value))


    seen = set(x.args[0].value for m in c.repo.modules.values() for x in ast.walk(m.tree)
               if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'archive_data' and x.args and isinstance(x.args[0], ast.Constant))
    computed = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'archive_data' and x.args and not isinstance(x.args[0], ast.Constant)
                   for m in c.repo.modules.values() for cls, fn in functions(m.tree) if fn.name != 'get_single_XRC' for x in ast.walk(fn))
    for k in KINDS:
        if k in seen or not computed:
            c.decide(k in seen, 'every documented kind of result is archived somewhere', 'scaks', 'no archive_data(%r, ...)' % k)


def functions(tree):
    for s in ast.walk(tree):
        if isinstance(s, ast.ClassDef):
            for x in s.body:
                if isinstance(x, ast.FunctionDef):
                    yield s.name, x
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            yield None, x


def reader(c):
    """what the run looks up is a kind that is archived by default, in the file the writer writes"""
    ob = 'a run finds the archived coverages'
    f = c.repo.func(MK + 'run')
    res = summary(c, MK + 'run', None, opaque=SOLVE + QUERY + ['data_file'])
    if isinstance(res, str):
        return c.undecided(ob, f.where, res)
    r, heap = res
    seen = False
    for t in heap.values():
        for x in K.subterms(t):
            if x.op == 'idx' and x.args[0].op == 'call' and str(x.args[0].args[0]).endswith('load'):
                seen = True
                c.decide(x.args[1] is K.const('steady_state_coverages'), ob, f.where, 'looks up %s' % K.show(x.args[1]))
                files = [y for y in K.subterms(x.args[0]) if y.op == 'file']
                for y in files:
                    c.decide(y.args[0].op == 'attr' and y.args[0].args[1] == 'data_file', ob, f.where, 'reads the file %s' % K.show(y.args[0])[:300])
    if not seen:
        c.violated(ob, f.where, 'the archive is never read')
    cls = c.repo.cls('MicroKineticModel')
    ca = c.repo.find_attr(cls, 'archived_variables')
    if ca is None:
        return c.undecided(ob, MK, 'archived_variables is not a class attribute')
    d = [k.value for k in ca[0].keywords if k.arg == 'default'] if isinstance(ca[0], ast.Call) else []
    try:
        val = ast.literal_eval(d[0])
        c.decide('steady_state_coverages' in val and all(v in KINDS for v in val), 'coverages are archived by default', MK + 'archived_variables', 'default %r' % (val,))
    except (IndexError, ValueError):
        c.undecided('coverages are archived by default', MK + 'archived_variables', 'default not literal')


@check('C45')
def run(c):
    c.rule(VF)
    c.rule('the error is read from the solver after the solution is computed and before anything else is solved (order of the events)')
    q = SOLVE + QUERY
    c.equiv(MK + 'run', 'archive', 'run', observe=('ret', 'heap'), opaque=q, ob='published results of a run')
    c.equiv(MK + 'run', 'archive', 'run', observe=('trace',), opaque=q, effects=SOLVE, watch=['error'], ob='order of solving and reading the error')
    c.equiv(MK + 'run', 'archive', 'run', observe=('trace',), opaque=q, effects=SOLVE + ['get_single_XRC'], watch=['error'], ob='rate control after solving')
    c.equiv(SS + 'fsolve_steady_state_cvgs', 'archive', 'fsolve_steady_state_cvgs', observe=('ret', 'heap'), opaque=['coarse_steady_state_cvgs', 'get_residual'], ob='low precision solution')
    c.equiv(SS + 'get_residual', 'archive', 'get_residual', opaque=['steady_state_function'], ob='residual')
    for p in ('steady_state_coverages', 'TOFs', 'reversibilities', 'error', 'model_info'):
        c.equiv(MK + p, 'archive', p, ob='published ' + p)
