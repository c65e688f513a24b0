"""Symbolic evaluation: C12."""
from engine import symbolic as S
from engine import terms as K
from engine.domain import Domain, NAME_LISTS
from engine.repo import Func
from . import check
from .rxn import VF

MF = 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.'


class Algebra(Domain):
    """the symbolic algebra is interpreted"""
    symbolic = True
    vocabulary = ('sympy.Symbol',)

    def shape(self, x):
        """rows and columns of a matrix that is not built here"""
        if x.op == 'idx' and x.args[0].op == 'm' and x.args[0].args[0] == 'get_stoichiometry_matrices':
            o = K.raw('attr', K.raw('var', 'self'), '_owner')
            return [K.length(K.raw('attr', o, 'rxn_expressions')), K.length(K.raw('attr', o, 'gas_names' if x.args[1] is K.ONE else 'adsorbate_names'))]

    def contains(self, x, s):
        if x.op == 'm' and x.args[0] == 'species_site' and s.op == 'attr' and s.args[1] in NAME_LISTS:
            return K.TRUE       # of the species of a reaction, in the list of its kind
        return Domain.contains(self, x, s)

    def nonempty(self, t):
        """coverages are given"""
        return t.op == 'var' and t.args[0] == 'p0'


@check('C12')
def symbolic(c):
    c.rule(VF)
    kw = dict(self_class='SteadyStateSolver', initattrs=True, domain=Algebra(), limit=4000000)
    c.equiv(MF + 'get_rate_constants_by_sym', 'mean_field', 'rate_constants_by_sym', ob='rate constants', **kw)
    c.equiv(MF + 'get_rates_by_sym', 'mean_field', 'rates_by_sym', ob='rates', **kw)
    c.equiv(MF + 'get_net_rates_by_sym', 'mean_field', 'net_rates_by_sym', ob='net rates', **kw)
    c.equiv(MF + 'get_tof_by_sym', 'mean_field', 'tof_by_sym', ob='turnover frequencies', **kw)
    for f, ref, ob in (('get_rate_constant_syms', 'rate_constant_syms', 'rate constant expressions'), ('get_equilibrium_constant_syms', 'equilibrium_constant_syms', 'equilibrium constant expressions'),
                       ('get_elementary_rate_sym', 'elementary_rate_sym', 'rate expressions of a reaction'), ('get_rate_syms', 'rate_syms', 'rate expressions'),
                       ('get_net_rate_syms', 'net_rate_syms', 'net rate expressions'), ('get_tof_syms', 'tof_syms', 'turnover frequency expressions')):
        c.equiv(MF + f, 'mean_field', ref, ob=ob, **kw)
    distinct(c)
    uses(c, 'drv_assigned', 'assigned', 'substituted values', MF + 'get_subs_dict', kw)
    uses(c, 'drv_assigned_without', 'assigned_without', 'substituted values without coverages', MF + 'get_subs_dict', kw)


def distinct(c):
    """symbols of different kinds have different names"""
    c.rule('symbols are named by a text for their kind and the name or number of what they stand for; no two kinds share the text')
    me = K.raw('var', 'self')
    f = c.repo.func(MF + 'get_data_symbols')
    cfg = c.config(initattrs=True, domain=Algebra())
    it, tree = c.summary(f, cfg, None, c.repo.cls('SteadyStateSolver'))
    c.functions.add(f.where)
    seen = {}
    ob = 'names of symbols'
    for a in ('_Ga_sym', '_dG_sym', '_p_sym', '_c_sym', '_ads_theta_sym', '_kB_sym', '_h_sym', '_T_sym'):
        v = it.final_heap(tree).get(K.raw('attr', me, a))
        if v is None:
            v = it.attr_def(c.repo.cls('SteadyStateSolver'), me, a)
        if v is not None and v.op == 'for':
            v = K.index(v, K.fresh())
        k = S.family(v) if v is not None and S.is_symbol(v) else None
        c.count('kinds of symbols', 1)
        if k is None:
            c.undecided(ob, f.where, '%s: %s' % (a, K.show(v) if v is not None else 'not found'))
        elif k in seen and seen[k].args[2:] == v.args[2:]:
            c.violated(ob, f.where, 'symbols of %s have the names of those of another kind: %s' % (a, K.show(v)))
        else:
            seen[k] = v
            c.hold(ob, f.where, a)


def uses(c, driver, reference, ob, target, kw):
    """a use of the solver, written with the reference, gives what the reference gives"""
    f = c.repo.func(target)
    cls = c.repo.cls('SteadyStateSolver')
    sm = c.spec('mean_field', f.module)
    kw = {k: v for k, v in kw.items() if k not in ('self_class', 'limit')}
    c._equiv(Func(sm.spec_functions[driver].node, sm, cls), Func(sm.spec_functions[reference].node, sm, cls), cls, ob, f.where, ('ret',), None, (), 4000000, None, kw)
