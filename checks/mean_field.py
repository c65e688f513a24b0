"""Mean-field kinetics: C11, C13, C15, C17, C39."""
import ast

from engine import terms as K
from engine.domain import Domain
from engine.graph import Graph
from engine.infer import Inst
from engine.repo import Func
from . import check
from .rxn import VF

MF = 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.'
SS = 'scaks/solvers/steady_state_solver.py:SteadyStateSolver.'
DATA = 'attributes of the solver that only one initialising method assigns have the value it gives them; reaction expressions of a mechanism are distinct'


@check('C11')
def mass_action(c):
    c.rule(VF)
    c.assumptions.append(DATA)
    for cls in (None, 'SteadyStateSolver'):
        c.equiv(MF + 'get_rates', 'mean_field', 'rates', self_class=cls, initattrs=True, opaque=['get_rate_constants'], ob='mass action rates (%s)' % (cls or 'base'))


@check('C13')
def derivatives(c):
    c.rule(VF)
    c.assumptions.append(DATA)
    c.equiv(SS + 'steady_state_function', 'mean_field', 'dtheta_dt', initattrs=True, opaque=['get_rate_constants'], limit=6000000, ob='coverage derivatives')


@check('C15')
def sites(c):
    c.rule(VF)
    c.assumptions.append(DATA)
    for cls in (None, 'SteadyStateSolver'):
        c.equiv(MF + '_cvg_tuple2dict', 'mean_field', 'theta_of', self_class=cls, initattrs=True, ob='coverages by name (%s)' % (cls or 'base'))
        c.equiv(MF + '_cvg_dict2tuple', 'mean_field', 'tuple_of', self_class=cls, initattrs=True, ob='coverages by position (%s)' % (cls or 'base'))
    c.equiv(MF + 'classified_adsorbates', 'mean_field', 'classify', initattrs=True, ob='adsorbates by site')


@check('C17')
def turnover(c):
    c.rule(VF)
    c.equiv(MF + 'get_net_rates', 'mean_field', 'net_rates', opaque=['get_rates'], ob='net rates')
    c.equiv(MF + 'get_reversibilities', 'mean_field', 'reversibilities', ob='reversibilities')
    c.equiv(MF + 'get_tof', 'mean_field', 'tof', opaque=['get_net_rates'], ob='turnover frequencies')


@check('C39')
def boltzmann(c):
    c.rule(VF)
    for cls in (None, 'SteadyStateSolver'):
        c.equiv(MF + 'boltzmann_coverages', 'mean_field', 'boltzmann', self_class=cls, initattrs=True, ob='Boltzmann weights (%s)' % (cls or 'base'))


@check('C21')
def xrc(c):
    c.rule(VF)
    c.equiv(SS + 'get_single_XRC', 'mean_field', 'xrc', opaque=['get_tof', 'get_rate_constants', 'get_steady_state_cvgs'], ob='degree of rate control')
    intact(c)


class Solved(Domain):
    """a solver that holds a solution"""

    def __init__(self, attrs):
        Domain.__init__(self)
        self.attrs = attrs

    def rewrite(self, t):
        if t.op == 'hasattr' and t.args[0].op == 'var' and t.args[1] in self.attrs:
            return K.TRUE
        return Domain.rewrite(self, t)


def intact(c):
    """What solving with shifted energies stores in the solver is as before when the analysis returns."""
    c.rule('solving stores attributes and archived data; after the analysis each of them has the value it had, or that of the unshifted energies')
    g = Graph(c.repo)
    f = c.repo.func(SS + 'get_single_XRC')
    sm = c.spec('mean_field', f.module)
    attrs, data = [], {}
    steps = {'get_steady_state_cvgs': 'c0=None, single_pt=False, relative_energies=None', 'get_tof': 'cvgs, relative_energies=None, gas_name=None'}
    for m in steps:
        data[m] = []
        seen = g.reach([c.repo.func((SS if m[4] == 's' else MF) + m)])
        for h in seen.values():
            c.functions.add(h.where)
            for n, env in g.nodes(h):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr not in attrs:
                    t = [x.cls for x in g.inf.type(n.value, h, env) or () if isinstance(x, Inst)]
                    if any(k.name in ('SolverBase', 'MeanFieldSolver', 'SteadyStateSolver') for k in t) and read_after(n.attr, h, seen, g):
                        attrs.append(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'archive_data' and n.args and isinstance(n.args[0], ast.Constant):
                    data[m].append(n.args[0].value)
    c.count('attributes stored by solving', len(attrs))
    c.count('data archived by solving', sum(map(len, data.values())))
    models = {}
    for m, params in steps.items():
        body = ['def %s(self, %s):' % (m, params)]
        at = '%s, relative_energies' % ('c0' if m[4] == 's' else 'cvgs')
        if m[4] == 's':
            body += ['    self.%s = self.stored_by_solving("%s", %s)' % (a, a, at) for a in attrs]
        body += ['    self.archive_data("%s", self.archived_by_solving("%s", %s))' % (n, n, at) for n in data[m]]
        body += ['    return self.result_of("%s", %s)' % (m, at)]
        models[m] = Func(ast.parse('\n'.join(body)).body[0], sm, None)
    models['archive_data'] = Func(sm.spec_functions['archives'].node, sm, None)
    cfg = c.config(opaque=['get_rate_constants', 'stored_by_solving', 'archived_by_solving', 'result_of'], domain=Solved(attrs), contracts=models)
    ob = 'the solution is intact'
    try:
        it, tree = c.summary(f, cfg)
        heap = it.final_heap(tree)
        r = it.outcome(tree)
    except K.Budget as e:
        c.undecided(ob, f.where, str(e))
        return
    me = K.raw('var', 'self')
    if 'stored_by_solving' not in {str(a) for t in [r] + list(heap.values()) for x in K.subterms(t) for a in x.args if type(a) is str} \
            and 'result_of' not in K.show(r, 60):
        c.undecided(ob, f.where, 'no solving for shifted energies found')
        return
    if any(k.op == 'attr' and k.args[1] == '__dict__' for k in heap):
        c.undecided(ob, f.where, 'attributes are changed under names that are not resolved')
        return
    for a in attrs + ['_archived_data_dict']:
        for k, v in heap.items():
            if k.op == 'attr' and k.args[0] is me and k.args[1] == a and not unshifted(v, k):
                c.violated(ob, f.where, '%s is left as solving with shifted energies stored it: %s' % (K.show(k), K.show(v)[:300]))
                break
        else:
            c.hold(ob, f.where, a)


def read_after(name, f, seen, g):
    """is the attribute read by anything but the functions that store it, and what they enter"""
    for h in g.functions():
        if h.node not in seen and (not name.startswith('__') or h.module is f.module) and \
                any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load) for n in ast.walk(h.node)):
            return True
    return False


def shifted(t):
    """does t hold what was stored when energies had been changed"""
    for x in K.subterms(t):
        if x.op == 'm' and x.args[0] in ('stored_by_solving', 'archived_by_solving', 'result_of') and any(y.op in ('aug', 'augs', 'upd') for a in x.args[1:] if type(a) is K.T for y in K.subterms(a)):
            return True
    return False


def unshifted(v, k):
    """v holds values of the unshifted energies only, put back where others had been stored"""
    if not shifted(v):
        return True
    if v.op == 'ite':
        return unshifted(v.args[1], k) and unshifted(v.args[2], k)
    if v.op == 'fold':
        b = v.args[2]
        return unshifted(b.args[int(v.args[3].args[0])] if b.op == 'tuple' and v.args[3].op == 'num' else b, k)
    if v.op == 'upd':
        p = v.args[1]
        p = p.args[-1] if p.op == 'cat' else p
        return restores(p)
    return False


def restores(p):
    """every entry of a dictionary is put back"""
    if p.op == 'ite':
        return restores(p.args[1]) and restores(p.args[2])
    if p.op != 'for':
        return False
    v, (b,) = K.open_binder(p)
    if b.op == 'cat':
        b = b.args[-1]
    if b.op == 'for':
        return restores(b)
    if b.op != 'one' or b.args[0].op != 'pair' or p.args[0].op != 'len':
        return False
    x = p.args[0].args[0]
    key, val = b.args[0].args
    return not shifted(x) and key is K.raw('idx', x, v) and val is K.raw('idx', x, key)


class Classes(Domain):
    """every adsorbate belongs to one kind of site (C15)"""

    def partition(self, x):
        """the keys of the dictionary, for the one that gives the names of each kind of site"""
        if x.op == 'attr' and x.args[1] in ('_classified_adsorbates', 'classified_adsorbates'):
            return K.mk('attr', K.mk('attr', x.args[0], '_owner'), 'site_names')

    def rewrite(self, t):
        if t.op == 'm' and t.args[0] in ('classof', 'posof') and t.args[2].op == 'idx':
            x = t.args[2].args[0]
            if x.op == 'idx' and x.args[0] is t.args[1] and x.args[1].op == 'idx':
                return x.args[1].args[1] if t.args[0] == 'classof' else t.args[2].args[1]
        return Domain.rewrite(self, t)

    def positive(self, x):
        return x.op == 'idx' and x.args[1].op == 'str' and x.args[1].args[0] == 'total'


@check('C16')
def constrained(c):
    c.rule(VF)
    c.assumptions.append(DATA)
    c.equiv(SS + '__constrain_coverages', 'mean_field', 'constrained', domain=Classes(), ob='constrained coverages')
