"""Tables of results in the log: C52."""
from engine import terms as K
from engine.domain import Domain
from . import check
from .rxn import VF

MF = 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.'
SS = 'scaks/solvers/steady_state_solver.py:SteadyStateSolver.'
TABLES = ((MF + '__log_reversibilities', 'reversibilities', 'reversibilities'), (MF + '__log_tof', 'tof', 'turnover frequencies'), (MF + '__log_rates', 'rates_table', 'rates and rate constants'),
          (SS + '__log_sscvg', 'sscvg', 'coverages'), (SS + '__log_single_XTRC', 'single_xtrc', 'rate control of one gas by species'), (SS + '__log_XTRC', 'xtrc', 'rate control by species'),
          (SS + '__log_single_XRC', 'single_xrc', 'rate control of one gas by reaction'))

OWNER = K.raw('attr', K.raw('var', 'self'), '_owner')
P0, P1 = K.raw('var', 'p0'), K.raw('var', 'p1')


class Results(Domain):
    """one value for each reaction, species or gas"""
    def __init__(self, *of, inner=()):
        Domain.__init__(self)
        self.of, self.inner = of, inner

    def total(self, names):
        r = K.ZERO
        for n in names:
            r = K.add(r, K.length(K.raw('attr', OWNER, n)))
        return r

    def length(self, t):
        if t is P0 and self.of:
            return self.total(self.of)
        if t is P1 and self.of == ('rxn_expressions',):
            return self.total(self.of)
        if t.op == 'idx' and t.args[0] is P0 and self.inner:
            return self.total(self.inner)
        if t.op == 'zip':
            ls = [K.length(x) for x in t.args]
            if all(x is ls[0] for x in ls):
                return ls[0]
        return Domain.length(self, t)


SPECIES = ('adsorbate_names', 'transition_state_names')
SIZES = {'reversibilities': Results('rxn_expressions'), 'rates_table': Results('rxn_expressions'), 'single_xrc': Results('rxn_expressions'), 'single_xtrc': Results(*SPECIES),
         'xtrc': Results('gas_names', inner=SPECIES)}


@check('C52')
def tables(c):
    c.rule(VF)
    for f, ref, ob in TABLES:
        c.equiv(f, 'logtables', ref, observe=('ret', 'trace'), effects=['info'], self_class='SteadyStateSolver', domain=SIZES.get(ref, Domain()), ob='table of ' + ob)
    for f, ref, log, opaque in (('get_rate_constants', 'told_constants', '__log_rates', ['get_rxn_rates_TST', 'get_rxn_rates_CT']), ('get_reversibilities', 'told_reversibilities', '__log_reversibilities', []),
                                ('get_tof', 'told_tof', '__log_tof', ['get_net_rates'])):
        c.equiv(MF + f, 'logtables', ref, observe=('trace',), effects=[log], opaque=[log, 'archive_data'] + opaque, needs=[log], ob='what %s reports' % f)
    c.equiv(MF + 'get_rates', 'logtables', 'told_rates', observe=('trace',), effects=['__log_rates'], opaque=['__log_rates', 'archive_data', 'get_rate_constants'], needs=['__log_rates'], self_class='SteadyStateSolver',
            initattrs=True, ob='what get_rates reports')
