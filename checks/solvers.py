"""Rates, rate constants, coverages: C08, C09, ..."""
from . import check
from .rxn import VF

SB = 'scaks/solvers/solver_base.py:SolverBase.'
RATE = ['get_kTST', 'get_kCT', 'get_TST_barrier_from_CT', 'get_molecular_mass']


@check('C08')
def tst(c):
    c.rule(VF)
    for cls in ('SteadyStateSolver', 'KMCSolver', None):
        c.equiv(SB + 'get_kTST', 'solver_base', 'kTST', self_class=cls, ob='Eyring law (%s)' % (cls or 'any solver'))
    c.equiv(SB + 'get_TST_barrier_from_CT', 'solver_base', 'barrier_of_rate', ob='inverse of the Eyring law')
    c.equiv(SB + 'get_rxn_rates_TST', 'solver_base', 'rates_TST', opaque=RATE, ob='forward and reverse constants, pressures')


@check('C09')
def ct(c):
    c.rule(VF)
    c.equiv(SB + 'get_kCT', 'solver_base', 'kCT', ob='kinetic gas flux law')
    c.equiv(SB + 'get_rxn_rates_CT', 'solver_base', 'rates_CT', opaque=RATE, ob='collision-theory rates of a reaction')
