"""Generated scripts and pictures: C47, C48."""
from engine import terms as K
from engine.domain import Domain
from engine.terms import raw, subterms
from . import check
from .rxn import VF

KS = 'scaks/solvers/kmc_solver.py:KMCSolver.'
EP = 'scaks/plotters/energy_profile_plotter.py:EnergyProfilePlotter.'
P0, P2 = raw('var', 'p0'), raw('var', 'p2')
ALL = ('ret', 'heap', 'trace')


@check('C47')
def scripts(c):
    c.rule(VF)
    rel = KS.split(':')[0]
    kw = dict(observe=ALL, effects=['write', 'open'], objects={raw('var', 'p0'): 'KMCSolver'})
    for n in ('lattice_model', 'configuration', 'interactions'):
        c.driver(rel, 'scripts', 'ask_' + n, 'scripted', where=KS + 'script_' + n, ob='script of ' + n, **kw)
    c.driver(rel, 'scripts', 'ask_processes', 'processes', where=KS + 'script_processes', ob='script of processes', **kw)


@check('C48')
def profiles(c):
    c.rule(VF)
    c.equiv(EP + 'plot_all', 'scripts', 'plot_all', observe=ALL, effects=['mkdir', 'EPCanvas', 'add_line', 'draw', 'savefig'], ob='energy profiles')


class Values(Domain):
    """the function has as many values at every point"""

    def length(self, t):
        if t.op in ('poly', 'idx', 'm', 'tuple', 'callv'):
            made = [x for x in subterms(t) if x.op == 'callv' and x.args[-1].op == 'callv' and x.args[-1].args[0] in (P0, P2)]
            plain = [x for x in made if not any(y.op in ('aug', 'upd', 'fold') for y in subterms(x))]
            if made and plain and t is not plain[0]:
                return raw('len', plain[0])
        return Domain.length(self, t)


def entries_set(t):
    """an entry of a vector that is increased is set to the sum"""
    memo = {}

    def arg(a):
        return go(a) if type(a) is K.T else tuple(arg(b) for b in a) if type(a) is tuple else a

    def go(x):
        if x not in memo:
            if x.op in K.BINDERS:
                v, bodies = K.open_binder(x)
                r = K.mkb(x.op, go(x.args[0]), v, *[go(b) for b in bodies])
            else:
                r = K.mk(x.op, *[arg(a) for a in x.args]) if any(isinstance(a, (K.T, tuple)) for a in x.args) else x
            if r.op == 'aug' and r.args[0].op in ('var', 'call', 'callv', 'm'):
                r = raw('upd', r.args[0], raw('one', raw('pair', r.args[1], K.add(K.mk('idx', r.args[0], r.args[1]), r.args[2]))))
            memo[x] = r
        return memo[x]
    return K.canon(go(t))


@check('C49')
def jacobian(c):
    c.rule(VF)
    rel = 'scaks/functions.py'
    for n in ('gmpy_left', 'gmpy_right', 'mpmath_left', 'mpmath_right'):
        c.driver(rel, 'scripts', n, 'ref_' + n, where=rel + ':numerical_jacobian', observe=('ret', 'heap'), wrap=entries_set, domain=Values(), ob='difference quotients (%s)' % n.replace('_', ', '))
    c.equiv('scaks/solvers/mean_field_solver.py:MeanFieldSolver.classified_numerical_jacobian', 'scripts', 'classified_quotients', observe=('ret', 'heap'), wrap=entries_set, ob='classified quotients')


RX = 'scaks/parsers/rxn_parser.py:'
MF = 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.'


@check('C50')
def latex(c):
    c.rule(VF)
    c.equiv(RX + 'RxnEquation.texen', 'scripts', 'rxn_tex', opaque=['tolist'], ob='reactions')
    c.equiv(RX + 'ChemState.texen', 'scripts', 'state_tex', opaque=['tolist'], ob='states')
    c.equiv(RX + 'ChemFormula.texen', 'scripts', 'formula_tex', ob='formulas')
    c.equiv(MF + 'get_latex_strs', 'scripts', 'latex_strs', ob='lines of equations')
    c.equiv(MF + 'log_latex', 'scripts', 'log_latex', observe=ALL, opaque=['write2file'], effects=['write2file'], ob='lines written')
    c.equiv('scaks/__init__.py:ModelShell.write2file', 'scripts', 'write2file', observe=ALL, effects=['write', 'open'], ob='appending to a file')


KM = 'scaks/models/kinetic_model.py'


@check('C51')
def components(c):
    c.rule(VF)
    me = KM + ':KineticModel.'
    for n in ('solver', 'corrector', 'plotter'):
        c.equiv(me + 'set_' + n, 'scripts', 'set_' + n, observe=ALL, effects=['setattr'], ob='setting the ' + n)
    for n, r in (('kB', 'kB'), ('h', 'h'), ('has_relative_energy', 'unset'), ('has_absolute_energy', 'unset')):
        c.equiv(me + n, 'scripts', r, initattrs=True, ob='new model: ' + n)
    c.driver(KM, 'scripts', 'drv_names', 'the_names', where=me + '_load', opaque=['parse_elementary_rxns'], ob='names of species', objects={raw('var', 'p0'): 'KineticModel'})
    for rel, name, ref, k in (('scaks/solvers/steady_state_solver.py', 'steady', 'the_steady', 'SteadyStateSolver'), ('scaks/solvers/kmc_solver.py', 'kmc_solver', 'the_kmc_solver', 'KMCSolver'),
                              ('scaks/parsers/relative_energy_parser.py', 'relative', 'the_parser', 'RelativeEnergyParser'), ('scaks/parsers/absolute_energy_parser.py', 'absolute', 'the_parser', 'AbsoluteEnergyParser'),
                              ('scaks/parsers/kmc_parser.py', 'kmc_parser', 'the_parser', 'KMCParser'), ('scaks/correctors/thermodynamic_corrector.py', 'thermo', 'the_owner', 'ThermodynamicCorrector'),
                              ('scaks/plotters/energy_profile_plotter.py', 'profile', 'the_owner', 'EnergyProfilePlotter')):
        c.driver(rel, 'scripts', 'drv_' + name, ref, where='%s:%s.__init__' % (rel, k), construct=[k], observe=ALL, ob='owner of a new ' + k)
    c.driver(MF.split(':')[0], 'scripts', 'drv_data', 'the_data', where=MF + 'get_data', ob='pressures and concentrations', objects={raw('var', 'p0'): 'SteadyStateSolver'})
    for n in ('process_dicts', 'configuration', 'sitesmap'):
        c.equiv('scaks/models/kmc_model.py:KMCModel.' + n, 'scripts', n, ob='query: ' + n)
