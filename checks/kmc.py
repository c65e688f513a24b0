"""Kinetic Monte Carlo: C28-C34."""
import subprocess

from engine import terms as K
from engine import interp as I
from engine.cxx import CxxModule, Rounded, Unsupported
from engine.domain import Domain
from engine.terms import raw, num
from . import check
from .parallel import paths
from .rxn import VF

CXX = 'c++/src/kmc_functions.cpp'
PL = 'scaks/solvers/kmc_plugins/'
PLUGINS = [('coverages', PL + 'coverages_analysis.py:CoveragesAnalysis.'),
           ('frequency', PL + 'frequency_analysis.py:FrequencyAnalysis.'),
           ('tof', PL + 'tof_analysis.py:TOFAnalysis.'),
           ('event', PL + 'event_analysis.py:EventAnalysis.')]
TEXT = ['get_list_string', 'get_dict_string', 'collect_coverages']
ALL = ('ret', 'heap', 'trace')


# lists that every sampling step extends together (shown by the obligations on all methods of the analysis)
PEERS = {'__steps': '__times', '__coverages': '__times', '__tofs': '__times'}


COUNTERS = ('__process_occurencies', '__steady_process_occurencies', '__occurencies')


def together():
    """lengths: series of one analysis; one counter and one reaction per process; three directions"""
    def length(s):
        if s.op == 'attr' and s.args[1] in PEERS:
            return raw('len', raw('attr', s.args[0], PEERS[s.args[1]]))
        if s.op == 'attr' and s.args[1] in COUNTERS + ('process_mapping', 'processes') or s.op == 'm' and s.args[0] in ('processAvailableSites', 'processRates'):
            return raw('len', raw('attr', raw('attr', raw('var', 'self'), '__kmc_model'), 'processes'))
        if s.op == 'attr' and s.args[1] == 'repetitions':
            return num(3)
        return old(s)
    d = Domain()
    old = d.length
    d.length = length
    d.vocabulary = ['processAvailableSites', 'processRates']
    return d


def plugin(c, kind, methods):
    for name, path in PLUGINS:
        if name in kind:
            for m, s in methods:
                c.equiv(path + m, 'kmc_plugins', name + '_' + s, observe=ALL, opaque=TEXT, effects=['add_row'], domain=together(), ob='%s analysis: %s' % (name, s))


@check('C29')
def samples(c):
    c.rule(VF)
    plugin(c, ('coverages', 'frequency', 'tof', 'event'), (('__init__', 'init'), ('setup', 'setup'), ('registerStep', 'step'), ('finalize', 'finalize')))
    c.equiv('scaks/solvers/steady_state_solver.py:SteadyStateSolver.__ode_flush', 'kmc_plugins', 'ode_flush', observe=ALL, opaque=TEXT, ob='chunk of a trajectory')
    c.equiv(FU + 'get_list_string', 'kmc_plugins', 'list_text', ob='text of a list')
    c.equiv(FU + 'get_dict_string', 'kmc_plugins', 'dict_text', ob='text of a table')


def collecting():
    """the listed types differ from one another; positions are not negative"""
    types, listed, ratios = (raw('var', 'p%d' % i) for i in range(3))

    def entries(t):
        if t.op == 'idx' and t.args[0].op in ('acc', 'augs'):
            # what has been added up under one key, or at one place
            u = K.units_at(t.args[0].args[1], t.args[1])
            if u is not None and t.args[0].args[0].op in ('dict', 'for'):
                return K.add(K.ZERO if t.args[0].args[0].args[0] is K.EMPTY else K.mk('idx', t.args[0].args[0], t.args[1]), u)
        if t.op == 'idx' and t.args[0].op == 'dict' and t.args[0].args[0].op == 'for':
            # the entry of a table keyed by the listed types
            v, (b,) = K.open_binder(t.args[0].args[0])
            if b.op == 'one' and b.args[0].op == 'pair' and b.args[0].args[0] is K.index(listed, v):
                return K.subst(b.args[0].args[1], {v: K.mk('m', 'index', listed, t.args[1])})
        return None
    d = Domain(sequences=[types, listed, ratios], extra=entries)
    d.distinct = (listed,)
    d.entrywise = True
    d.blocks = lambda n: n.args[0] is raw('len', types)
    d.nonneg = lambda t: t.op in ('v', 'bv') or K.is_num(t) and t.args[0] >= 0 and t.args[0].denominator == 1
    return d


@check('C32')
def collectors(c):
    c.rule(VF)
    c.assumptions.append('the listed types differ from one another; there are as many lattice points as cells times basis sites')
    c.equiv(PL + 'kmc_functions.py:collect_coverages', 'kmc_plugins', 'collector', domain=collecting(), ob='interpreted collector')
    try:
        m = CxxModule(c.repo.root, CXX, 'c++/include')
    except Rounded as e:
        return c.violated('compiled collector', CXX, str(e))
    except (Unsupported, OSError, subprocess.SubprocessError) as e:
        return c.undecided('compiled collector', CXX, 'not read: %s' % e)
    c.repo.by_rel[CXX] = m
    c.rule('the C++ collector, read through clang\'s syntax tree and restated with vectors as lists and iterators as positions, has the same normal form')
    c.equiv(CXX + ':collect_coverages', 'kmc_plugins', 'collector', domain=collecting(), ob='compiled collector')


@check('C33')
def statistics(c):
    c.rule(VF)
    plugin(c, ('coverages', 'frequency', 'tof', 'event'), (('__init__', 'init'), ('registerStep', 'step')))
    plugin(c, ('frequency',), (('finalize', 'finalize'),))


FU = 'scaks/utilities/format_utilities.py:'
KS = 'scaks/solvers/kmc_solver.py:KMCSolver.'
KP = 'scaks/parsers/kmc_parser.py:KMCParser.'
CU = 'scaks/utilities/check_utilities.py:'


@check('C30')
def pairs(c):
    c.rule(VF)
    c.equiv(KS + 'get_processes', 'kmc_solver', 'processes', observe=ALL, opaque=['get_rxn_rates_CT', 'get_rxn_rates_TST', 'check_process_dict'], ob='processes and labels')
    c.rule('order of reads: on every path of a run of the model, the labels are read from the solver after the processes whose generation makes them')
    where = 'scaks/models/kmc_model.py:KMCModel.run'
    f = c.repo.func(where)
    it, tree = c.summary(f, c.config(opaque=['processes', 'process_mapping', 'run'], effects=['run'], watch=('processes', 'process_mapping'), domain=one_solver()), None, f.cls)
    c.functions.add(f.where)
    tr = K.trace_canon(it.final_heap(tree).get(I.TRACE, K.EMPTY))
    for guards, path in paths(tr):
        names = [(e.args[0], one_solver().rewrite(e.args[1]) or e.args[1]) for e in path if e.args[0] in ('read processes', 'read process_mapping')]
        for i, (n, b) in enumerate(names):
            if n == 'read process_mapping' and b.op == 'attr' and b.args[1] in ('solver', '__solver'):
                c.decide(('read processes', b) in names[:i], 'labels read after their processes', f.where, 'reads in order: %s' % ', '.join('%s of %s' % (m[5:], K.show(x)) for m, x in names))


@check('C31')
def gates(c):
    c.rule(VF)
    kw = dict(contracts={'check_sequence': 'sequence_contract', 'check_process_coordinates': 'coordinates_contract'}, opaque=['is_sequence', 'all_differ'])
    for f, s in (('check_sequence', 'sequence'), ('check_string', 'string'), ('check_species_definitions', 'species'), ('check_ref_energies', 'energies'),
                 ('check_analysis_interval', 'interval'), ('check_process_coordinates', 'coordinates'), ('check_process_dict', 'process')):
        c.equiv(CU + f, 'kmc_solver', s, ob='accepted input: ' + s, **(kw if s == 'process' else {}))
    c.equiv(KS + 'get_processes', 'kmc_solver', 'processes', opaque=['get_rxn_rates_CT', 'get_rxn_rates_TST', 'check_process_dict'], ob='reactions and elements of processes')
    c.equiv(KP + 'construct_sitesmap', 'kmc_solver', 'sitesmap', opaque=['construct_lattice'], ob='site types')
    c.equiv(KP + 'parse_configuration', 'kmc_solver', 'configuration', observe=ALL, opaque=['construct_lattice', 'check_string'], effects=['check_string'], ob='empty type and element types')


def one_solver():
    """the solver of a model is kept under its private name"""
    return Domain(extra=lambda t: raw('attr', t.args[0], 'solver') if t.op == 'attr' and t.args[1] == '__solver' else None)


@check('C34')
def run_control(c):
    c.rule(VF)
    c.equiv(KS + 'get_control_parameters', 'kmc_solver', 'control', observe=ALL, ob='control parameters')
    c.equiv(KS + 'run', 'kmc_solver', 'run', observe=ALL, opaque=['script_lattice_model', 'get_control_parameters', 'processes'], effects=['script_lattice_model', 'run'], ob='simulation call')
    c.equiv('scaks/models/kmc_model.py:KMCModel.run', 'kmc_solver', 'model_run', observe=ALL, opaque=['processes', 'process_mapping'], effects=['processes', 'process_mapping', 'run'], domain=one_solver(), ob='run of the model')
    c.equiv(KP + 'construct_lattice', 'kmc_solver', 'lattice', ob='lattice')
    c.equiv(KP + 'construct_sitesmap', 'kmc_solver', 'sitesmap', opaque=['construct_lattice'], ob='site map')
    c.equiv(KP + 'parse_configuration', 'kmc_solver', 'configuration', opaque=['construct_lattice', 'check_string'], ob='configuration')
    c.equiv(KP + 'parse_processes', 'kmc_solver', 'process_file', observe=ALL, ob='process definitions')
    c.equiv(KP + 'parse_data', 'kmc_solver', 'parsed', observe=ALL, opaque=['parse_processes', 'parse_configuration', 'construct_sitesmap'], ob='data handed to the model')
