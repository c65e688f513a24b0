"""Errors are raised, not dropped: C36."""
import ast
import builtins

from engine import terms as K
from engine.domain import Domain
from engine.paths import TooMany
from engine.repo import dotted
from . import check
from .rxn import VF
from .coords import raises_only, CG
from .histories import machine
from .kmc import KS, KP
from .parsers import PB, REL
from .results import SOLVE, QUERY
from .solvers import SB, RATE
from .thermo import TC

CU = 'scaks/utilities/check_utilities.py:'
KM = 'scaks/models/kinetic_model.py:KineticModel.'
MK = 'scaks/models/micro_kinetic_model.py:MicroKineticModel.'
MF = 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.'
SS = 'scaks/solvers/steady_state_solver.py:SteadyStateSolver.'


class Handlers(Domain):
    def never_none(self, t):
        return t.op == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'handlers'


@check('C36')
def rejections(c):
    c.rule(VF)
    for n in ('check_sequence', 'check_string', 'check_species_definitions', 'check_ref_energies'):
        c.equiv(CU + n, 'errors', n, ob=n)
    c.equiv('scaks/functions.py:mangled_name', 'errors', 'mangled_name', ob='mangled name')
    c.equiv(KM + 'set_logger_level', 'errors', 'set_logger_level', wrap=raises_only, ob='unknown handler', domain=Handlers())
    c.equiv(KM + '__init__', 'errors', 'model_init', wrap=raises_only, ob='no set-up given', opaque=['_set_logger', '_load'])
    c.equiv(KM + '_load', 'errors', 'load', wrap=raises_only, ob='no parser given', opaque=['__mro_class_attrs', 'parse_elementary_rxns'])
    c.equiv(KM + 'set_solver', 'errors', 'set_solver', wrap=raises_only, ob='solver of another kind')
    c.equiv(KM + 'set_corrector', 'errors', 'set_corrector', wrap=raises_only, ob='corrector of another kind')
    c.equiv(MK + 'analysis_register', 'errors', 'analysis_register', wrap=raises_only, ob='analysis of another kind')
    c.equiv('scaks/plugins/metaclasses.py:AnalysisMeta.__new__', 'errors', 'analysis_meta', wrap=raises_only, ob='analysis of invalid form')
    c.equiv(MF + 'get_rate_constants', 'errors', 'get_rate_constants', wrap=raises_only, ob='rate constants', opaque=['get_rxn_rates_TST', 'get_rxn_rates_CT'])
    c.equiv(MF + '_extract_symbol', 'errors', 'extract_symbol', wrap=raises_only, ob='symbols')
    for m, s, ob in (('get_elementary_dtheta_dt_expression', 'dtheta_dt_expression', 'rate expression of one step'),
                     ('get_elementary_dtheta_dt_sym', 'dtheta_dt_sym', 'rate symbol of one step'),
                     ('__total_term_adsorbate_derivation', 'total_term', 'derivative of a term'),
                     ('analytical_jacobian', 'jacobian', 'number of coverages'),
                     ('get_single_XRC', 'single_XRC', 'rate control of an unsolved model')):
        c.equiv(SS + m, 'errors', s, wrap=raises_only, ob=ob, opaque=OPAQUE)
    c.equiv('scaks/solvers/rootfinding_iterators.py:ConstrainedNewton.__init__', 'errors', 'newton_init', wrap=raises_only, ob='root finder without its functions')
    # the same references as for the properties that own these functions, as far as rejections go
    own = dict(wrap=raises_only)
    c.equiv('scaks/parsers/rxn_parser.py:ChemState.conserve', 'rxn', 'conserve', ob='states that do not conserve', **own)
    c.equiv('scaks/parsers/rxn_parser.py:ChemFormula.conserve', 'rxn', 'conserve', ob='formulas that do not conserve', **own)
    c.equiv(SB + 'get_kCT', 'solver_base', 'kCT', ob='ratios above one', **own)
    c.equiv(SB + 'get_rxn_rates_CT', 'solver_base', 'rates_CT', opaque=RATE, ob='collision theory without area or corrector', **own)
    c.equiv(MF + 'get_reversibilities', 'mean_field', 'reversibilities', ob='rates of different number', **own)
    c.equiv(MF + 'get_tof', 'mean_field', 'tof', opaque=['get_net_rates'], ob='unknown gas', **own)
    for cls in (None, 'SteadyStateSolver'):
        c.equiv(MF + 'boltzmann_coverages', 'mean_field', 'boltzmann', self_class=cls, initattrs=True, ob='weights without energies (%s)' % (cls or 'base'), **own)
    c.equiv(REL + 'parse_data', 'parsers', 'parse_relative', ob='relative energies of another shape', **own)
    c.equiv(PB + '_get_single_relative_energies', 'parsers', 'single_relative_energies', opaque=['_get_state_energy'], ob='no absolute energies', **own)
    c.equiv(PB + 'get_molecular_mass', 'thermo', 'molecular_mass', opaque=['string2symbols'], ob='unknown elements', **own)
    c.equiv('scaks/functions.py:string2symbols', 'thermo', 'composition', opaque=['string2symbols'], needs=['string2symbols'], ob='malformed formulas', **own)
    c.equiv(TC + 'correct_relative_energies', 'thermo', 'correct_relative_energies', opaque=['__correct_single_relative_energies'], ob='unknown correction method', **own)
    c.equiv(TC + 'entropy_correction', 'thermo', 'entropy_correction', initattrs=True, opaque=['get_molecular_mass'], limit=3000000, ob='no pressure', **own)
    c.equiv(MK + 'run', 'archive', 'run', opaque=SOLVE + QUERY + ['data_file', 'product_name'], ob='arguments of a run', **own)
    c.driver(MK.split(':')[0], 'errors', 'hybrid_driver', 'hybrid', where=MK + 'hybrid_method_register', ob='hybrid method on something else than a model',
             objects={K.raw('var', 'p0'): 'MicroKineticModel'})
    for p in ('steady_state_coverages', 'TOFs', 'reversibilities', 'error'):
        c.equiv(MK + p, 'archive', p, ob='%s of an unsolved model' % p, **own)
    c.equiv(KS + 'get_processes', 'kmc_solver', 'processes', opaque=['get_rxn_rates_CT', 'get_rxn_rates_TST', 'check_process_dict'], ob='unknown reactions and elements', **own)
    c.equiv(KP + 'construct_sitesmap', 'kmc_solver', 'sitesmap', opaque=['construct_lattice'], ob='site types', **own)
    kw = dict(contracts={'check_sequence': 'sequence_contract', 'check_process_coordinates': 'coordinates_contract'}, opaque=['is_sequence', 'all_differ'])
    for f, s in (('check_analysis_interval', 'interval'), ('check_process_coordinates', 'coordinates'), ('check_process_dict', 'process')):
        c.equiv(CU + f, 'kmc_solver', s, ob=f, **kw)
    for m in ('__init__', 'append', 'extend', 'move'):
        c.equiv(CG + m, 'coords', m, wrap=raises_only, effects=['append'] if m == 'extend' else [], opaque=['append'] if m == 'extend' else [], zips=False,
                ob='group: ' + m)


OPAQUE = ['get_dtheta_dt_expressions', 'get_rate_constants', 'get_tof', 'get_steady_state_cvgs', 'poly_adsorbate_derivation', 'to_formula_list',
          '__term_adsorbate_derivation', '_cvg_tuple2dict', '_extract_symbol', 'get_rates', 'archive_data']


# ---------------------------------------------------------------------------- the root finder
@check('C36')
def root_finder(c):
    c.rule('path analysis: every path on which the name of the root finder is known to be none of the accepted ones ends by raising')
    where = SS + 'get_steady_state_cvgs'
    ob = 'unknown root finder'
    try:
        f, it, ps = machine(c, where, {'steady_state_function', 'analytical_jacobian', 'next'})
    except TooMany as e:
        return c.undecided(ob, where, 'too many paths: %s' % e)
    name = it.value('self._owner.rootfinding')
    accepted = [K.eq(name, K.const(n)) for n in ('ConstrainedNewton', 'MDNewton')]
    states = ps + [q for l in it.loops_seen.values() for h, ends in l for q in ends]
    n = 0
    for q in states:
        known = [q.pc.get(a) for a in accepted]
        if False not in known or True in known:
            continue
        n += 1
        if not (q.kind == 'raise' and q.val is not None and q.val.op == 'exc'):
            c.violated(ob, f.where, 'a path goes on (%s, line %d) although the root finder is not %s' % (
                q.kind, q.line, ' or '.join(n for n, k in zip(('ConstrainedNewton', 'MDNewton'), known) if k is False)))
    c.count('paths_with_unknown_root_finder', n)
    if not n:
        c.undecided(ob, f.where, 'no path tells the root finders apart')
    elif not any(r[0] == 'VIOLATED' and r[1] == ob for r in c.results):
        c.hold(ob, f.where, '%d paths' % n)


# ---------------------------------------------------------------------------- exceptions that are built
def error_classes(repo):
    out = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), Exception) and not issubclass(getattr(builtins, n), Warning)}
    more = True
    own = set()
    while more:
        more = False
        for m in repo.modules.values():
            for k in m.classes.values():
                if k.name not in out and any((dotted(b) or '').split('.')[-1] in out for b in k.node.bases):
                    out.add(k.name)
                    own.add(k.name)
                    more = True
    return out, own


def functions(m):
    """(qualified name, node) of every function of a module, and the module itself"""
    out = []

    def go(node, path):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if not isinstance(x, ast.ClassDef):
                    out.append(('.'.join(path + [x.name]), x))
                go(x, path + [x.name])
            else:
                go(x, path)
    go(m.tree, [])
    return out


def own_nodes(fn):
    """the nodes of a function without those of nested functions"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))


@check('C36')
def built(c):
    c.rule('every exception object that is built is raised: none is returned, discarded or only assigned (def-use over the syntax tree, through helpers that build exceptions)')
    c.rule('no handler for the errors of the package ends without raising')
    errors, own = error_classes(c.repo)
    builders, n = {}, 0
    raised_calls, other_calls = set(), set()
    for m in c.repo.modules.values():
        up = {y: x for x in ast.walk(m.tree) for y in ast.iter_child_nodes(x)}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                name = (dotted(x.func) or '').split('.')[-1]
                (raised_calls if isinstance(up.get(x), ast.Raise) else other_calls).add(name)
        for q, fn in functions(m):
            where = '%s:%s (line %d)' % (m.rel, q, fn.lineno)
            nodes = list(own_nodes(fn))
            for x in nodes:
                if isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in errors:
                    made = x
                elif isinstance(x, ast.Name) and x.id in errors and isinstance(x.ctx, ast.Load) and isinstance(up.get(x), (ast.Return, ast.Expr)):
                    made = x
                else:
                    continue
                n += 1
                p, name = up.get(made), (dotted(made.func) if isinstance(made, ast.Call) else made.id).split('.')[-1]
                while isinstance(p, (ast.IfExp,)):
                    p = up.get(p)
                if isinstance(p, ast.Raise):
                    continue
                text = '%s built at line %d ' % (name, made.lineno)
                if isinstance(p, ast.Expr):
                    c.violated('built errors are raised', where, text + 'is discarded')
                elif isinstance(p, ast.Return):
                    builders.setdefault(fn.name, []).append((where, text))
                elif isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                    uses = [y for y in nodes if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id == p.targets[0].id]
                    if not uses:
                        c.violated('built errors are raised', where, text + 'is assigned and never raised')
                    elif not any(isinstance(up.get(y), ast.Raise) for y in uses):
                        if all(isinstance(up.get(y), (ast.Return, ast.Expr)) for y in uses):
                            builders.setdefault(fn.name, []).append((where, text))
                        else:
                            c.undecided('built errors are raised', where, text + 'is passed on')
                else:
                    c.undecided('built errors are raised', where, text + 'is passed on')
            handlers(c, m, fn, where, nodes, own)
    for name, places in builders.items():
        for where, text in places:
            if name not in raised_calls:
                c.violated('built errors are raised', where, text + 'is returned')
            elif name in other_calls:
                c.undecided('built errors are raised', where, text + 'is returned; the result is raised at some calls')
    c.count('built_exceptions', n)
    if not any(r[0] != 'HOLDS' and r[1] == 'built errors are raised' for r in c.results):
        c.hold('built errors are raised', 'scaks', '%d exceptions' % n)
    if not any(r[0] != 'HOLDS' and r[1] == 'errors are not swallowed' for r in c.results):
        c.hold('errors are not swallowed', 'scaks', 'all handlers')


def ends_by_raising(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and ends_by_raising(s.body) and ends_by_raising(s.orelse):
            return True
        if isinstance(s, (ast.With, ast.Try)) and ends_by_raising(s.body):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def handlers(c, m, fn, where, nodes, own):
    for t in nodes:
        if not isinstance(t, ast.Try):
            continue
        for h in t.handlers:
            kinds = [] if h.type is None else [(dotted(e) or '?').split('.')[-1] for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            mine = [k for k in kinds if k in own]
            c.count('handlers', 1)
            if mine and not ends_by_raising(h.body):
                c.violated('errors are not swallowed', where, 'the handler at line %d swallows %s' % (h.lineno, ', '.join(mine)))
            elif not kinds or set(kinds) & {'Exception', 'BaseException', 'StandardError'}:
                if not ends_by_raising(h.body) and any(isinstance(x, ast.Call) for s in t.body for x in ast.walk(s)):
                    c.undecided('errors are not swallowed', where, 'the handler at line %d catches everything' % h.lineno)
