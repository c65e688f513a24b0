"""Thermodynamic corrections, masses, input templates: C37, C38, C42, C43."""
import ast

from engine.domain import Domain
from engine.constants import constants, Unknown
from engine.repo import Missing
from spec import tables as REF
from . import check
from .rxn import VF

TC = 'scaks/correctors/thermodynamic_corrector.py:ThermodynamicCorrector.'
KM = 'scaks/models/kinetic_model.py:KineticModel.'


@check('C37')
def corrections(c):
    c.rule(VF)
    c.equiv(TC + 'shomate_correction', 'thermo', 'shomate_correction', initattrs=True, ob='Shomate correction')
    c.equiv(TC + 'entropy_correction', 'thermo', 'entropy_correction', initattrs=True, opaque=['get_molecular_mass'], limit=3000000, ob='entropy correction')
    c.rule('constant propagation over the data modules: every tabulated value equals the published one')
    env = data(c, 'scaks/database/thermo_data.py')
    if env is None:
        return
    for k in ('kB_J', 'kB_eV', 'h_J', 'h_eV', 'P0'):
        scalar(c, env, k, getattr(REF, k), 2e-5, 'scaks/database/thermo_data.py')
    where = 'scaks/database/thermo_data.py:shomate_params'
    t = env.get('shomate_params')
    if not isinstance(t, dict):
        c.undecided('Shomate table', where, 'the table is not a constant of the module')
    else:
        for key, q in t.items():
            parts = key.split(':') if isinstance(key, str) else []
            span = parts[1].split('-') if len(parts) == 2 else []
            ok = len(span) == 2 and number(span[0]) and number(span[1]) and float(span[0]) < float(span[1]) and \
                isinstance(q, (list, tuple)) and len(q) == 8 and all(number(x) for x in q)
            c.decide(ok, 'form of entry %s' % (key,), where, 'species:low-high with eight parameters')
        gases = set(k.split(':')[0] for k in t if isinstance(k, str))
        for key, q in REF.shomate_params.items():
            g, span = key.split(':')
            if g not in gases:
                continue
            lo, hi = [float(x) for x in span.split('-')]
            mine = [v for k, v in t.items() if isinstance(k, str) and k.split(':')[0] == g and spans(k) == (lo, hi)]
            c.decide(len(mine) == 1 and len(mine[0]) == 8 and all(close(x, y, 1e-5) for x, y in zip(mine[0], q)),
                     'Shomate parameters of %s' % key, where, 'published parameters %s' % (q,))
    for name, ref in (('rotation_temperatures', REF.rotation_temperatures), ('vibration_temperatures', REF.vibration_temperatures)):
        where = 'scaks/database/thermo_data.py:' + name
        t = env.get(name)
        if not isinstance(t, dict):
            c.undecided(name, where, 'the table is not a constant of the module')
            continue
        for g, v in ref.items():
            if g not in t:
                continue
            m = t[g]
            if isinstance(v, dict):
                ok = isinstance(m, dict) and close(m.get('sigma'), v['sigma'], 1e-6) and closes(m.get('theta'), v['theta'])
            else:
                ok = closes(m, v)
            c.decide(ok, '%s of %s' % (name, g), where, 'published %s' % (v,))


def data(c, rel):
    m = c.repo.by_rel.get(rel)
    if m is None:
        c.undecided('tables', rel, 'the module is gone')
        return None
    return constants(m)


def number(x):
    try:
        float(x)
        return not isinstance(x, bool)
    except (TypeError, ValueError):
        return False


def spans(key):
    try:
        a, b = key.split(':')[1].split('-')
        return float(a), float(b)
    except (IndexError, ValueError):
        return None


def close(x, y, tol):
    return number(x) and not isinstance(x, str) and abs(x - y) <= tol*max(abs(y), 1e-300) + (1e-9 if y == 0 else 0)


def closes(m, v):
    return isinstance(m, (list, tuple)) and len(m) == len(v) and all(close(x, y, 1e-6) for x, y in zip(sorted(m), sorted(v)))


def scalar(c, env, k, ref, tol, rel):
    if not number(env.get(k)):
        c.undecided('constant ' + k, rel, 'not a constant of the module')
    else:
        c.decide(close(env[k], ref, tol), 'constant ' + k, rel, '%s = %s, published %s' % (k, env[k], ref))


@check('C38')
def correcting(c):
    c.rule(VF)
    d = Domain()
    d.repeated = ('rxn_expressions',)       # two channels may be written with the same expression
    c.equiv(TC + 'correct_relative_energies', 'thermo', 'correct_relative_energies', domain=d, observe=('ret', 'trace'), opaque=['__correct_single_relative_energies'], effects=['__correct_single_relative_energies'], ob='every reaction corrected once')
    c.equiv(TC + '__correct_single_relative_energies', 'thermo', 'correct_one', observe=('ret', 'heap'), initattrs=True, ob='shift of one reaction')


@check('C42')
def masses(c):
    c.rule(VF)
    c.equiv('scaks/parsers/parser_base.py:ParserBase.get_molecular_mass', 'thermo', 'molecular_mass', opaque=['string2symbols'], ob='mass of a composition')
    c.equiv('scaks/functions.py:string2symbols', 'thermo', 'composition', opaque=['string2symbols'], needs=['string2symbols'], ob='composition of a formula')
    c.rule('constant propagation over the data modules: every tabulated value equals the published one')
    rel = 'scaks/database/elements_data.py'
    env = data(c, rel)
    if env is None:
        return
    scalar(c, env, 'amu', REF.amu, 1e-6, rel)
    t = env.get('chem_elements')
    if not isinstance(t, dict):
        c.undecided('mass table', rel, 'the table is not a constant of the module')
        return
    for e in ('H', 'C', 'N', 'O'):
        c.decide(e in t, 'element %s' % e, rel, 'tabulated')
    for e, x in t.items():
        if e in REF.masses:
            c.decide(isinstance(x, dict) and close(x.get('mass'), REF.masses[e], 2e-3), 'mass of %s' % e, rel, 'standard atomic weight %s' % REF.masses[e])


@check('C43')
def templates(c):
    c.rule(VF)
    c.equiv(KM + 'generate_relative_energies_file', 'thermo', 'relative_template', observe=('ret', 'trace'), ob='relative energy template')
    c.equiv(KM + 'generate_absolute_energies_file', 'thermo', 'absolute_template', observe=('ret', 'trace'), ob='absolute energy template')
