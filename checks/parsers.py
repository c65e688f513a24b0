"""Parsers: C01 (gates), C04, C05, C06, C07."""
from . import check
from .rxn import VF
from engine import terms as K, interp as I

PB = 'scaks/parsers/parser_base.py:ParserBase.'
REL = 'scaks/parsers/relative_energy_parser.py:RelativeEnergyParser.'
ABS = 'scaks/parsers/absolute_energy_parser.py:AbsoluteEnergyParser.'


@check('C01')
def gates(c):
    c.rule('every reaction of the model passes check_conservation during parsing; every returned overall reaction passed it before')
    c.equiv(PB + 'parse_elementary_rxns', 'parsers', 'parse_gate', observe=('trace',), ob='every input reaction is checked',
            effects=['check_conservation'])
    f = c.repo.func(PB + 'get_total_rxn_equation')
    it, tree = c.summary(f, c.config(opaque=['get_stoichiometry_matrices'], effects=['check_conservation']))
    c.functions.add(f.where)
    for l in I.leaves(tree):
        if l.kind not in ('ret', 'fall'):
            continue
        v = it.D(l.val, l.st)
        tr = it.D(l.st.heap.get(I.TRACE, K.EMPTY), l.st)
        want = K.raw('ev', 'check_conservation', K.mk('new', 'RxnEquation', v))
        parts = tr.args if tr.op == 'cat' else [tr]
        if any(p.op == 'one' and p.args[0] is want for p in parts):
            c.hold('overall reaction is checked before it is returned', f.where)
        elif any(p.op == 'ite' and any(events(x) for x in I.leaf_terms(p)) and any(not events(x) for x in I.leaf_terms(p)) for p in parts):
            c.violated('overall reaction is checked before it is returned', f.where, 'check_conservation() of the overall reaction depends on a condition')
        elif not any(p.op in ('for', 'ite', 'fold', 'while') or p.op == 'one' for p in parts):
            c.violated('overall reaction is checked before it is returned', f.where, 'no check_conservation() precedes the return of the overall reaction')
        elif any(x.op == 'ev' for p in parts for x in [p.args[0]] if p.op == 'one') and \
                all(p.op == 'one' and p.args[0].op == 'ev' and p.args[0].args[1].op == 'new' for p in parts) and \
                not any(shared(p.args[0].args[1], v) for p in parts):
            c.violated('overall reaction is checked before it is returned', f.where, 'check_conservation() is applied to something else than the returned equation')
        else:
            c.undecided('overall reaction is checked before it is returned', f.where, 'checks found: %s' % K.show(tr)[:300])


def events(t):
    return any(x.op == 'ev' for x in K.subterms(t))


def shared(a, b):
    from engine.compare import subterms
    big = set(x for x in subterms(b) if x.op in ('for', 'join', 'scat', 'fold', 'sfor'))
    return any(x in big for x in subterms(a))


@check('C04')
def classification(c):
    c.rule(VF)
    c.equiv(PB + 'parse_elementary_rxns', 'parsers', 'parse_elementary_rxns')


@check('C05')
def stoichiometry(c):
    c.rule(VF)
    c.equiv(PB + 'get_stoichiometry_matrices', 'parsers', 'stoichiometry_matrices')


@check('C06')
def relative(c):
    c.rule(VF)
    c.equiv(REL + 'parse_data', 'parsers', 'parse_relative', observe=('heap', 'ret'))


@check('C07')
def absolute(c):
    c.rule(VF)
    c.equiv(PB + '_get_state_energy', 'parsers', 'state_energy')
    c.equiv(PB + '_get_single_relative_energies', 'parsers', 'single_relative_energies', opaque=['_get_state_energy'])
    c.equiv(PB + '_get_relative_from_absolute', 'parsers', 'relative_from_absolute', opaque=['_get_single_relative_energies'])
    c.equiv(ABS + 'parse_data', 'parsers', 'parse_absolute', observe=('heap', 'ret'), opaque=['_get_relative_from_absolute'])
