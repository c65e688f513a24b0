"""The Jacobian of the coverage equations: C14."""
import itertools

from engine import terms as K
from engine.domain import Domain
from engine.repo import Func
from . import check
from .rxn import VF

SS = 'scaks/solvers/steady_state_solver.py:SteadyStateSolver.'
ADS, SITE = 'Xq2-Y_w', '*_w'


class Terms(Domain):
    """generic terms: regular expressions on constant texts are folded"""
    folds = True

    def rewrite(self, t):
        if t.op == 'm' and t.args[0] == 'site' and 'ChemFormula' in K.show(t.args[1]):
            names = [x for x in K.subterms(t.args[1]) if x.op == 'str']
            if len(names) == 1 and '_' in names[0].args[0]:
                return K.const(names[0].args[0].rsplit('_', 1)[1].lstrip('0123456789'))
        if t.op == 'idx' and t.args[1].op == 'scat' and len(t.args[1].args) == 1:
            return K.index(t.args[0], t.args[1].args[0])
        return Domain.rewrite(self, t)

    def contains(self, x, s):
        if x.op == 'str' and s.op == 'attr' and s.args[1] == 'adsorbate_names':
            return K.TRUE if x.args[0] == ADS else K.FALSE
        if x.op == 'str' and s.op == 'scat' and x.args[0].strip():
            own = [p.args[0] for p in s.args if p.op == 'str']
            if any(x.args[0] in p for p in own):
                return K.TRUE
            inner = own + [y.args[0] for p in s.args for y in K.subterms(p) if y.op == 'str']
            if not any(ch in p for ch in x.args[0].strip() for p in inner):
                return K.FALSE
        return Domain.contains(self, x, s)


class Evaluated(Domain):
    """text that is not built here is evaluated with the names it can use"""
    evaluated = ('theta', 'kf', 'kr', 'p', 'c')
    allocates = ('_matrix',)


class Step(Terms):
    """a reaction whose formulas are the ones given"""

    def __init__(self, states):
        Terms.__init__(self)
        self.states = states

    def rewrite(self, t):
        if t.op == 'm' and t.args[0] == 'to_formula_list':
            return K.raw('tuple', *[K.raw('tuple', *[K.raw('new', 'ChemFormula', K.const(x)) for x in s]) for s in self.states])
        if t.op == 'm' and t.args[0] in ('species_site', 'stoichiometry') and t.args[1].op == 'new' and t.args[1].args[0] == 'ChemFormula':
            text = t.args[1].args[1].args[0]
            name = text.lstrip('0123456789')
            return K.const(name) if t.args[0] == 'species_site' else K.num(int(text[:len(text) - len(name)] or 1))
        if t.op == 'm' and t.args[0] in ('species', 'site', 'formula') and t.args[1].op == 'new' and t.args[1].args[0] == 'ChemFormula':
            text = t.args[1].args[1].args[0]
            name, _, site = text.lstrip('0123456789').rpartition('_')
            return K.const({'species': name, 'site': site.lstrip('0123456789'), 'formula': text}[t.args[0]])
        if t.op == 'm' and t.args[0] == 'index' and len(t.args) == 3 and t.args[1].op in ('cat', 'tuple'):
            of = [x.args[0] if x.op == 'one' else x for x in t.args[1].args] if t.args[1].op == 'cat' else list(t.args[1].args)
            if t.args[2] in of and all(x.op in ('tuple', 'new') for x in of):
                return K.num(of.index(t.args[2]))
        return Terms.rewrite(self, t)

    def contains(self, x, s):
        if s.op == 'attr' and s.args[1] in ('rxn_expressions', 'adsorbate_names'):
            return K.TRUE
        return Terms.contains(self, x, s)


# kind of step: formulas of its states, adsorbates asked for with the change of their number
STEPS = (('adsorbates on one side, once', [['Aa_s', 'Bb_s'], ['Ab-Ba_s', '*_s'], ['Cc_s', '*_s']], (('Aa_s', -1), ('Bb_s', -1), ('Cc_s', 1))),
         ('adsorbates on one side, once', [['Gg_g', '2*_s'], ['Dd_s', 'Aa_s']], (('Aa_s', 1), ('Dd_s', 1))),
         ('no such adsorbate', [['Aa_s', 'Bb_s'], ['Ab-Ba_s', '*_s'], ['Gg_g', '2*_s']], (('Cc_s', 0), ('Aa_t', 0), ('A_s', 0))),
         ('adsorbates that occur with a coefficient, or on both sides', [['2Aa_s', 'Bb_s'], ['3Cc_s', 'Bb_s']], (('Aa_s', -2), ('Cc_s', 3), ('Bb_s', 0))),
         ('adsorbates that occur with a coefficient, or on both sides', [['Gg_g', '2*_s'], ['2Dd_s']], (('Dd_s', 2),)))


def steps(c):
    """what one reaction adds to the rate symbol of one adsorbate"""
    f = c.repo.func(SS + 'get_elementary_dtheta_dt_sym')
    cls = c.repo.cls('SteadyStateSolver')
    rates = K.raw('var', 'self'), K.raw('var', 'p1')
    for kind, states, asked in STEPS:
        for name, n in asked:
            K.LIMIT[0] = K._counter[0] + 400000
            ob = 'rate symbol of a step with ' + kind
            try:
                it, tree = c.summary(f, c.config(domain=Step(states), opaque=['get_elementary_rate_sym', 'species_site', 'stoichiometry', 'species', 'site', 'formula']), [K.const(name), rates[1]], cls)
                got = K.canon(it.outcome(tree))
            except (K.Budget, RecursionError) as e:
                c.undecided(ob, f.where, '%s: %s' % (name, e))
                continue
            c.functions.add(f.where)
            c.functions |= it.inlined
            c.count('steps', 1)
            pair = K.raw('m', 'get_elementary_rate_sym', *rates)
            rf, rr = K.index(pair, K.num(0)), K.index(pair, K.num(1))
            value = got.args[0] if got.op == 'ret' else None
            times = lambda m: K.canon(K.mul(K.num(m), K.sub(rf, rr)))
            if value is not None and (value is times(n) or n == 0 and value is K.NONE):
                c.hold(ob, f.where, '%s in %s: %s' % (name, states, K.show(value)))
                continue
            known = 'coefficient' in kind and value in (times(-1 if any(x.lstrip('0123456789') == name for x in states[0]) else 1),)
            if got.op == 'raise' or value is not None and (value is K.NONE or K.canon(K.subst(value, {rf: K.num(3), rr: K.num(7)})).op == 'num'):
                c.violated(ob if known or 'coefficient' not in kind else ob + ' (another value)', f.where,
                           'the number of %s changes by %d in %s, the rate symbol is %s' % (name, n, ' -> '.join(' + '.join(s) for s in states), K.show(got)))
            else:
                c.undecided(ob, f.where, '%s in %s: %s' % (name, states, K.show(got)[:300]))


def filled(t):
    """a matrix filled entry by entry, whichever index runs first"""
    def of(x):
        n, ps = None, x.args[1]
        if ps.op != 'for':
            return x
        v, (b,) = K.open_binder(ps)
        if b.op != 'for':
            return x
        w, (d,) = K.open_binder(b)
        if d.op != 'one' or d.args[0].op != 'pair' or d.args[0].args[0].op != 'tuple' or d.args[0].args[0].args != (w, v) or K.depends(b.args[0], v):
            return x
        return K.raw('upd', x.args[0], K.mk_for(b.args[0], w, K.mk_for(ps.args[0], v, d)))
    return K.canon(K.subst(t, {x: of(x) for x in K.subterms(t) if x.op == 'upd' and not x.fv}))


def term(before, factors):
    """(text, text of the derivative) of a product"""
    fs = [(before, None, 1)] + factors
    text = '*'.join(f + ('**%d' % n if n > 1 else '') for f, _, n in fs if f)
    parts = []
    for i, (f, what, n) in enumerate(fs):
        if what:
            rest = [g + ('**%d' % m if m > 1 else '') for j, (g, _, m) in enumerate(fs) if j != i and g]
            own = ['%d' % n] + ([f + ('**%d' % (n - 1) if n > 2 else '')] if n > 1 else [])
            parts.append(what + '*'.join(own + rest))
    return text, '(%s)' % ' '.join(['0'] + parts)


A, S = "theta['%s']" % ADS, "theta['%s']" % SITE
OTHERS = ["p['Zr_g']**2*theta['*_v']", "c['Vn_l']", "theta['Qm_v']**2*theta['Pk_w']", "theta['*_ww']*theta['%s2']**3" % ADS, "theta['e%s']**12" % ADS]


def classes(thorough=False):
    """generic products: what they hold of the adsorbate and of its free site, to which power, in which order, with what around them"""
    out = []
    pw = (1, 2, 3, 10) if thorough else (1, 2, 3)
    around = ('', OTHERS[2])

    def other(t):
        return [(t, None, 1)] if t else []
    for lead in ('kf[1]', "2*kr[0]*" + OTHERS[0]):
        for t in OTHERS[1:]:
            out.append(('neither', term(lead, other(t))))
        for n in range(1, 21) if thorough else (1, 2, 3, 4, 9, 10, 12):
            for e in around if thorough or n < 4 else (OTHERS[3 + n % 2],):
                out.append(('the adsorbate', term(lead, [(A, '+', n)] + other(e))))
                out.append(('the free site', term(lead, [(S, '-', n)] + other(e))))
        for n, m in itertools.product(pw, pw):
            for mid, e in itertools.product(('', OTHERS[1]), around):
                if not thorough and n + m > 4 and mid != e:
                    continue
                out.append(('the adsorbate, then the free site', term(lead, [(A, '+', n)] + other(mid) + [(S, '-', m)] + other(e))))
                out.append(('the free site, then the adsorbate', term(lead, [(S, '-', m)] + other(mid) + [(A, '+', n)] + other(e))))
    return out


@check('C14')
def jacobian(c):
    c.rule(VF)
    c.rule('what a reaction adds to the rate symbol of an adsorbate is (coefficient on the final side minus on the initial side) times (forward minus reverse rate), for each kind of step')
    c.rule('the derivative text of every class of product (with the adsorbate, its free site, both in either order, neither; each power; other factors before, between and after), '
           'first, after a minus and after a plus, evaluates to the derivative by the product rule with the free site as total minus the adsorbates of the site')
    f = c.repo.func(SS + 'poly_adsorbate_derivation')
    cls = c.repo.cls('SteadyStateSolver')
    sm = c.spec('mean_field', f.module)
    ts = classes(c.tier == 'thorough')
    me, theta = K.raw('var', 'self'), K.raw('var', 'p2')
    free = K.sub(K.index(K.index(K.raw('attr', K.raw('attr', me, '_owner'), 'species_definitions'), K.const(SITE)), K.const('total')),
                 K.sum_seq(K.map_seq(K.seq_of(K.index(K.raw('attr', me, '_classified_adsorbates'), K.const(SITE))), lambda a: K.index(theta, a))))
    site = K.index(theta, K.const(SITE))

    def modulo(t):
        t = K.subst(t, {site: free})
        return K.canon(K.subst(t, {x: x.args[0] for x in K.subterms(t) if x.op == 'scat' and len(x.args) == 1}))
    c.equiv(SS + 'analytical_jacobian', 'mean_field', 'jacobian', opaque=['get_adsorbate_dtheta_dt_expression', 'poly_adsorbate_derivation', '_cvg_tuple2dict', 'get_rate_constants', '_matrix'], domain=Evaluated(),
            contracts={'get_dtheta_dt_expressions': 'expressions_by_name'}, ob='entries of the matrix', wrap=filled)
    rates = {'get_dtheta_dt_syms': 'dtheta_dt_syms'}
    for m, ref, ob, op, con in (('get_adsorbate_dtheta_dt_sym', 'adsorbate_dtheta_dt_sym', 'rate symbol of one adsorbate', ['get_elementary_dtheta_dt_sym'], {}),
                                ('get_dtheta_dt_syms', 'dtheta_dt_syms', 'rate symbols', [], {}),
                                ('analytical_jacobian_sym', 'jacobian_sym', 'entries of the symbolic matrix', ['_extract_symbol'], rates),
                                ('analytical_jacobian_by_sym', 'jacobian_by_sym', 'values of the symbolic matrix', ['_extract_symbol', 'get_subs_dict'], dict(rates, analytical_jacobian_sym='jacobian_sym')),
                                ('steady_state_function_by_sym', 'steady_state_by_sym', 'values of the rate symbols', ['get_subs_dict'], rates)):
        c.equiv(SS + m, 'mean_field', ref, opaque=op + ['get_adsorbate_dtheta_dt_sym', '_mpf', '_matrix', 'get_latex_strs', 'log_latex'] if m != 'get_adsorbate_dtheta_dt_sym' else op, ob=ob, contracts=con)
    steps(c)
    kw = dict(domain=Terms(), opaque=['_classified_adsorbates'], inline=['poly_adsorbate_derivation'])
    for i, (kind, (text, want)) in enumerate(ts):
        x, y = ts[(i * 7 + 3) % len(ts)][1], ts[(i * 11 + 5) % len(ts)][1]
        poly = 'dtheta_dt[0] = %s - %s + %s' % (text, x[0], y[0])
        ref = '%s - %s + %s' % (want, x[1], y[1])
        s = K.const(poly), K.const(ref)
        dr, rf = [Func(sm.spec_functions[n].node, sm, cls) for n in ('drv_derivative', 'derivative')]
        one(c, f, dr, rf, cls, 'derivative of a product with ' + kind, [K.const(ADS), s], modulo, kw)
    for n, m in ((1, 1), (2, 1)):
        text, want = term('kf[1]', [(A, '+', n), (OTHERS[1], None, 1), (A, '+', m)])
        one(c, f, dr, rf, cls, 'derivative of a product that names the adsorbate twice', [K.const(ADS), (K.const('dtheta_dt[0] = ' + text), K.const(want))], modulo, kw,
            'the derivative is not the one by the product rule')


def one(c, f, dr, rf, cls, ob, args, wrap, kw, say=None):
    from engine.compare import compare
    from engine.runner import VOCAB, show_diff
    K.LIMIT[0] = K._counter[0] + 400000
    try:
        out = []
        for fn, text in ((dr, args[1][0]), (rf, args[1][1])):
            it, tree = c.summary(fn, c.config(**dict(kw)), [args[0], text], cls)
            out.append(wrap(K.canon(it.outcome(tree))))
            if fn is dr:
                c.functions |= it.inlined
    except K.Budget as e:
        c.undecided(ob, f.where, 'summary too large: %s' % e)
        return
    c.count('products', 1)
    if say and K.canon(out[0]) is not K.canon(out[1]) and not any(x.op in ('opaque', 'call') for x in K.subterms(out[0])):
        c.violated(ob, f.where, say)
        return
    if any(x.op == 'unparsable' for x in K.subterms(out[0])):
        c.violated(ob, f.where, '%s: the derivative is not an expression: %s' % (args[1][0].args[0], K.show(next(x for x in K.subterms(out[0]) if x.op == 'unparsable').args[0])))
        return
    v = compare(out[0], out[1], VOCAB, ())
    what = args[1][0].args[0]
    if v.status == 'HOLDS':
        c.hold(ob, f.where, what)
    elif v.status == 'VIOLATED':
        c.violated(ob, f.where, '%s: %s' % (what, show_diff(v.diffs)))
    else:
        c.undecided(ob, f.where, '%s: %s; %s' % (what, v.why, show_diff(v.diffs)))
