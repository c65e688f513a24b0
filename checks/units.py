"""C10: quantities are combined in matching units."""
from checks import check
from checks.thermo import data, number
from engine import dims as D
from engine.graph import Graph

TD = 'scaks/database/thermo_data.py'


@check('C10')
def matching(c):
    c.rule('every function of the package is followed with the dimensions of physical constants, model attributes, table entries and declared parameters; wherever two known quantities are added, '
           'compared or maximised they have the same dimension, exponents and arguments of logarithms have none, and declared parameters, results and attributes are given what they stand for; '
           'the eV and J forms of a constant differ in dimension, and so do J and kJ')
    g = Graph(c.repo)
    a = D.Dims(g)
    seen = set()
    for f in g.functions():
        r, want = a.function(f)
        c.functions.add('%s:%s' % (f.module.rel, f.qual))
        if f.name in D.DECL and f.name not in ('_extract_symbol', 'stoichiometry'):
            seen.add(f.name)
            where = '%s:%s' % (f.module.rel, f.qual)
            if D.decided(r):
                c.hold('result', where, '%r' % (r,))
            else:
                c.undecided('result', where, 'the dimension of the result is not known: %r' % (r,))
    for name in D.DECL:
        if name not in seen and name not in ('_extract_symbol', 'stoichiometry'):
            c.undecided('result', name, 'no such function')
    c.count('places where dimensions meet', len(a.checked))
    bad = {}
    for (rel, fn, line, col), why in sorted(a.bad.items()):
        bad.setdefault((rel, fn), []).append((line, why))
    for (rel, fn), xs in bad.items():
        for line, why in xs:
            c.violated('dimensions', '%s:%s (line %d)' % (rel, fn, line), why)
    for rel, fn in sorted({x[:2] for x in a.checked} - set(bad)):
        c.hold('dimensions', '%s:%s' % (rel, fn), '%d places' % len([x for x in a.checked if x[:2] == (rel, fn)]))
    c.rule('constant propagation over the data module: the two forms of each constant differ by the elementary charge')
    env = data(c, TD)
    if env is None:
        return
    for j, ev in (('kB_J', 'kB_eV'), ('h_J', 'h_eV')):
        if not number(env.get(j)) or not number(env.get(ev)):
            c.undecided('forms of a constant', TD, '%s and %s are not constants of the module' % (j, ev))
            continue
        c.decide(env[ev] != 0 and abs(env[j]/env[ev]/1.602176634e-19 - 1) < 1e-5, 'forms of a constant', TD, '%s = %r J, %s = %r eV' % (j, env[j], ev, env[ev]))
    if number(env.get('P0')):
        c.decide(abs(env['P0'] - 101325) < 1, 'standard pressure', TD, '%r Pa' % env['P0'])
    else:
        c.undecided('standard pressure', TD, 'not a constant of the module')
