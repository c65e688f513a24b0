"""Energies supplied by the caller: C20."""

from engine.caches import caches
from engine.energies import GUESSES, Energies
from engine.graph import Graph
from . import check


def optional(f, p):
    """may the parameter be left out"""
    if p[:2] == '**':
        return True
    a = f.node.args
    pos = a.posonlyargs + a.args
    ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
    return any(q.arg == p and d is not None for q, d in ds)


@check('C20')
def supplied(c):
    c.rule('followed with energies supplied, a function that takes them (found by parameter, by use and by what its parameters are passed on to) passes them, or a changed copy of them, '
           'to every function that takes energies and that it calls, hands over, or calls from a function nested in it; it reads no energies of the model and enters nothing that is evaluated with those; '
           'it reads no rate constant, rate or residual that an earlier call left in an attribute')
    c.rule('followed without energies, every function that can be called without them reaches the energies of the model')
    c.rule('starting guesses proposed by the registered %s, which is given the model alone, are not among the quantities computed on behalf of the call' % '/'.join(GUESSES))
    g = Graph(c.repo)
    E = Energies(g)
    runs = E.all()
    names = set()
    for f, a, b in runs:
        names.add(f.name)
        where = '%s:%s' % (f.module.rel, f.qual)
        c.functions.add(where)
        c.count('functions that take energies')
        c.count('places where energies are passed on', a.sites)
        for line, why in a.bad:
            c.violated('supplied', '%s (line %d)' % (where, line), why)
        for line, why in a.open:
            c.undecided('supplied', '%s (line %d)' % (where, line), why)
        if not a.used:
            c.violated('used', where, 'energies that are supplied are never used')
        elif not a.bad and not a.open:
            c.hold('supplied', where, '%d places' % a.sites)
        if any(optional(f, p) for p in E.takes(f)):
            if b.model:
                c.hold('not supplied', where, 'the energies of the model are reached')
            elif b.open:
                c.undecided('not supplied', where, b.open[0][1])
            else:
                c.violated('not supplied', where, 'the energies of the model are not reached when none are supplied')
    for n in API:
        if n not in names:
            f = [x for x in g.functions() if x.name == n]
            (c.violated if f else c.undecided)('takes energies', '%s:%s' % (f[0].module.rel, f[0].qual) if f else n, 'no energies can be supplied')
    for f, a, b in runs:
        for node, name, keys, values, d in caches(f):
            missing = (d.of(values) & E.takes(f)) - d.of(keys)
            if missing:
                c.violated('kept', '%s:%s (line %d)' % (f.module.rel, f.qual, node.lineno), 'what is kept in %s is used again whatever energies are supplied' % name)


API = ('run', 'get_rate_constants', 'get_rates', 'get_net_rates', 'get_tof', 'steady_state_function', 'analytical_jacobian', 'get_residual', 'coarse_steady_state_cvgs',
       'fsolve_steady_state_cvgs', 'get_steady_state_cvgs', 'get_single_XRC', 'solve_ode')
