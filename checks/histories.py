"""Histories of the solvers: what holds on every path, through every loop iteration and every failure."""
from . import check
from engine import terms as K
from engine.terms import TRUE, FALSE, NONE, EMPTY
from engine.interp import TRACE, leaf_terms
from engine.paths import PathInterp, TooMany, holds, le, UNRESOLVED

SS = 'scaks/solvers/steady_state_solver.py:SteadyStateSolver.'
RI = 'scaks/solvers/rootfinding_iterators.py:'

NUMERIC = ['steady_state_function', 'analytical_jacobian', '__constrain_coverages', '__log_sscvg', 'archive_data', 'setup',
           'register_step', 'finalize', 'hybrid_method']
EVENTS = ['archive_data', 'setup', 'register_step', 'finalize']

PATHS = ('every path through the function is followed: both outcomes of every decision, every loop from every state its '
         'iterations can leave (unknowns for loop-carried values, constants and counters kept), every exception that a called '
         'function may raise, handlers and finally blocks on the states in which they start')


def machine(c, where, exceptions, never=(), **kw):
    f = c.repo.func(where)
    cfg = c.config(opaque=NUMERIC, effects=EVENTS, inline=['get_residual'], **kw)
    K.LIMIT[0] = K._counter[0] + 6000000
    it = PathInterp(c.repo, cfg, exceptions=exceptions, follow=['get_residual'], never=never)
    ps = it.paths(f, self_class=f.cls)
    c.functions.add(f.where)
    c.functions |= it.inlined
    c.count('paths', len(ps))
    c.count('loop_states', sum(len(v) for v in it.loops_seen.values()))
    return f, it, ps


def events(t):
    """[(kind, args)] of a trace, as far back as it is one after the other; None for a part that is repeated or unknown"""
    if t.op == 'cat':
        return [e for x in t.args for e in events(x)]
    if t.op == 'one' and t.args[0].op == 'ev':
        return [(t.args[0].args[0], t.args[0].args[1:])]
    if t.op == 'ev':
        return [(t.args[0], t.args[1:])]
    return [None]


def unclear(*ts):
    return any(x.op in UNRESOLVED for t in ts for x in K.subterms(t))


def opaque_call(t, name):
    return t.op in ('call', 'm') and t.args[0] == name


# ---------------------------------------------------------------------------- C18
@check('C18')
def acceptance(c):
    c.rule('path analysis of the acceptance logic: ' + PATHS)
    c.rule('on every path that returns coverages, the facts of the path must imply: residual of these coverages under the energies '
           'of the call <= tolerance, error <= tolerance, no negative coverage; and the archive gets these coverages and their error')
    c.assumptions.append('a numeric function that returned once for certain arguments returns again for them; logging, archiving and call-backs do not raise ZeroDivisionError')
    where = SS + 'get_steady_state_cvgs'
    c.equiv(SS + 'get_residual', 'archive', 'get_residual', opaque=['steady_state_function'], ob='residual')
    try:
        f, it, ps = machine(c, where, {'steady_state_function', 'analytical_jacobian', 'next'})
    except TooMany as e:
        return c.undecided('acceptance', where, 'too many paths: %s' % e)
    n = 0
    for p in ps:
        if p.kind != 'ret' or p.val is NONE:
            continue
        for v in leaf_terms(p.val):
            if v is not NONE:
                n += 1
                accepted(c, f, it, p, v)
    if not n:
        c.undecided('acceptance', f.where, 'no path returns coverages')
    c.count('accepting_paths', n)


def accepted(c, f, it, p, v):
    say = lambda ok, ob, text: c.hold(ob, f.where, 'path at line %d' % p.line) if ok else \
        (c.undecided if ok is None else c.violated)(ob, f.where, text)
    facts = [a for a in p.pc]
    foggy = unclear(v) or any(unclear(a) for a in facts if mentions(a, v))
    no = None if foggy else False
    tol = it.value('self._owner.tolerance')
    res = [it.value(x, V=v) for x in ('max([abs(r) for r in self.steady_state_function(V, relative_energies)])',
                                      'self.get_residual(V, relative_energies)')]
    short = K.show(v)[:80]
    say(any(le(p.pc, r, tol) for r in res) or no, 'residual within tolerance', 'coverages %s are returned on a path on which their residual is not known to be within the tolerance' % short)
    bad = [it.value(x, V=v) for x in ('any([c < 0.0 for c in V])', 'min(V) < 0.0', 'not all([c >= 0.0 for c in V])')]
    physical = any(holds(b, p.pc) is False for b in bad) or constrained(it, v, set())
    say(physical or no, 'no negative coverage', 'coverages %s are returned on a path on which they may be negative' % short)
    n = [x for x in K.subterms(v) if x.op == 'var' and x.args[0].startswith('@i')]
    if len(n) == 1:
        say(le(p.pc, K.add(K.ONE, n[0]), it.value('self._owner.max_rootfinding_iterations')) or no, 'iteration limit',
            'coverages %s are returned on a path on which the iteration limit may be exhausted' % short)
    # the error
    evs = [e for e in events(p.st.heap.get(TRACE, EMPTY)) if e and e[0] == 'archive_data']
    got = {}
    for k, a in evs:
        if len(a) >= 3:
            got[a[1].args[0] if a[1].op == 'str' else K.show(a[1])] = a[2]
    say(got.get('steady_state_coverages') is v, 'archived coverages', 'the returned coverages are not the archived ones: %s' % K.show(got.get('steady_state_coverages', NONE))[:100])
    e = got.get('steady_state_error')
    if e is None:
        return say(False, 'archived error', 'no error is archived with the coverages')
    own = p.st.heap.get(it.value('self._error')) if False else field(p, '_error')
    say(own is e, 'archived error', 'the archived error %s is not the one the solver reports' % K.show(e)[:80])
    fx = it.value('self.steady_state_function(V, relative_energies)', V=v)
    pair = v.op == 'idx' and e.op == 'idx' and v.args[0] is e.args[0] and v.args[1] is K.ZERO and e.args[1] is K.ONE
    rest = K.subst(e, {fx: K.raw('var', 'FX')})
    belongs = pair or (rest is not e and not any(x.op == 'var' and (x.args[0].startswith('@') or x is v) for x in K.subterms(rest)))
    say(belongs or (None if foggy or unclear(e) else False), 'error belongs to the coverages', 'the error %s does not belong to the coverages %s' % (K.show(e)[:80], short))
    cands = [e] + (list(e.args) if e.op == 'min' else [])
    say(any(le(p.pc, x, tol) for x in cands) or no, 'error within tolerance', 'the error %s is not known to be within the tolerance' % K.show(e)[:80])


def field(p, name):
    for k, v in p.st.heap.items():
        if k.op == 'attr' and k.args[1] == name and K.show(k.args[0]) == 'self':
            return v
    return None


def mentions(a, v):
    return any(x is v for x in K.subterms(a))


def constrained(it, v, seen):
    """the value comes out of the constraint, whichever way it got here"""
    if v in seen:
        return True
    seen = seen | {v}
    if opaque_call(v, '__constrain_coverages'):
        return True
    if v.op == 'ite':
        return all(constrained(it, x, seen) for x in v.args[1:])
    if v in it.sources:
        return all(constrained(it, x, seen) for x in it.sources[v])
    return False


@check('C16')
def starts(c):
    c.rule('every root finder that get_steady_state_cvgs constructs, on any path, starts from what the constraint returned, and one that takes a constraint is given this one: ' + PATHS)
    where = SS + 'get_steady_state_cvgs'
    try:
        f, it, ps = machine(c, where, {'steady_state_function', 'analytical_jacobian', 'next'})
    except TooMany as e:
        return c.undecided('starting points', where, 'too many paths: %s' % e)
    finders = set()
    for paths in it.entries.values():
        for q in paths:
            for t in list(q.st.heap.values()) + list(q.st.env.values()):
                finders |= set(x for x in K.subterms(t) if x.op == 'new' and x.args[0].endswith('Newton'))
    c.count('root finders', len(finders))
    if not finders:
        c.undecided('starting points', f.where, 'no root finder is constructed')
    for x in sorted(finders, key=K.show):
        kw = {a.args[0]: a.args[1] for a in x.args[1:] if a.op == 'kw'}
        pos = [a for a in x.args[1:] if a.op != 'kw']
        x0 = kw.get('x0', pos[1] if len(pos) > 1 else None)
        if x0 is None:
            c.undecided('starting points', f.where, 'no starting point: %s' % K.show(x)[:100])
        elif constrained(it, x0, set()):
            c.hold('starting points', f.where, K.show(x0)[:100])
        else:
            (c.undecided if unclear(x0) else c.violated)('starting points', f.where, '%s starts from %s, which has not been constrained' % (x.args[0], K.show(x0)[:100]))
        if x.args[0] == 'ConstrainedNewton':
            k = kw.get('constraint')
            if k is not None and K.show(k) == 'self.__constrain_coverages':
                c.hold('constraint of iterates', f.where, K.show(k))
            else:
                (c.violated if k is None or not unclear(k) and k.op != 'closure' else c.undecided)('constraint of iterates', f.where, 'iterates are constrained by %s' % (K.show(k)[:100] if k is not None else 'nothing'))


@check('C18')
def iterates(c):
    for cls in ('ConstrainedNewton', 'MDNewton'):
        where = RI + cls + '.__iter__'
        f, it, ps = None, None, None
        try:
            f, it, ps = machine(c, where, False)
        except TooMany as e:
            c.undecided('error of an iterate (%s)' % cls, where, 'too many paths: %s' % e)
            continue
        seen = set()
        states = [q for l in it.loops_seen.values() for h, ends in l for q in ends] + ps
        n = 0
        for q in states:
            for e in events(q.st.heap.get(TRACE, EMPTY)):
                if not e or e[0] != 'yield' or e[1][0] in seen:
                    continue
                seen.add(e[1][0])
                n += 1
                yielded(c, f, it, cls, e[1][0])
        if not n:
            c.undecided('error of an iterate (%s)' % cls, f.where, 'nothing is yielded')


def yielded(c, f, it, cls, t):
    ob = 'error of an iterate (%s)' % cls
    if t.op != 'tuple' or len(t.args) != 3:
        return c.undecided(ob, f.where, 'yields %s' % K.show(t)[:80])
    x, e, fx = t.args
    fval = it.value('self.f(X)', X=x)
    rest = K.subst(e, {fval: K.raw('var', 'FX')})
    if rest is not e and not any(y.op == 'var' and y.args[0].startswith('@') or y.op == 'closure' for y in K.subterms(rest)) and K.show(e).split('(')[0].endswith('norm'):
        return c.hold(ob, f.where, K.show(rest))
    if unclear(e, x):
        return c.undecided(ob, f.where, 'error %s' % K.show(e)[:100])
    c.violated(ob, f.where, 'yields an error %s that is not the norm of the function at the yielded coverages %s' % (K.show(e)[:160], K.show(x)[:80]))


# ---------------------------------------------------------------------------- C35
STEP = '''
def step(self, inner, outer):
    for ap in self._owner.analysis:
        if inner % ap.interval == 0:
            ap.register_step(self._owner, inner, outer)
'''


@check('C35')
def registration(c):
    c.rule('value flow: registering an analysis adds one object of the class to the analyses of the model; what an analysis does not define does nothing')
    c.equiv('scaks/models/micro_kinetic_model.py:MicroKineticModel.analysis_register', 'errors', 'analysis_registered', observe=('heap', 'trace', 'rejected'), ob='registration')


@check('C35')
def lifecycle(c):
    c.rule('path analysis of the call-backs: ' + PATHS)
    c.rule('trace language of one attempt: nothing, or set-up of the first n analyses, the steps, finalisation of the same n analyses with '
           'the same attempt number, also when anything in between fails; every iteration that continues registers exactly the analyses '
           'whose interval divides the number of the iterate')
    c.assumptions.append('finalize and the archive do not fail')
    where = SS + 'get_steady_state_cvgs'
    try:
        f, it, ps = machine(c, where, True, never=('finalize', 'archive_data'))
    except TooMany as e:
        return c.undecided('life cycle', where, 'too many paths: %s' % e)
    A = it.value('self._owner.analysis')
    owner = it.value('self._owner')
    tr = lambda q: K.subst(q.st.heap.get(TRACE, EMPTY), {TRACE: EMPTY})
    loops = {n: l for n, l in it.loops_seen.items()}
    outer = [n for n, l in loops.items() if any(names(tr(q)) & {'setup', 'finalize'} for h, ends in l for q in ends)]
    steps = [n for n, l in loops.items() if n not in outer and
             (any('register_step' in names(tr(q)) for h, ends in l for q in ends) or
              any(tr(h).op == 'var' and 'setup' in names_of_sources(it, tr(h)) for h, ends in l))]
    g = Grammar(c, f, it, A, owner, STEP)
    for n in steps:
        for h, ends in loops[n]:
            for q in ends:
                g.continued(tr(h), tr(q), n, q)
        for q in it.exits.get(n, ()):
            if q.kind != 'raise' and 'register_step' in names(tr(q)):
                xs = g.items(tr(q))
                if xs and xs[0].op == 'var':
                    g.say(False, 'continued steps', 'a step that ends the attempt is registered: %s' % '; '.join(K.show(x)[:200] for x in xs), tr(q))
    done = set()
    for n in outer:
        for h, ends in loops[n]:
            for q in ends:
                if (tr(h), tr(q)) not in done:
                    done.add((tr(h), tr(q)))
                    g.attempt(tr(h), tr(q), q)
    for q in ps:
        if (None, tr(q)) not in done:
            done.add((None, tr(q)))
            g.attempt(None, tr(q), q)
    c.count('attempt_traces', len(done))
    if not steps:
        c.undecided('continued steps', f.where, 'no loop over the iterates found')
    if not outer:
        c.undecided('attempts', f.where, 'no loop over attempts found')


def names(t):
    return set(x.args[0] for x in K.subterms(t) if x.op == 'ev')


def names_of_sources(it, t):
    return set(n for s in sources(it, t) for n in names(s))


def sources(it, t):
    return [K.subst(s, {TRACE: EMPTY}) for s in it.sources.get(t, ())]


class Grammar(object):
    def __init__(self, c, f, it, A, owner, step):
        self.c, self.f, self.it, self.A, self.owner, self.step = c, f, it, A, owner, step
        self.n = K.length(A)

    def say(self, ok, ob, text, t):
        if ok:
            self.c.hold(ob, self.f.where, '')
        elif unclear(t):
            self.c.undecided(ob, self.f.where, text)
        else:
            self.c.violated(ob, self.f.where, text)

    def items(self, t):
        """flat list of what a trace consists of, without archiving"""
        out = []
        for x in (t.args if t.op == 'cat' else (t,)):
            if x.op == 'cat':
                out += self.items(x)
            elif x.op == 'one' and x.args[0].op == 'ev' and x.args[0].args[0] == 'archive_data':
                continue
            else:
                out.append(x)
        return out

    def over(self, x, kind):
        """(count, rest of the arguments) of a loop that does kind to the first count analyses"""
        if x.op != 'for':
            return None
        v, (b,) = K.open_binder(x)
        if b.op != 'one' or b.args[0].op != 'ev' or b.args[0].args[0] != kind:
            return None
        a = b.args[0].args[1:]
        n = x.args[0]
        if not (a[0] is K.index(self.A, v) or a[0] is K.index(self.A, K.sub(K.sub(n, K.ONE), v))):
            return None
        if any(K.depends(y, v) for y in a[1:]):
            return None
        return n, a[1:]

    # one attempt: trace since the attempts before
    def attempt(self, head, t, q):
        ob = 'one attempt'
        xs = self.items(t)
        if head is not None and xs and xs[0] is head:
            xs = xs[1:]
        else:
            while xs and xs[0].op == 'var' and 'setup' in names_of_sources(self.it, xs[0]) and 'finalize' in names_of_sources(self.it, xs[0]):
                xs = xs[1:]
        inner = False
        if xs and xs[0].op == 'var':
            # everything since an inner loop began
            inner = True
            src = [s for s in sources(self.it, xs[0]) if not any(y is xs[0] for y in K.subterms(s))]
            starts = [[y for y in self.items(s) if y.op != 'var'] for s in src]
            xs = xs[1:]
        else:
            starts = [[]]
        if not starts:
            return self.c.undecided(ob, self.f.where, 'trace %s' % K.show(t)[:200])
        for s in starts:
            self.judge(s + xs, inner, t, q)

    def judge(self, xs, inner, t, q):
        ob = 'one attempt'
        if not xs:
            return self.say(True, ob, '', t)
        left = list(xs)
        s = self.over(left[0], 'setup') if left else None
        if s is not None:
            left = left[1:]
        fin = self.over(left[-1], 'finalize') if left else None
        if fin is not None:
            left = left[:-1]
        rest = [y for y in left if 'register_step' not in names(y)]
        steps = [y for y in left if 'register_step' in names(y)]
        text = lambda w: '%s: %s (path ending at line %d)' % (w, '; '.join(K.show(y)[:160] for y in xs), q.line)
        fog = K.mk_cat(list(xs))
        if rest:
            w = 'call-backs outside their order'
            if any('setup' in names(y) for y in rest) and fin is None:
                w = 'analyses are set up and not finalised'
            return self.say(False, ob, text(w), fog)
        if s is None and fin is None and steps:
            return self.say(False, ob, text('steps without set-up'), fog)
        if s is None:
            n, a = fin
            return self.say(n is K.ZERO, ob, text('analyses are finalised that were not set up'), fog)
        if fin is None:
            return self.say(s[0] is K.ZERO, ob, text('analyses are set up and not finalised'), fog)
        if s[0] is not fin[0]:
            return self.say(False, ob, text('not the analyses that were set up are finalised'), fog)
        if s[1] != fin[1]:
            return self.say(False, ob, text('set-up and finalisation get different arguments'), fog)
        if s[1][0] is not self.owner:
            return self.say(False, ob, text('the call-backs do not get the model'), fog)
        if (steps or inner) and s[0] is not self.n:
            return self.say(False, ob, text('steps before all analyses are set up'), fog)
        for y in steps:
            for e in K.subterms(y):
                if e.op == 'ev' and e.args[0] == 'register_step' and (e.args[2] is not self.owner or e.args[4] is not s[1][1]):
                    return self.say(False, ob, text('a step gets another attempt number than the set-up'), fog)
        self.say(True, ob, '', fog)

    def continued(self, head, t, n, q):
        ob = 'continued steps'
        xs = self.items(t)
        if xs and xs[0] is head:
            xs = xs[1:]
        i = K.raw('var', '@i%d' % n)
        outer = set(e.args[4] for y in xs for e in K.subterms(y) if e.op == 'ev' and e.args[0] == 'register_step' and len(e.args) > 4)
        if not xs:
            return self.say(False, ob, 'an iteration continues without registering the step (path ending at line %d)' % q.line, t)
        if len(outer) != 1:
            return self.say(False, ob, 'steps of one iteration carry %d attempt numbers' % len(outer), t)
        want = self.it.trace_of(self.step, K.add(K.ONE, i), outer.pop())
        got = K.canon(K.mk_cat(xs))
        self.say(got is K.canon(want), ob, 'registers %s instead of %s' % (K.show(got)[:240], K.show(want)[:240]), got)


# ---------------------------------------------------------------------------- C44
class Integration(PathInterp):
    """an integrator object is a state: every step replaces its time, its values and its verdict"""

    def opaque_method(self, b, name, args, kw, st, fr, cands=()):
        state = lambda k: K.mk('attr', b, k)
        now = lambda k: st.heap.get(state(k), state(k))
        if name == 'set_initial_value' and args:
            st.heap[state('y')] = args[0]
            st.heap[state('t')] = args[1] if len(args) > 1 else kw.get('t', K.ZERO)
        elif name == 'integrate' and args:
            old = [now('t'), now('y')]
            r = PathInterp.opaque_method(self, b, name, args, kw, st, fr, cands)
            for k in ('t', 'y', '@ok'):
                st.heap[state(k)] = K.raw('m', 'integrate.' + k, b, args[0], *old)
            return r
        elif name == 'successful' and not args:
            return now('@ok')
        return PathInterp.opaque_method(self, b, name, args, kw, st, fr, cands)


@check('C44')
def integration(c):
    c.rule('path analysis of the integration: ' + PATHS)
    where = SS + 'solve_ode'
    f = c.repo.func(where)
    cfg = c.config(opaque=['steady_state_function', 'boltzmann_coverages', '__ode_flush', 'integrate', 'set_initial_value', 'set_integrator', 'successful'],
                   effects=['integrate', 'set_initial_value', 'set_integrator'])
    K.LIMIT[0] = K._counter[0] + 6000000
    it = Integration(c.repo, cfg, exceptions={'boltzmann_coverages'})
    try:
        ps = it.paths(f, self_class=f.cls)
    except TooMany as e:
        return c.undecided('integration', where, 'too many paths: %s' % e)
    c.functions.add(f.where)
    c.count('paths', len(ps))
    states = [q for l in it.loops_seen.values() for h, ends in l for q in ends] + ps
    objs = set(x.args[1] for q in states for x in K.subterms(q.st.heap.get(TRACE, EMPTY)) if x.op == 'ev' and x.args[0] in ('integrate', 'set_initial_value'))
    if len(objs) != 1:
        return c.undecided('integration', f.where, '%d integrator objects' % len(objs))
    Integral(c, f, it, objs.pop(), ps).run()


class Integral(object):
    def __init__(self, c, f, it, R, ps):
        self.c, self.f, self.it, self.R, self.ps = c, f, it, R, ps
        self.par = {n: it.value(n) for n in ('time_start', 'time_end', 'time_span', 'initial_cvgs')}

    def say(self, ok, ob, text, *ts):
        if ok:
            self.c.hold(ob, self.f.where, '')
        elif any(unclear(t) for t in ts if t is not None):
            self.c.undecided(ob, self.f.where, text)
        else:
            self.c.violated(ob, self.f.where, text)

    def now(self, q, k):
        a = K.mk('attr', self.R, k)
        return self.it.D(q.st.heap.get(a, a), q.st)

    def evs(self, t):
        return [e for e in events(K.subst(t, {TRACE: EMPTY})) if e is None or e[0] in ('integrate', 'set_initial_value')]

    def run(self):
        it = self.it
        # the function that is integrated
        T, Y = K.raw('var', '@T'), K.raw('var', '@Y')
        g = self.R.args[1] if self.R.op == 'call' and len(self.R.args) > 1 else None
        if g is None:
            self.say(None, 'equations', 'integrator %s' % K.show(self.R)[:80], K.raw('opaque', 'integrator'))
        else:
            got = K.canon(it.value('G(T, Y)', G=g, T=T, Y=Y))
            want = K.canon(it.value('list(self.steady_state_function(Y, relative_energies))', Y=Y))
            self.say(got is want, 'equations', 'integrates %s instead of the coverage time derivatives %s' % (K.show(got)[:200], K.show(want)[:120]), got)
        for q in self.ps:
            if q.kind == 'ret':
                self.finish(q)
                self.start(q)
        n = 0
        for l in it.entries.values():
            for q in l:
                self.start(q)
        for l in it.loops_seen.values():
            for h, ends in l:
                for q in ends:
                    if q.st.heap.get(TRACE) is not h.st.heap.get(TRACE) and 'integrate' in names(q.st.heap.get(TRACE, EMPTY)):
                        n += 1
                        self.step(q, h, True)
        for q in self.ps:
            if q.kind == 'ret' and any(e and e[0] == 'integrate' for e in self.evs(q.st.heap.get(TRACE, EMPTY))):
                self.step(q, None, False)
        if not n:
            self.c.undecided('steps', self.f.where, 'no loop over integration steps found')
        self.c.count('integration_steps', n)

    def start(self, q):
        t = K.subst(q.st.heap.get(TRACE, EMPTY), {TRACE: EMPTY})
        first = t.args[0] if t.op == 'cat' and t.args else t
        if first.op == 'var' and first in self.it.sources:
            return
        ob = 'start'
        es = [e for e in self.evs(t)]
        if not es or es[0] is None or es[0][0] != 'set_initial_value':
            return self.say(False, ob, 'integration without initial values', t)
        a = es[0][1]
        if len([e for e in es if e and e[0] == 'set_initial_value']) > 1:
            return self.say(False, ob, 'initial values are set more than once', t)
        y0, t0 = (a[1], a[2]) if len(a) > 2 else (a[1], K.ZERO)
        self.say(t0 is self.par['time_start'], ob, 'starts at time %s' % K.show(t0)[:80], t0)
        p4 = self.par['initial_cvgs']
        given = [v for a, v in q.pc.items() if a is K.mk('truthy', p4)] + [not v for a, v in q.pc.items() if a.op == 'isnone' and a.args[0] is p4]
        b = [self.it.value(x) for x in ('self.boltzmann_coverages()', '[0.0]*len(self._owner.adsorbate_names)')]
        if y0.op == 'ite':
            return self.say(None, ob, 'initial coverages %s' % K.show(y0)[:100], K.raw('opaque', 'start'))
        if y0 is p4 or not given or True in given:
            return self.say(y0 is p4 and False not in given, ob, 'starts from %s although coverages %s supplied' % (K.show(y0)[:80], 'are not' if y0 is p4 else 'may be'), y0)
        self.say(K.canon(y0) in [K.canon(x) for x in b], ob, 'starts from %s when no coverages are supplied' % K.show(y0)[:100], y0)

    def finish(self, q):
        want = self.it.D(self.it.value('(R.t, R.y.tolist())', q, R=self.R), q.st)
        got = self.it.D(q.val, q.st)
        self.say(got is want, 'result', 'returns %s instead of the last time and coverages %s' % (K.show(got)[:160], K.show(want)[:160]), got)
        t, ok = self.now(q, 't'), self.now(q, '@ok')
        reached = le(q.pc, self.par['time_end'], t)
        failed = holds(K.mk('truthy', ok), q.pc) is False
        self.say(reached or failed, 'end', 'returns before the end time although the integrator did not fail (facts: %s)' % '; '.join('%s%s' % ('' if v else 'not ', K.show(a)[:80]) for a, v in q.pc.items()), t, *q.pc)

    def step(self, q, h, goes_on):
        ob = 'steps'
        es = [e for e in self.evs(q.st.heap.get(TRACE, EMPTY)) if e and e[0] == 'integrate']
        if len(es) != 1:
            return self.say(False, ob, '%d integration steps in one iteration' % len(es), q.st.heap.get(TRACE))
        goal = es[0][1][1]
        new = self.now(q, 't')
        # time before the step, as recorded in the new state
        if not (new.op == 'm' and new.args[0] == 'integrate.t'):
            return self.say(False, ob, 'time after the step is %s' % K.show(new)[:80], new)
        old = new.args[3]
        self.say(goal is K.add(old, self.par['time_span']), ob, 'integrates to %s instead of one step further' % K.show(goal)[:100], goal)
        before = K.mk('lt0', K.sub(old, self.par['time_end']))
        self.say(holds(before, q.pc) is True, ob, 'a step is done although the end time may have been reached', *q.pc)
        if goes_on:
            self.say(holds(K.mk('truthy', self.now(q, '@ok')), q.pc) is True, 'termination', 'the integration goes on although the integrator may have failed', *q.pc)
