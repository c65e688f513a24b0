"""Root finders: where an iterate comes from."""
import copy

from . import check
from engine import terms as K
from engine.terms import raw, ONE
from engine.interp import TRACE
from engine.paths import TooMany, holds
from .histories import RI, PATHS, machine, events, unclear

SOLVE = {'ConstrainedNewton': 'self._Axb_solver(self._J(X), -self._matrix(self.f(X)))', 'MDNewton': 'mp.lu_solve(self.J(X), -mp.matrix(self.f(X)))'}
NORM = {'ConstrainedNewton': 'self._norm(self._matrix(self.f(X)))', 'MDNewton': 'self.norm(mp.matrix(self.f(X)))'}


@check('C46')
def newton(c):
    c.rule('every yield of a root finder, on any path: ' + PATHS)
    c.rule('the yielded vector is the previous one plus a multiple of the solution of (Jacobian at the previous one) s = -(function there); '
           'a finder goes on only when the vector moved, the damped one only when the norm became smaller; its step starts at the full one and is cut to a fixed share')
    for cls in ('ConstrainedNewton', 'MDNewton'):
        where = RI + cls + '.__iter__'
        try:
            f, it, ps = machine(c, where, False)
        except TooMany as e:
            c.undecided('iterates (%s)' % cls, where, 'too many paths: %s' % e)
            continue
        Finder(c, f, it, cls).decide([q for l in it.loops_seen.values() for h, ends in l for q in ends] + ps)


def core(t):
    """the vector given to the constraint"""
    while t.op == 'm' and t.args[0] in ('constraint', 'real_constraint', 'pseudo_constraint', '_constraint') and len(t.args) == 3 or \
            t.op == 'callv' and len(t.args) == 2 and 'constraint' in K.show(t.args[0]):
        t = t.args[-1]
    return t


def exact(t):
    """without the conversions of the step length"""
    found = {x: exact(x.args[2]) for x in K.subterms(t) if x.op == 'm' and x.args[0] == '_mpfloat' and len(x.args) == 3}
    return K.subst(t, found) if found else t


class Finder(object):
    def __init__(self, c, f, it, cls):
        self.c, self.f, self.it, self.cls = c, f, it, cls
        self.done = set()
        self.fixed, self.moving = set(), False      # previous vectors that no loop carries; others

    def say(self, how, what, detail):
        k = (how, what, detail)
        if k not in self.done:
            self.done.add(k)
            getattr(self.c, how)('%s (%s)' % (what, self.cls), self.f.where, detail)

    def judge(self, ok, what, detail, *ts):
        self.say('hold' if ok else 'undecided' if unclear(*ts) else 'violated', what, detail)

    def decide(self, states):
        n = 0
        for q in states:
            es = [e for e in events(K.subst(q.st.heap.get(TRACE, K.EMPTY), {TRACE: K.EMPTY})) if e and e[0] == 'yield']
            if not es:
                continue
            n += 1
            for e in es:
                t = e[1][0]
                if t.op != 'tuple' or len(t.args) != 3:
                    self.say('undecided', 'iterate', 'yields %s' % K.show(t)[:80])
                    continue
                self.iterate(q, t.args[0])
        if not n:
            self.say('undecided', 'iterate', 'nothing is yielded')
        if False in self.fixed or self.fixed and not self.moving:
            self.say('undecided' if False in self.fixed else 'violated', 'previous iterate', 'the iterates start from the same vector every time')

    def solver_calls(self, t):
        name = ('m', '_Axb_solver') if self.cls == 'ConstrainedNewton' else ('call', 'mpmath.lu_solve')
        return set(x for x in K.subterms(t) if x.op == name[0] and x.args[0] == name[1])

    def resolve(self, y, seen=()):
        """the values an unknown of the loops stands for"""
        if y in self.it.sources and y not in seen:
            return [z for x in self.it.sources[y] if x.op != 'undef' for z in self.resolve(x, seen + (y,))]
        return [y]

    def iterate(self, q, y):
        zs = [y]
        if not self.solver_calls(y) and y in self.it.sources:
            zs = [x for x in self.it.sources[y] if x.op != 'undef']
        if not any(self.solver_calls(z) for z in zs):
            return self.stays(q, y)
        for z in zs:
            self.direction(q, y, z)

    def stays(self, q, y):
        """the previous vector once more: only as the last one"""
        moved = [a for a, v in q.pc.items() if a.op == 'eq' and v and y in a.args]
        self.judge(q.kind == 'ret' and bool(moved), 'end', 'the same vector is yielded again %s' % ('and the iteration ends' if q.kind == 'ret' else 'and the iteration goes on'), y)

    def direction(self, q, y, z):
        # the constraint, if there is one
        body = core(z)
        calls = self.solver_calls(body)
        if body.op == 'ite':
            for x in body.args[1:]:
                self.direction(q, y, x)
            return
        if len(calls) != 1:
            return self.judge(False, 'direction', 'the iterate %s is not one step along a solution' % K.show(z)[:200], z)
        s, = calls
        # the point at which the Jacobian is taken
        jac = [x for x in K.subterms(s) if x.op == 'm' and x.args[0] in ('_J', 'J')]
        if len(jac) != 1 or len(jac[0].args) != 3:
            return self.judge(False, 'direction', 'the system solved is %s' % K.show(s)[:200], s)
        x = jac[0].args[2]
        sign = 1 if s is self.it.value(SOLVE[self.cls], X=x) else -1 if s is self.it.value(SOLVE[self.cls].replace('-', ''), X=x) else 0
        self.judge(bool(sign), 'direction', 'the system solved is %s' % K.show(s)[:200], s)
        if not sign:
            return
        base = set([x, self.it.value('self._matrix(X)' if self.cls == 'ConstrainedNewton' else 'mp.matrix(X)', X=x)])
        at, lengths = [], []
        for m, k in K.to_poly(body).items():
            fs = dict(m)
            if s in fs:
                if fs[s] is not ONE or any(p in fs for p in base):
                    return self.judge(False, 'step', 'the step is %s' % K.show(body)[:200], body)
                lengths.append(K.from_poly({tuple((a, e) for a, e in m if a is not s): k * sign}))
            else:
                at.append((m, k))
        ok = len(lengths) == 1 and len(at) == 1 and at[0][1] == 1 and len(at[0][0]) == 1 and at[0][0][0][0] in base and at[0][0][0][1] is ONE
        self.judge(ok, 'step', 'the iterate is %s' % K.show(body)[:200], body)
        if not ok:
            return
        self.length(q, lengths[0], x, K.mul(K.num(sign), s))
        self.goes_on(q, y, x)
        self.chain(x, y, z)

    def length(self, q, a, x, s):
        if self.cls == 'MDNewton':
            ok = K.is_num(a) and a is ONE
            if not ok:
                # a share of the step tried before
                p = K.to_poly(a)
                (m, k), = p.items() if len(p) == 1 else (((), 0),)
                u = m[0][0] if len(m) == 1 and m[0][1] is ONE else None
                ok = u in self.it.sources and 0 < k < 1 and all(v is ONE or self.share(v, u) for v in self.it.sources[u] if v.op != 'undef')
            self.judge(ok, 'step length', 'full step, or a share of the one before: %s' % K.show(a)[:100], a)
            return
        found = [t for t in K.subterms(a) if t.op == 'call' and t.args[0] == 'scipy.optimize.golden']
        fns = [t.args[1] for t in found if len(t.args) > 1]
        if len(fns) != 1:
            return self.say('undecided', 'step length', 'chosen by %s' % K.show(a)[:100])
        l = raw('var', 'step length')
        try:
            st = self.it.cp(q.st)
            got = self.it.rw(self.it.D(self.it.call(fns[0], [l], {}, st, copy.copy(self.it.frame)), st))
        except Exception as e:
            return self.say('undecided', 'step length', 'line search not read: %r' % e)
        want = self.it.value('self._norm(self._matrix(self.f(self._matrix(X) + L*S)))', X=x, L=exact(K.subst(a, {found[0]: l})), S=s)
        got = exact(got)
        ok = got is want
        (self.say('undecided', 'step length', 'line search of %s' % K.show(got)[:200]) if not ok and (unclear(got) or got.op in ('callv', 'closure')) else
         self.judge(ok, 'step length', 'line search minimises %s' % K.show(got)[:200], got))

    def share(self, v, u):
        p = K.to_poly(v)
        return len(p) == 1 and list(p)[0] == ((u, ONE),) and 0 < list(p.values())[0] < 1

    def goes_on(self, q, y, x):
        if q.kind != 'fall':
            known = any(a.op == 'eq' and v and x in a.args for a, v in q.pc.items())
            return self.judge(known, 'end', 'the iteration ends only where the vector did not move', *q.pc)
        if self.cls == 'MDNewton':
            less = K.mk('lt0', K.sub(self.it.value(NORM[self.cls], X=y), self.it.value(NORM[self.cls], X=x)))
            self.judge(holds(less, q.pc) is True, 'progress', 'the error of the next iterate is smaller', y)
        else:
            same = [v for a, v in q.pc.items() if a.op == 'eq' and x in a.args]
            self.judge(same == [False], 'progress', 'goes on only when the vector moved', y)

    def chain(self, x, y, z):
        """the previous vector is the start or what was yielded before"""
        starts = [self.it.value(t) for t in ('self.x0', 'self.pseudo_constraint(self.x0)', 'self.constraint(self.x0)', 'self._constraint(self.x0)', 'self.real_constraint(self.x0)')]
        if x not in self.it.sources:
            self.fixed.add(x in starts)
            return
        self.moving = True
        same = [v for v in self.it.sources[x] if v is y or core(v) is core(z) and (core(v) is v) == (core(z) is z)]
        odd = [v for v in self.it.sources[x] if v not in same and v not in starts]
        if not same and not odd:
            return self.judge(False, 'previous iterate', 'the iterates start from the same vector every time', *self.it.sources[x])
        self.judge(not odd, 'previous iterate', 'the start or the iterate before%s' % (': %s' % K.show(odd[0])[:160] if odd else ''), *odd)
