"""Differences between two summaries, case by case, leaving out the cases that cannot occur.

A case fixes the outcome of every closed condition of the two terms.  Whether a case can occur is decided by an
abstract domain of linear inequalities (Fourier-Motzkin over the monomials; lengths and first indices are
non-negative integers) and by the meaning of 'exists' / 'first index with'."""
import time
from fractions import Fraction

from . import terms as K
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, num, is_num, is_const

INTS = {'len', 'first', 'lastm'}


def subterms(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        todo.extend(K.children(x))


def pick(t):
    """an undecided closed condition, outermost first"""
    seen, todo, i = set(), [t], 0
    while i < len(todo):
        x = todo[i]
        i += 1
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'ite':
            c = x.args[0]
            if not c.fv and not c.bvs:
                for y in subterms(c):
                    if y.op == 'ite' and not y.args[0].fv and not y.args[0].bvs:
                        return y.args[0]
                return c
        elif x.op == 'ind' and not x.fv and not x.bvs:
            for y in subterms(x.args[0]):
                if y.op == 'ite' and not y.args[0].fv and not y.args[0].bvs:
                    return y.args[0]
            return x.args[0]
        todo.extend(K.children(x))
    return None


# ---------------------------------------------------------------------------- linear constraints
def linear(p):
    """{monomial: coefficient}"""
    return dict(K.to_poly(p))


def is_int(m):
    return all(a.op in INTS and e is ONE for a, e in m)


def nonneg(m):
    return all(a.op in INTS or K.POSITIVE is not None and K.POSITIVE(a) or (is_num(e) and e.args[0] % 2 == 0) for a, e in m)


def infeasible(cons):
    """cons: list of ({monomial: coefficient}, strict) meaning  sum < 0  or  sum <= 0"""
    cons = [(dict(d), s) for d, s in cons]
    ms = set(m for d, _ in cons for m in d if m)
    for m in ms:
        if nonneg(m):
            cons.append(({m: Fraction(-1)}, False))
    # integers: p < 0  ->  p + 1 <= 0
    out = []
    for d, s in cons:
        if s and all(is_int(m) for m in d if m) and all(c.denominator == 1 for c in d.values()):
            d = dict(d)
            d[()] = d.get((), Fraction(0)) + 1
            s = False
        out.append((d, s))
    cons = out
    while True:
        for d, s in cons:
            if not any(m for m in d if m and d[m]):
                c = d.get((), Fraction(0))
                if c > 0 or (s and c == 0):
                    return True
        cons = [(d, s) for d, s in cons if any(m and d[m] for m in d)]
        if not cons:
            return False
        count = {}
        for d, s in cons:
            for m in d:
                if m and d[m]:
                    p, n = count.get(m, (0, 0))
                    count[m] = (p + (d[m] > 0), n + (d[m] < 0))
        m = min(count, key=lambda k: count[k][0] * count[k][1])
        up = [x for x in cons if x[0].get(m, 0) > 0]
        lo = [x for x in cons if x[0].get(m, 0) < 0]
        rest = [x for x in cons if not x[0].get(m, 0)]
        if len(rest) + len(up) * len(lo) > 300:
            return False
        for d1, s1 in up:
            for d2, s2 in lo:
                k1, k2 = -d2[m], d1[m]
                d = {}
                for x in set(d1) | set(d2):
                    if x != m:
                        v = d1.get(x, 0) * k1 + d2.get(x, 0) * k2
                        if v:
                            d[x] = Fraction(v)
                rest.append((d, s1 or s2))
        seen, cons = set(), []
        for d, s in rest:
            key = (tuple(sorted(((K.mono_key(m), c) for m, c in d.items()), key=repr)), s)
            if key not in seen:
                seen.add(key)
                cons.append((d, s))


def arithmetic(t):
    return t.op in ('num', 'poly') or t.op in INTS


class Case(object):
    def __init__(self):
        self.facts = {}       # term -> value
        self.path = []        # (condition, outcome)
        self.cons = []

    def assume(self, c, val):
        """a new case, or None when it cannot occur"""
        k = Case()
        k.facts = dict(self.facts)
        k.path = self.path + [(c, val)]
        k.cons = list(self.cons)
        todo = [(c, val)]
        n = 0
        while todo:
            n += 1
            if n > 40:
                break
            c, val = todo.pop()
            if c is TRUE or c is FALSE:
                if (c is TRUE) != val:
                    return None
                continue
            if c.op == 'ite':
                # forced atoms of a condition
                c2 = K._Simp().go(c, k.facts, {})
                if c2 is not c:
                    todo.append((c2, val))
                    continue
                for x in atoms(c):
                    a, b = K.cofactor(c, x, True), K.cofactor(c, x, False)
                    bad = FALSE if val else TRUE
                    if a is bad:
                        todo.append((x, False))
                    if b is bad:
                        todo.append((x, True))
                continue
            old = k.facts.get(c)
            if old is not None:
                if (old is TRUE) != val and old in (TRUE, FALSE):
                    return None
                if old in (TRUE, FALSE):
                    continue
            k.facts[c] = TRUE if val else FALSE
            if K.IMPLIED is not None:
                todo.extend(K.IMPLIED(c, val))
            if c.op == 'lt0':
                d = linear(c.args[0])
                k.cons.append((d, True) if val else ({m: -x for m, x in d.items()}, False))
                if infeasible(k.cons):
                    return None
            elif c.op == 'eq':
                x, y = c.args
                if is_const(x):
                    x, y = y, x
                if arithmetic(x) or arithmetic(y):
                    d = linear(K.sub(x, y)) if not (is_const(y) and not is_num(y)) else None
                    if d is not None:
                        if val:
                            k.cons += [(d, False), ({m: -v for m, v in d.items()}, False)]
                        elif x.op in INTS and y is ZERO:
                            k.cons.append(({((x, ONE),): Fraction(-1)}, True))
                        if infeasible(k.cons):
                            return None
                if val and is_const(y) and not is_const(x):
                    if x in k.facts and k.facts[x] is not y:
                        return None
                    k.facts[x] = y
                elif val and not is_num(x) and not is_num(y):
                    # one stands for the other
                    x, y = (x, y) if x.uid > y.uid else (y, x)
                    if x not in subterms(y) and x.op not in ('poly', 'cat', 'for', 'one', 'tuple') and x not in k.facts:
                        k.facts[x] = y
                if not val and x.op == 'len' and is_num(y) and y.args[0] in (2, 3) and K.TWO_OR_THREE is not None and K.TWO_OR_THREE(x):
                    k.facts[x] = num(5 - y.args[0])
            elif c.op == 'isnone' and val:
                k.facts[c.args[0]] = NONE
            elif c.op == 'any' and val:
                # the first index with the property exists, lies in range and has it
                v, (b,) = K.open_binder(c)
                f = K.close('first', c.args[0], v, b)
                d = linear(K.sub(f, c.args[0]))
                k.cons.append((d, True))
                if infeasible(k.cons):
                    return None
                todo.append((K.subst(b, {v: f}), True))
        return k

    def apply(self, t):
        for _ in range(4):
            u = K._Simp().go(t, self.facts, {})
            if u is t:
                return u
            t = u
        return t


def atoms(c):
    out = []

    def go(t):
        if t.op == 'ite':
            if t.args[0] not in out:
                out.append(t.args[0])
            go(t.args[1])
            go(t.args[2])
    go(c)
    return out


class Incomplete(Exception):
    pass


def differing(a, b, seconds=20, steps=1500, start=None):
    """yields (case, a', b') for the cases that can occur and in which the terms differ; raises Incomplete"""
    end = time.time() + seconds
    n = [0]
    stack = [(start or Case(), a, b)]
    while stack:
        case, x, y = stack.pop()
        if x is y:
            continue
        n[0] += 1
        if n[0] > steps or time.time() > end:
            raise Incomplete()
        c = pick(x)
        if c is None:
            c = pick(y)
        if c is None:
            yield case, x, y
            continue
        for val in (False, True):
            k = case.assume(c, val)
            if k is not None:
                x2, y2 = k.apply(x), k.apply(y)
                if (x2 is x and y2 is y):
                    # the condition did not go away: cannot be decided this way
                    yield k, x, y
                else:
                    stack.append((k, x2, y2))


# ---------------------------------------------------------------------------- short sequences
def counts(t):
    """lengths that loops of the term run over, those of unfinished loops first"""
    hard, soft = [], []
    for x in subterms(t):
        if x.op in K.BINDERS and x.op not in ('while', 'lam'):
            for y in subterms(x.args[0]):
                if y.op == 'len' and not y.fv and not y.bvs:
                    l = hard if x.op in ('fold', 'first', 'lastm') else soft
                    if y not in l:
                        l.append(y)
    return hard, [x for x in soft if x not in hard]


def short(t, x, k):
    """the term for sequences with x == k"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t is x:
            r = num(k)
        elif not K.children(t):
            r = t
        elif t.op in K.BINDERS:
            v, bodies = K.open_binder(t)
            n = go(t.args[0])
            bodies = [goa(b) for b in bodies]
            if is_num(n) and n.args[0].denominator == 1 and n.args[0] <= 4:
                r = unroll(t.op, int(n.args[0]), v, bodies)
            else:
                r = None
            if r is None:
                r = K.mkb(t.op, n, v, *bodies)
        else:
            r = K.mk(t.op, *[goa(a) for a in t.args])
        memo[t] = r
        return r

    def goa(a):
        if type(a) is T:
            return go(a)
        if type(a) is tuple:
            return tuple(goa(b) for b in a)
        return a
    return go(t)


def unroll(op, n, v, bodies):
    at = lambda b, i: K.subst(b, {v: num(i)})
    if op in ('first', 'lastm'):
        order = range(n) if op == 'first' else range(n)[::-1]
        r = None
        for i in reversed(list(order)):
            r = num(i) if r is None else K.cond(at(bodies[0], i), num(i), r)
        return r
    if op == 'sfor':
        r = K.const('')
        for i in range(n):
            r = K.add(r, at(bodies[0], i)) if False else K.mk('scat', r, at(bodies[0], i))
        return r
    if op == 'fold':
        init, body, name = bodies[0], bodies[1], bodies[-1]
        if any(y.op == 'while' or y.op == 'fold' and y.args[-1] is name for y in subterms(body)):
            return None
        if len(bodies) == 3:
            x = init
            for i in range(n):
                x = K.subst(K.subst(body, {v: num(i)}), {K.raw('bvlc', name.args[0]): x})
            return x
        xs = list(init.args)
        for i in range(n):
            m = {K.raw('bvlc', '%s%d' % (name.args[0], j)): y for j, y in enumerate(xs)}
            xs = [K.subst(at(b, i), m) for b in body.args]
        return xs[int(bodies[2].args[0])]
    return None


def differing_short(a, b, seconds=25, start=None, depth=3, end=None):
    """(k, case, a', b') for short sequences"""
    end = end or time.time() + seconds
    hard, soft = counts(a)
    h2, s2 = counts(b)
    xs = hard + [x for x in h2 if x not in hard]
    if not xs and depth == 3:
        xs = soft + [x for x in s2 if x not in soft]
    for x in xs[:3]:
        for k in ((1, 2, 3) if len(xs) == 1 and depth == 3 else (1, 2)):
            left = end - time.time()
            if left < 1:
                return
            try:
                y, z = settle(short(a, x, k)), settle(short(b, x, k))
                case = Case()
                case.facts = dict(start.facts) if start else {}
                case.facts[x] = num(k)
                if y is z:
                    continue
                if depth > 1 and (counts(y)[0] or counts(z)[0]):
                    for r in differing_short(y, z, start=case, depth=depth - 1, end=end):
                        yield r
                    continue
                for c, p, q in differing(y, z, seconds=min(left, 8), start=case):
                    if any(val and d.op == 'eq' and positions(d.args) for d, val in c.path):
                        continue
                    yield (x, k), c, p, q
            except (Incomplete, K.Budget, RecursionError):
                pass


def settle(t):
    """assignments to elements of arrays as sums of contributions"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not K.children(t) or t.op in K.BINDERS:
            r = t
        else:
            r = K.mk(t.op, *[goa(a) for a in t.args])
            if r.op == 'augs' and r.args[0].op == 'acc':
                a, d = r.args[0], r.args[1]
                r = K.raw('acc', a.args[0], K.add(a.args[1], d))
            elif r.op == 'upd' and r.args[0].op == 'acc' and r.args[0].args[0].op == 'arr':
                a, d = r.args[0].args
                for p in (r.args[1].args if r.args[1].op == 'cat' else [r.args[1]]):
                    c = cell(d, p.args[0].args[0]) if d is not None and p.op == 'one' and p.args[0].op == 'pair' else None
                    d = K.add(d, K.mul(K.sub(K.to_ind(p.args[0].args[1]), c), K.raw('unit', p.args[0].args[0]))) if c is not None else None
                if d is not None:
                    r = K.raw('acc', a, d)
            elif r.op == 'idx' and r.args[0].op == 'acc' and r.args[0].args[0].op == 'arr':
                c = cell(r.args[0].args[1], r.args[1])
                if c is not None:
                    r = c
        memo[t] = r
        return r

    def goa(a):
        if type(a) is T:
            return go(a)
        if type(a) is tuple:
            return tuple(goa(b) for b in a)
        return a
    return go(t)


def cell(d, k):
    """the element k of an array of zeros with the contributions d"""
    out = ZERO
    for m, c in K.to_poly(d).items():
        u = [f for f, e in m if f.op == 'unit' and e is ONE]
        if len(u) != 1:
            return None
        rest = K.from_poly({tuple(q for q in m if q[0] is not u[0]): c})
        if 'unit' in set(x.op for x in subterms(rest)):
            return None
        out = K.add(out, K.mul(rest, K.to_ind(K.cond(K.eq(u[0].args[0], k), ONE, ZERO))))
    return out


def positions(args):
    """elements at two different places of one sequence"""
    a, b = args
    return a.op == 'idx' and b.op == 'idx' and a.args[0] is b.args[0]
