"""Hash-consed terms and their normal form.

A term is the value-flow summary of a piece of Python source.  Two terms are equal iff they are
the same object, because every constructor brings its arguments to a normal form:

* numbers        Laurent polynomials with rational coefficients over atoms, symbolic exponents,
                 exp/log merged, sums of terms factored inside negative powers
* conditions     ordered decision diagrams over canonical atomic conditions
* sequences      free monoid with a binder:  cat | one | for(n, body) | ite | opaque
* strings        the same for characters
* binders        alpha-canonical (bound variable named by the height of the binder)

Nothing here executes code of the analysed program.
"""
from fractions import Fraction
import os
import sys

sys.setrecursionlimit(20000)


class Budget(Exception):
    """The term became too large: the analysis gives up (undecided)."""


class T(object):
    __slots__ = ('op', 'args', 'uid', 'fv', 'bvs', 'bh', 'memo')

    def __repr__(self):
        return show(self)


_table = {}
_counter = [0]
LIMIT = [3000000]
BINDERS = {'for', 'sum', 'prod', 'any', 'sfor', 'first', 'lastm', 'fold', 'while', 'lam'}
NO = frozenset()


def _children(args):
    for a in args:
        if type(a) is T:
            yield a
        elif type(a) is tuple:
            for b in _children(a):
                yield b


def children(t):
    return list(_children(t.args))


def raw(op, *args):
    key = (op, args)
    r = _table.get(key)
    if r is not None:
        return r
    _counter[0] += 1
    if _counter[0] > LIMIT[0]:
        raise Budget('term budget exhausted')
    r = T()
    r.op, r.args, r.uid = op, args, _counter[0]
    r.memo = None
    if op in ('v', 'lc', 'loc'):
        r.fv, r.bvs, r.bh = frozenset([args[-1]]), NO, 0
    elif op == 'bv':
        r.fv, r.bvs, r.bh = NO, frozenset([args[0]]), 0
    else:
        fv, bvs, bh = NO, NO, 0
        for c in _children(args):
            if c.fv:
                fv = fv | c.fv if fv else c.fv
            if c.bvs:
                bvs = bvs | c.bvs if bvs else c.bvs
            if c.bh > bh:
                bh = c.bh
        if op in BINDERS:
            bh = max([c.bh for c in _children(args[1:])] + [0]) + 1
            bvs = frozenset(b for c in _children(args[1:]) for b in c.bvs if b != bh)
            for c in _children(args[:1]):
                bvs = bvs | c.bvs
            bh = max([bh] + [c.bh for c in _children(args[:1])])
        r.fv, r.bvs, r.bh = fv, bvs, bh
    _table[key] = r
    return r


_fresh = [0]


def fresh(op='v', *name):
    _fresh[0] += 1
    return raw(op, *(name + (_fresh[0],)))


def binder_height(t):
    return max([c.bh for c in _children(t.args[1:])] + [0]) + 1


# ---------------------------------------------------------------------------- substitution
def subst(t, m):
    """Simultaneous substitution; m maps terms to terms."""
    if not m:
        return t
    keys_fv = set()
    keys_bv = set()
    general = False
    for k in m:
        if k.op in ('v', 'lc', 'loc'):
            keys_fv.add(k.args[-1])
        elif k.op == 'bv':
            keys_bv.add(k.args[0])
        else:
            general = True
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not general and not (keys_fv & x.fv) and not (keys_bv & x.bvs):
            r = x
        elif not any(True for _ in _children(x.args)):
            r = x
        elif x.op in BINDERS:
            v, bodies = open_binder(x)
            r = mkb(x.op, go(x.args[0]), v, *[goarg(b) for b in bodies])
        else:
            r = mk(x.op, *[goarg(a) for a in x.args])
        memo[x] = r
        return r

    def goarg(a):
        if type(a) is T:
            return go(a)
        if type(a) is tuple:
            return tuple(goarg(b) for b in a)
        return a
    return go(t)


def open_binder(t, v=None):
    """-> (variable, bodies) with the bound variable replaced by v (fresh by default)."""
    h = binder_height(t)
    v = v if v is not None else fresh()
    b = raw('bv', h)

    def s(a):
        if type(a) is T:
            return subst(a, {b: v}) if h in a.bvs else a
        if type(a) is tuple:
            return tuple(s(x) for x in a)
        return a
    return v, [s(a) for a in t.args[1:]]


def close(op, n, v, *bodies):
    """Raw binder over v."""
    h = 1 + max([c.bh for c in _children(bodies)] + [0])
    b = raw('bv', h)

    def s(a):
        if type(a) is T:
            return subst(a, {v: b})
        if type(a) is tuple:
            return tuple(s(x) for x in a)
        return a
    if op in ('first', 'any') and n.op == 'len' and len(bodies) == 1 and type(bodies[0]) is T:
        # the first place that holds x, whether there is one
        q = bodies[0].args[0] if bodies[0].op == 'ite' and bodies[0].args[1] is TRUE and bodies[0].args[2] is FALSE else bodies[0]
        for p, x in (q.args, q.args[::-1]) if q.op == 'eq' else ():
            if p.op == 'idx' and p.args[1] is v and p.args[0] is n.args[0] and not depends(x, v) and not depends(p.args[0], v):
                return mk('m', 'index', p.args[0], x) if op == 'first' else cond(contains(x, p.args[0]), TRUE, FALSE)
    # substitution renormalises; heights inside do not change
    new = [s(a) for a in bodies]
    h2 = 1 + max([c.bh for c in _children(new)] + [0])
    if h2 != h:
        b2 = raw('bv', h2)
        new = [subst(a, {b: b2}) if type(a) is T else a for a in new]
    return raw(op, n, *new)


def depends(t, v):
    return v.args[-1] in t.fv


# ---------------------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if v is None:
        return NONE
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        return num(Fraction(repr(v))) if v == v and v not in (float('inf'), float('-inf')) else raw('const', 'float', repr(v))
    if isinstance(v, str):
        return raw('str', v)
    return raw('const', type(v).__name__, repr(v))


def num(q):
    return raw('num', Fraction(q))


TRUE = raw('const', 'bool', 'True')
FALSE = raw('const', 'bool', 'False')
NONE = raw('const', 'None', 'None')
ZERO, ONE = num(0), num(1)
EULER = raw('sym', 'e')
PI = raw('sym', 'pi')


TYPES = {'int', 'list', 'tuple', 'dict', 'str', 'float', 'bool', 'set', 'complex'}


def is_const(t):
    return t.op in ('const', 'num', 'str') or (t.op == 'ext' and t.args[0] in TYPES)


def is_num(t):
    return t.op == 'num'


# ---------------------------------------------------------------------------- conditions
def mk_ite(c, a, b):
    """c: an atomic condition."""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c.op == 'eq':
        x, k = c.args
        if is_const(k) or is_const(x):
            if not is_const(k):
                x, k = k, x
            if not is_const(x):
                a = assume_eq(a, x, k)
                if a is b:
                    return a
                if x.op not in ('bv',) and subst_ok(b, x):
                    if subst(b, {x: k}) is a:
                        return b
                r = equal_branch(c, a, b)
                if r is not None:
                    return r
        else:
            r = equal_branch(c, a, b)
            if r is not None:
                return r
    if c.op == 'lt0':
        a, b = known_abs(c, a, True), known_abs(c, b, False)
        if a is b:
            return a
    if c.op == 'any' and a.op != 'ite':
        # a loop that does nothing when no element satisfies the condition needs no guard
        if without(a, c) is b:
            return a
    if c.op == 'lt0' and a.op != 'ite' and b.op != 'ite' and numeric(a) and numeric(b):
        d = sub(a, b)
        if lt0(d) is c:
            return mk_minmax('min', [a, b])
        if lt0(neg(d)) is c:
            return mk_minmax('max', [a, b])
        r = clipped(c, a, b)
        if r is not None:
            return r
    r = push_ite(c, a, b)
    if r is not None:
        return r
    return raw('ite', c, a, b)


def clipped(c, a, b):
    """x beyond one bound ? that bound : x kept within the other bound"""
    for k, y, sign in ((a, b, 1), (b, a, -1)):
        # c: k is chosen (sign 1), or k is not chosen (sign -1)
        if not is_num(k) or y.op not in ('max', 'min'):
            continue
        rest = [x for x in y.args if is_num(x)]
        xs = [x for x in y.args if not is_num(x)]
        if len(xs) != 1 or len(rest) != 1:
            continue
        x, m = xs[0], rest[0]
        d = sub(k, x) if sign == 1 else sub(x, k)
        if y.op == 'max' and m.args[0] <= k.args[0] and lt0(d) is c:
            return mk_minmax('min', [k, y])
        if y.op == 'min' and m.args[0] >= k.args[0] and lt0(neg(d)) is c:
            return mk_minmax('max', [k, y])
    return None


EQ_OPS = ('poly', 'sum', 'prod', 'num', 'm', 'idx', 'attr', 'var', 'sum')


def equal_branch(c, a, b):
    """x == y ? a : b  is  b  where b means a for equal x, y"""
    x, y = c.args
    if not arithmetic(a) or not arithmetic(b):
        return None
    if x.op in ('str', 'const') or y.op in ('str', 'const'):
        return None
    d = to_poly(sub(x, y))
    for m, k in sorted(d.items(), key=lambda i: mono_key(i[0]), reverse=True):
        if len(m) == 1 and m[0][1] is ONE:
            at = m[0][0]
            rest = {q: -r / k for q, r in d.items() if q != m}
            if any(f is at for q in rest for f, _ in q):
                continue
            v = from_poly(rest)
            b2 = subst(b, {at: v})
            if b2 is a or b2 is subst(a, {at: v}):
                return b
    return None


def arithmetic(t, depth=0):
    if t.op == 'ite':
        return depth < 4 and arithmetic(t.args[1], depth + 1) and arithmetic(t.args[2], depth + 1)
    return t.op in ('num', 'poly', 'sum', 'prod', 'm', 'idx', 'attr')


def known_abs(c, t, val):
    """t where the sign condition c has the value val: |q| is q or -q"""
    ab = [x for x in subterms(t) if x.op == 'abs']
    m = {}
    for x in ab:
        q = x.args[0]
        lo, hi = cofactor(lt0(q), c, val), cofactor(lt0(neg(q)), c, val)
        if lo is TRUE or hi is FALSE:
            m[x] = neg(q)
        elif lo is FALSE or hi is TRUE:
            m[x] = q
    return subst(t, m) if m else t


NEUTRAL = {'sum': lambda: ZERO, 'prod': lambda: ONE, 'for': lambda: EMPTY}


def without(a, c):
    """a, given that no element satisfies the condition of the quantifier c"""
    n = c.args[0]
    m = {}
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in NEUTRAL and x.args[0] is n:
            v, (b,) = open_binder(x)
            _, (k,) = open_binder(c, v)
            if cond(k, NEUTRAL[x.op](), b) is NEUTRAL[x.op]():
                m[x] = NEUTRAL[x.op]()
                return
        if x.op == 'poly':
            # sums that cancel in every element
            part = {q: k for q, k in to_poly(x).items() if len(q) == 1 and q[0][0].op == 'sum' and q[0][1] is ONE and q[0][0].args[0] is n}
            if len(part) > 1:
                v, (k,) = open_binder(c)
                body = ZERO
                for q, r in part.items():
                    body = add(body, mul(num(r), open_binder(q[0][0], v)[1][0]))
                if cond(k, ZERO, body) is ZERO:
                    rest = without(sub(x, from_poly(part)), c)
                    m[x] = rest
                    return
        for y in _children(x.args):
            go(y)
    go(a)
    return subst(a, m) if m else a


NAME_SORT = None
FLAT = ENTRY = PEEL = NONEMPTY = None
IMPLIED = None
DISTINCT = None
POSITIVE = None      # term -> is it known not to be negative
PARTITION = None      # term -> does it map each name of a list to one class of a partition of other names
SETMINUS = None


def subterms(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        todo.extend(_children(x.args))


def subst_ok(b, x):
    return True


def numeric(t):
    return t.op in ('num', 'poly', 'sum', 'prod', 'len', 'idx', 'attr', 'var', 'm', 'call', 'v', 'bv', 'lc', 'max', 'min', 'sym')


def assume_eq(t, x, k):
    """simplify the decision diagram t under x == k"""
    if t.op == 'ite':
        c, a, b = t.args
        a2, b2 = assume_eq(a, x, k), assume_eq(b, x, k)
        if c.op == 'eq' and x in c.args:
            o = c.args[1] if c.args[0] is x else c.args[0]
            if o is k:
                return a2
            if is_const(o):
                return b2
        if c.op == 'lt0' and is_num(k):
            c2 = subst(c, {x: k})
            if c2 is TRUE:
                return a2
            if c2 is FALSE:
                return b2
        return mk_ite(c, a2, b2)
    return t


FACTOR = [True]


def push_ite(c, a, b):
    if not FACTOR[0]:
        return None
    return push_ite_(c, a, b)


def push_ite_(c, a, b):
    """sequences and strings: factor common prefixes and suffixes out of the alternatives"""
    if a.op in ('cat', 'one', 'for') and b.op in ('cat', 'one', 'for') or \
            (a.op == 'cat' and a.args and a.args[0] is b) or (b.op == 'cat' and b.args and b.args[0] is a):
        if a.op == 'one' and b.op == 'one':
            return mk('one', mk_ite(c, a.args[0], b.args[0]))
        pa = list(a.args) if a.op == 'cat' else [a]
        pb = list(b.args) if b.op == 'cat' else [b]
        pre, suf = [], []
        while pa and pb and pa[0] is pb[0]:
            pre.append(pa.pop(0))
            pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            suf.insert(0, pa.pop())
            pb.pop()
        if pa and pb and len(pa) == len(pb) and all(x.op == 'one' for x in pa + pb):
            mid = [mk('one', mk_ite(c, x.args[0], y.args[0])) for x, y in zip(pa, pb)]
            return mk_cat(pre + mid + suf)
        if pre or suf:
            return mk_cat(pre + [mk_ite(c, mk_cat(pa), mk_cat(pb))] + suf)
        return None
    if a.op in ('str', 'scat', 'sfor') and b.op in ('str', 'scat', 'sfor'):
        pa = sparts(a)
        pb = sparts(b)
        pre, suf = [], []
        while pa and pb:
            if pa[0] is pb[0]:
                pre.append(pa.pop(0))
                pb.pop(0)
                continue
            if pa[0].op == 'str' and pb[0].op == 'str':
                k = os.path.commonprefix([pa[0].args[0], pb[0].args[0]])
                if k:
                    pre.append(const(k))
                    for p in (pa, pb):
                        r = p[0].args[0][len(k):]
                        if r:
                            p[0] = const(r)
                        else:
                            p.pop(0)
                    if not (pa and pb and pa[0] is pb[0]):
                        break
                    continue
            break
        while pa and pb:
            if pa[-1] is pb[-1]:
                suf.insert(0, pa.pop())
                pb.pop()
                continue
            if pa[-1].op == 'str' and pb[-1].op == 'str':
                x, y = pa[-1].args[0], pb[-1].args[0]
                k = os.path.commonprefix([x[::-1], y[::-1]])
                if k:
                    suf.insert(0, const(k[::-1]))
                    for p in (pa, pb):
                        r = p[-1].args[0][:-len(k)]
                        if r:
                            p[-1] = const(r)
                        else:
                            p.pop()
                    if not (pa and pb and pa[-1] is pb[-1]):
                        break
                    continue
            break
        if pre or suf:
            return mk_scat(pre + [mk_ite(c, mk_scat(pa), mk_scat(pb))] + suf)
        return None
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        return raw('tuple', *[mk_ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'ret' and b.op == 'ret' and a.args[0].op in ('cat', 'one', 'for', 'tuple', 'scat', 'str', 'dict') \
            and a.args[0].op == b.args[0].op:
        r = mk_ite(c, a.args[0], b.args[0])
        if r.op != 'ite':
            return raw('ret', r)
    return None


def cond(c, a, b):
    """general if-then-else on decision diagrams"""
    memo = {}

    def top(ts):
        best = None
        for t in ts:
            if t.op == 'ite' and (best is None or t.args[0].uid < best.uid):
                best = t.args[0]
        return best

    def factor(c, a, b):
        if not FACTOR[0]:
            return None
        if a.op == 'scat' or b.op == 'scat':
            if not (is_str(a) or is_text(a)) or not (is_str(b) or is_text(b)):
                return None
            pa, pb, join = sparts(a), sparts(b), mk_scat
        else:
            pa = list(a.args) if a.op == 'cat' else [a]
            pb = list(b.args) if b.op == 'cat' else [b]
            join = mk_cat
            if not all(x.op in ('cat', 'one', 'for', 'ite') for x in pa + pb) and not (pa and pb and (pa[0] is pb[0] or pa[-1] is pb[-1])):
                return None
        pre, suf = [], []
        while pa and pb and pa[0] is pb[0]:
            pre.append(pa.pop(0))
            pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            suf.insert(0, pa.pop())
            pb.pop()
        if not pre and not suf:
            return None
        return join(pre + [go(c, join(pa), join(pb))] + suf)

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if c.op == 'in' and c.args[0].op == 'str' and (is_str(a) or is_str(b)):
            # a text without the separator is its only part
            parts = raw('m', 'split', c.args[1], c.args[0])
            if any(x is parts for x in subterms(a)) and subst(a, {parts: one(c.args[1])}) is b:
                return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        key = (c, a, b)
        r = memo.get(key)
        if r is not None:
            return r
        if a.op == 'cat' or b.op == 'cat' or a.op == 'scat' or b.op == 'scat':
            r = factor(c, a, b)
            if r is not None:
                memo[key] = r
                return r
        c0 = c if c.op != 'ite' else None
        cs = [x for x in (c, a, b) if x.op == 'ite']
        x = top(cs)
        if c0 is not None and (x is None or c0.uid < x.uid):
            x = c0
        r = mk_ite(x, go(cofactor(c, x, True), cofactor(a, x, True), cofactor(b, x, True)),
                   go(cofactor(c, x, False), cofactor(a, x, False), cofactor(b, x, False)))
        memo[key] = r
        return r
    return go(c, a, b)


def cofactor(t, x, val):
    if t is x:
        return TRUE if val else FALSE
    if t.op == 'ite':
        if t.args[0] is x:
            return t.args[1] if val else t.args[2]
        if t.args[0].uid > x.uid:
            return t
        return mk_ite(t.args[0], cofactor(t.args[1], x, val), cofactor(t.args[2], x, val))
    return t


def restrict(f, c, memo=None):
    """f, simplified where c holds (anything elsewhere)"""
    if memo is None:
        memo = {}
    if f.op != 'ite' or c is TRUE or c is FALSE:
        return f
    r = memo.get((f, c))
    if r is not None:
        return r
    x = c.args[0] if c.op == 'ite' else c
    if f.args[0].uid < x.uid:
        y = f.args[0]
        a, b = restrict(f.args[1], c, memo), restrict(f.args[2], c, memo)
        r = f if a is f.args[1] and b is f.args[2] else mk_ite(y, a, b)
    else:
        c1, c0 = cofactor(c, x, True), cofactor(c, x, False)
        f1, f0 = cofactor(f, x, True), cofactor(f, x, False)
        if c1 is FALSE:
            r = restrict(f0, c0, memo)
        elif c0 is FALSE:
            r = restrict(f1, c1, memo)
        else:
            a, b = restrict(f1, c1, memo), restrict(f0, c0, memo)
            r = f if a is f1 and b is f0 else a if a is b else mk_ite(x, a, b)
    memo[(f, c)] = r
    return r


def restrict_cond(f, c):
    """the condition f, without the tests that c makes superfluous"""
    f = restrict(f, c)
    atoms = []

    def go(t):
        if t.op == 'ite':
            if t.args[0] not in atoms:
                atoms.append(t.args[0])
            go(t.args[1])
            go(t.args[2])
    go(f)
    if len(atoms) > 12:
        return f
    for x in sorted(atoms, key=lambda a: a.uid):
        f1, f0 = cofactor(f, x, True), cofactor(f, x, False)
        if f1 is f0:
            f = f1
            continue
        for g in (f1, f0):
            if land(c, cond(f, lnot(g), g)) is FALSE:
                f = g
                break
    return f


def land(*cs):
    r = TRUE
    for c in cs:
        r = cond(r, c, FALSE)
    return r


def lor(*cs):
    r = FALSE
    for c in cs:
        r = cond(r, TRUE, c)
    return r


def lnot(c):
    return cond(c, FALSE, TRUE)


def lift(f, args):
    """apply f to args, pushing f below the decision nodes of its arguments"""
    best = None
    for a in args:
        if type(a) is T and a.op == 'ite' and (best is None or a.args[0].uid < best.uid):
            best = a.args[0]
    if best is None:
        return f(*args)
    x = best
    t = lift(f, [cofactor(a, x, True) if type(a) is T else a for a in args])
    e = lift(f, [cofactor(a, x, False) if type(a) is T else a for a in args])
    return cond(x, t, e)


UNDEF = raw('undef')

INTOPS = {'len', 'bv', 'v'}
INT_RULE = None          # further atoms known to be integers
NONNEG_RULE = None       # terms known to be non-negative integers


def int_atom(a):
    if a.op in INTOPS or INT_RULE is not None and INT_RULE(a):
        return True
    return a.op in ('floordiv', 'mod') and all(int_poly(to_poly(x)) for x in a.args)


def int_poly(d):
    return all(c.denominator == 1 for c in d.values()) and \
        all(int_atom(a) and is_num(e) and e.args[0] > 0 for m in d for a, e in m)


def floordiv(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(floordiv, [a, b])
    if is_num(a) and is_num(b) and b.args[0]:
        return num(a.args[0] // b.args[0])
    if a is ZERO and not is_num(b):
        return ZERO
    if not is_num(b) or b.args[0]:
        q = div(a, b)
        if int_poly(to_poly(q)) and int_poly(to_poly(b)):
            return q
    return raw('floordiv', a, b)


def modulo(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(modulo, [a, b])
    if is_num(a) and is_num(b) and b.args[0]:
        return num(a.args[0] % b.args[0])
    if a is ZERO and not is_num(b):
        return ZERO
    if not is_num(b) or b.args[0]:
        if int_poly(to_poly(div(a, b))) and int_poly(to_poly(b)):
            return ZERO
    return raw('mod', a, b)


def lt0(p):
    """p < 0"""
    if p.op == 'ite':
        return lift(lt0, [p])
    d = to_poly(p)
    if not d:
        return FALSE
    if list(d) == [()]:
        return TRUE if d[()] < 0 else FALSE
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0][0] is EULER:
            return TRUE if c < 0 else FALSE
    for m in d:
        if len(m) == 1 and m[0][0].op == 'abs' and m[0][1] is ONE:
            # k |q| + r < 0
            rest = from_poly({q: c for q, c in d.items() if q != m})
            q = mul(num(d[m]), m[0][0].args[0])
            a, b = lt0(add(rest, q)), lt0(sub(rest, q))
            return land(a, b) if d[m] > 0 else lor(a, b)
    lead = max((m for m in d if m), key=mono_key)
    k = abs(d[lead])
    d = {m: c / k for m, c in d.items()}
    if int_poly(d):
        nonconst = [m for m in d if m]
        if all(all(a.op == 'len' for a, e in m) for m in nonconst) and all(d[m] > 0 for m in nonconst) and d.get((), 0) >= 0:
            return FALSE
        if d[lead] < 0:
            nd = {m: -c for m, c in d.items()}
            nd[()] = nd.get((), 0) - 1
            return lnot(lt0(from_poly(nd)))
        # len(x) < 1  <=>  not x
        if len(nonconst) == 1 and nonconst[0][0][0].op == 'len' and len(nonconst[0]) == 1 and d.get((), 0) == -1:
            return eq(nonconst[0][0][0], ZERO)
    return raw('lt0', from_poly(d))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite' or b.op == 'ite':
        return lift(eq, [a, b])
    if is_const(a) and is_const(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'len' and y.op == 'm' and y.args[0] == 'index' and len(y.args) == 3 and y.args[1] is x.args[0]:
            return FALSE
        if x.op == 'str' and y.op == 'scat':
            if any(p.op == 'ite' for p in y.args) and sum(p.op == 'ite' for p in y.args) <= 4:
                return lift_str(lambda t: eq(x, t), y)
            if y.args[0].op == 'str' and not x.args[0].startswith(y.args[0].args[0]) or \
                    y.args[-1].op == 'str' and not x.args[0].endswith(y.args[-1].args[0]):
                return FALSE
    if a.op in ('str', 'const') or b.op in ('str', 'const'):
        if a is TRUE or a is FALSE:
            a, b = b, a
        if (b is TRUE or b is FALSE) and is_bool(a):
            return a if b is TRUE else lnot(a)
        if a.op in ('cat', 'one', 'for', 'num', 'poly') or b.op in ('cat', 'one', 'for', 'num', 'poly'):
            return FALSE
        x, y = (a, b) if a.uid <= b.uid else (b, a)
        if x.op in ('str', 'const'):
            x, y = y, x
        if x.op == 'slice' and y.op == 'str' and y.args[0] and x.args[3] is NONE and x.args[0].op != 'slice':
            # the first or last characters
            n = len(y.args[0])
            if x.args[2] is NONE and x.args[1] is num(-n):
                return truth(mk('m', 'endswith', x.args[0], y))
            if x.args[1] is NONE and x.args[2] is num(n):
                return truth(mk('m', 'startswith', x.args[0], y))
        return raw('eq', x, y)
    if a.op in ('cat', 'one', 'for', 'dict', 'set') or b.op in ('cat', 'one', 'for', 'dict', 'set'):
        for x, y in ((a, b), (b, a)):
            if x.op == 'cat' and not x.args:
                return lnot(truth(y))
        if a.op == 'set' and b.op == 'set' and SETMINUS is not None:
            return land(lnot(truth(SETMINUS(a, b))), lnot(truth(SETMINUS(b, a))))
        if a.op == 'one' and b.op == 'one':
            return eq(a.args[0], b.args[0])
        if a.op == 'dict' and b.op == 'dict':
            da, db = explicit(a), explicit(b)
            if da is not None and db is not None:
                return land(*[eq(da[k], db[k]) for k in da]) if set(da) == set(db) else FALSE
        x, y = (a, b) if a.uid <= b.uid else (b, a)
        return raw('eq', x, y)
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return land(*[eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if x.op == 'abs' and y.op == 'num':
            if y.args[0] < 0:
                return FALSE
            return lor(eq(x.args[0], y), eq(x.args[0], neg(y)))
    d = to_poly(sub(a, b))
    if not d:
        return TRUE
    if list(d) == [()]:
        return FALSE
    lead = max((m for m in d if m), key=mono_key)
    k = d[lead]
    d = {m: c / k for m, c in d.items()}
    ms = sorted(d, key=mono_key)
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] is ONE:
        x = ms[0][0][0]
        if x.op == 'len':
            return lnot(truth(x.args[0]))
        return raw('eq', x, ZERO)
    if len(ms) == 2 and ms[0] == () and len(ms[1]) == 1 and ms[1][0][1] is ONE:
        x = ms[1][0][0]
        if TWO_OR_THREE is not None and x.op == 'len' and TWO_OR_THREE(x):
            if d[()] == -3:
                return lnot(raw('eq', x, num(2)))
            if d[()] != -2:
                return FALSE
        return raw('eq', ms[1][0][0], num(-d[()]))
    if len(ms) == 2 and all(len(m) == 1 and m[0][1] is ONE for m in ms) and sorted(d.values()) == [-1, 1]:
        x, y = ms[0][0][0], ms[1][0][0]
        if x.uid > y.uid:
            x, y = y, x
        return raw('eq', x, y)
    return raw('eq', from_poly(d), ZERO)


BOOL_OPS = {'eq', 'lt0', 'in', 'any', 'isinst', 'truthy', 'isnone', 'hasattr', 'callable', 'is', 'boolcall', 'rematch', 'ind?'}


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op in BOOL_OPS:
        return True
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


def truth(t):
    if t.op == 'ite':
        return lift(truth, [t])
    if is_bool(t):
        return t
    if t is NONE:
        return FALSE
    if t.op == 'num':
        return TRUE if t.args[0] else FALSE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t.op == 'const':
        return TRUE
    if t.op in ('poly', 'floordiv', 'mod', 'sum', 'abs'):
        return lnot(eq(t, ZERO))
    if t.op == 'len':
        return truth(t.args[0])
    if t.op == 'tuple':
        return TRUE if t.args else FALSE
    if t.op == 'scat' and any(x.op == 'str' and x.args[0] for x in t.args):
        return TRUE
    if t.op in ('one', 'mtch'):
        return TRUE
    if t.op == 'cat':
        if not t.args:
            return FALSE
        return lor(*[truth(x) for x in t.args])
    if t.op == 'for':
        v, (b,) = open_binder(t)
        return mk_any(t.args[0], v, truth(b))
    if t.op == 'upd' and truth(t.args[1]) is TRUE:
        return TRUE
    if t.op in ('set', 'sorted', 'uniq', 'rev'):
        return truth(t.args[0])
    if t.op == 'dict':
        return truth(t.args[0])
    if t.op in ('closure', 'file', 'exc'):
        return TRUE
    if LEN_RULE is not None and t.op == 'attr':
        r = LEN_RULE(t)
        if r is not None and r.op == 'len' and r.args[0] is not t:
            return truth(r.args[0])
    if NONEMPTY is not None and NONEMPTY(t):
        return TRUE
    return raw('truthy', t)


def isnone(t):
    if t.op == 'ite':
        return lift(isnone, [t])
    if t is NONE:
        return TRUE
    if is_const(t) or t.op in ('poly', 'cat', 'one', 'for', 'dict', 'set', 'scat', 'tuple', 'sum', 'prod', 'len', 'sorted', 'new', 'bv', 'v', 'uniq', 'first', 'lastm', 'nda', 'mtch') or is_bool(t):
        return FALSE
    if SOME_RULE is not None and SOME_RULE(t):
        return FALSE
    return raw('isnone', t)


SOME_RULE = None     # terms that are never None (engine.domain)


def mk_any(n, v, c):
    """exists v < n: c"""
    if c is FALSE:
        return FALSE
    if not depends(c, v):
        return land(c, lnot(eq(n, ZERO)))
    if c is TRUE:
        return lnot(eq(n, ZERO))
    if n.op == 'ite':
        return lift(lambda m: mk_any(m, v, c), [n])
    k = closed_cond(c, v)
    if k is not None:
        return cond(k, mk_any(n, v, side(c, k, True)), mk_any(n, v, side(c, k, False)))
    if is_num(n) and n.args[0] <= 8 and n.args[0].denominator == 1:
        return lor(*[subst(c, {v: num(i)}) for i in range(int(n.args[0]))])
    # membership:  exists i < len(s): s[i] == x   <=>   x in s
    if c.op == 'eq':
        for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
            if x.op == 'idx' and x.args[1] is v and not depends(x.args[0], v) and not depends(y, v) and \
                    n is mk('len', x.args[0]):
                return mk('in', y, x.args[0])
    return close('any', n, v, c)


def side(t, x, val):
    """t where the atomic condition x has the given value; the tests of t may be out of order"""
    r = cofactor(t, x, val)
    memo = {}

    def go(t):
        if t.op != 'ite':
            return t
        if t in memo:
            return memo[t]
        if t.args[0] is x:
            r = go(t.args[1] if val else t.args[2])
        else:
            a, b = go(t.args[1]), go(t.args[2])
            r = t if a is t.args[1] and b is t.args[2] else cond(t.args[0], a, b)
        memo[t] = r
        return r
    return go(r)


def closed_cond(t, v):
    """an atomic condition of the decision diagram t that does not depend on v"""
    seen = set()
    best = None

    def go(t):
        nonlocal best
        if t in seen or t.op != 'ite':
            return
        seen.add(t)
        if not depends(t.args[0], v) and (best is None or t.args[0].uid < best.uid):
            best = t.args[0]
        go(t.args[1])
        go(t.args[2])
    go(t)
    return best


# ---------------------------------------------------------------------------- polynomials
def mono_key(m):
    return (len(m), tuple((a.uid, e.uid) for a, e in m))


def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return {m: c for c, m in t.args[0]}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, ONE),): Fraction(1)}


def from_poly(d):
    items = [(c, m) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        c, m = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE:
            return m[0][0]
    items.sort(key=lambda x: mono_key(x[1]))
    return raw('poly', tuple(items))


def add(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(add, [a, b])
    d = dict(to_poly(a))
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(remainders(d))


def remainders(d):
    """x - n*(x//n) is x%n"""
    if len(d) < 2:
        return d
    for m in list(d):
        for f, e in m:
            if f.op == 'floordiv' and e is ONE and d.get(m):
                x, n = to_poly(f.args[0]), to_poly(f.args[1])
                if len(n) != 1 or not x:
                    continue
                (mn, cn), = n.items()
                if mono_mul(mn, ((f, ONE),)) != m:
                    continue
                k = -d[m] / cn
                if all(d.get(y) == k * c for y, c in x.items()):
                    d = {y: c for y, c in d.items() if y != m and y not in x}
                    for y, c in to_poly(raw('mod', f.args[0], f.args[1])).items():
                        d[y] = d.get(y, 0) + k * c
                    return remainders(d)
    return d


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    """-> monomial or None (zero)"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1 + m2:
        if a in d:
            d[a] = add(d[a], e)
        else:
            d[a] = e
    out = []
    inds = {}
    for a, e in d.items():
        if e is ZERO:
            continue
        if a.op == 'ind':
            e = ONE
            c = a.args[0]
            if c.op == 'eq' and is_const(c.args[1]):
                if c.args[0] in inds and inds[c.args[0]] is not c.args[1]:
                    return None
                inds[c.args[0]] = c.args[1]
        out.append((a, e))
    out.sort(key=lambda x: (x[0].uid, x[1].uid))
    return tuple(out)


def mul(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return lift(mul, [a, b])
    p, q = to_poly(a), to_poly(b)
    if len(p) * len(q) > 4000:
        raise Budget('polynomial too large')
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            if m is None:
                continue
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def power(a, e):
    if a.op == 'ite' or e.op == 'ite':
        return lift(power, [a, e])
    if e is ZERO:
        return ONE
    if e is ONE:
        return a
    p = to_poly(a)
    if is_num(e) and e.args[0].denominator == 1 and 0 < e.args[0] <= 4 and len(p) > 1:
        r = a
        for _ in range(int(e.args[0]) - 1):
            r = mul(r, a)
        return r
    if not p:
        return ZERO if is_num(e) and e.args[0] > 0 else raw('pow0', e)
    if len(p) == 1:
        (m, c), = p.items()
        fs = []
        for x, k in m:
            fs.append((x, mul(k, e)))
        res = {tuple(sorted([f for f in fs if f[1] is not ZERO], key=lambda x: (x[0].uid, x[1].uid))): Fraction(1)}
        r = from_poly(res)
        if c != 1:
            if is_num(e) and e.args[0].denominator == 1:
                r = mul(r, num(c ** int(e.args[0])))
            else:
                r = mul(r, from_poly({((num(c), e),): Fraction(1)}))
        return r
    # factor content
    atoms = None
    for m in p:
        s = {a2: k for a2, k in m if is_num(k)}
        if atoms is None:
            atoms = s
        else:
            atoms = {a2: min(k, s[a2], key=lambda z: z.args[0]) for a2, k in atoms.items() if a2 in s}
    lead = max(p, key=mono_key)
    lc = p[lead]
    if not (is_num(e) and e.args[0].denominator == 1):
        lc = abs(lc)
    content = from_poly({tuple(sorted(atoms.items(), key=lambda x: (x[0].uid, x[1].uid))): lc})
    if content is ONE:
        return from_poly({((a, e),): Fraction(1)})
    prim = mul(a, power(content, num(-1)))
    return mul(power(content, e), from_poly({((prim, e),): Fraction(1)}))


def div(a, b):
    return mul(a, power(b, num(-1)))


def exp(x):
    if x.op == 'ite':
        return lift(exp, [x])
    if x is ZERO:
        return ONE
    # exp(log ...) : pull the logarithms out
    d = to_poly(x)
    r = ONE
    rest = {}
    for m, c in d.items():
        if len(m) == 1 and m[0][0].op == 'log' and m[0][1] is ONE:
            r = mul(r, power(m[0][0].args[0], num(c)))
        else:
            rest[m] = c
    if rest:
        r = mul(r, from_poly({((EULER, from_poly(rest)),): Fraction(1)}))
    return r


def log(x):
    if x.op == 'ite':
        return lift(log, [x])
    p = to_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        r = raw('log', num(c)) if c != 1 else ZERO
        for a, e in m:
            r = add(r, mul(e, ONE if a is EULER else raw('log', a)))
        return r
    return raw('log', x)


LEN_RULE = None      # facts about lengths (engine.domain)
IN_RULE = None       # facts about membership
SEQ_RULE = None      # domain: the term is a sequence
LEN_MAP = {}         # lengths known to be equal under the current path condition


def canon_paths(t):
    """use what the path conditions of the decision diagram t say about its leaves:
    equal lengths are identified, and reading a missing key is a KeyError"""
    global LEN_MAP

    def go(t, lens, absent):
        global LEN_MAP
        if t.op == 'ite':
            c, a, b = t.args
            if lens:
                c = relen(c, lens)
                if c is TRUE:
                    return go(a, lens, absent)
                if c is FALSE:
                    return go(b, lens, absent)
                if c.op == 'ite':
                    return go(cond(c, a, b), lens, absent)
            la = lens
            if c.op == 'eq' and c.args[0].op == 'len' and c.args[1].op == 'len':
                x, y = c.args
                la = dict(lens)
                la[y.args[0]] = x
            ab = absent
            if c.op == 'in':
                ab = absent + [raw('idx', c.args[1], c.args[0])]
            return cond(c, go(a, la, absent), go(b, lens, ab))
        r = relen(t, lens) if lens else t
        if absent and r.op != 'raise':
            ids = set()
            todo = [r]
            while todo:
                x = todo.pop()
                if x.uid in ids:
                    continue
                ids.add(x.uid)
                if x.op == 'ite' and x.args[0].op == 'in' and any(a.args == (x.args[0].args[1], x.args[0].args[0]) for a in absent):
                    todo.append(x.args[2])
                else:
                    todo.extend(children(x))
            if any(a.uid in ids for a in absent):
                return raw('raise', raw('exc', 'KeyError'))
        return r

    def relen(t, lens):
        global LEN_MAP
        old = LEN_MAP
        LEN_MAP = lens
        try:
            return subst(t, {raw('len', s): l for s, l in lens.items()})
        finally:
            LEN_MAP = old
    return go(t, {}, [])



class _Simp(object):
    """uses every path condition inside the branch it guards, at any depth"""

    def __init__(self, limit=400000):
        self.steps, self.limit = 0, limit
        self.ids = {}

    def sub(self, t):
        r = self.ids.get(t)
        if r is None:
            r = set([t])
            todo = [t]
            while todo:
                x = todo.pop()
                for c in children(x):
                    if c not in r:
                        r.add(c)
                        todo.append(c)
            r = frozenset(r)
            self.ids[t] = r
        return r

    def go(self, t, facts, memo):
        global LEN_MAP
        r = memo.get(t)
        if r is not None:
            return r
        self.steps += 1
        if self.steps > self.limit:
            raise Budget('simplification budget exhausted')
        if t in facts:
            r = facts[t]
        elif not children(t):
            r = t
        elif t.op == 'ite':
            c, a, b = t.args
            c2 = self.go(c, facts, memo)
            if c2 is TRUE:
                r = self.go(a, facts, memo)
            elif c2 is FALSE:
                r = self.go(b, facts, memo)
            elif c2 is not c:
                r = self.go(cond(c2, a, b), facts, memo)
            else:
                fa, fb = {}, {}
                if not c.fv and not c.bvs or True:
                    sa, sb = self.sub(a), self.sub(b)
                    if c in sa:
                        fa[c] = TRUE
                    if c in sb:
                        fb[c] = FALSE
                    if c.op == 'eq':
                        x, k = c.args
                        if is_const(x):
                            x, k = k, x
                        if is_const(k) and not is_const(x) and (x in sa or x.op == 'len'):
                            fa[x] = k
                        if x.op == 'len' and k.op == 'num' and TWO_OR_THREE is not None and TWO_OR_THREE(x) and k.args[0] in (2, 3):
                            fb[x] = num(5 - k.args[0])
                    if c.op == 'isnone' and c.args[0] in sa:
                        fa[c.args[0]] = NONE
                    if IMPLIED is not None:
                        for x, val in IMPLIED(c, True):
                            if x in sa:
                                fa[x] = TRUE if val else FALSE
                def br(u, f):
                    if not f:
                        return self.go(u, facts, memo)
                    g = dict(facts)
                    g.update(f)
                    return self.go(u, g, {})
                r = cond(c, br(a, fa), br(b, fb))
        elif t.op in BINDERS:
            v, bodies = open_binder(t)
            n = self.go(t.args[0], facts, memo)
            r = mkb(t.op, n, v, *[self.goarg(x, facts, memo) for x in bodies])
        else:
            args = [self.goarg(x, facts, memo) for x in t.args]
            if all(x is y for x, y in zip(args, t.args)) and not (t.op == 'idx' and facts):
                r = t
            elif t.op == 'idx':
                s_, k_ = args
                if is_num(k_) and k_.args[0] < 0:
                    n = length(s_)
                    n = facts.get(n, n)
                    if is_num(n) and n.args[0] + k_.args[0] >= 0:
                        k_ = add(n, k_)
                r = index(s_, k_)
            else:
                r = mk(t.op, *args)
        memo[t] = r
        return r

    def goarg(self, a, facts, memo):
        if type(a) is T:
            return self.go(a, facts, memo)
        if type(a) is tuple:
            return tuple(self.goarg(x, facts, memo) for x in a)
        return a


def primes(f, cap=80, memo=None):
    """prime implicants of a decision diagram, as frozensets of (condition, polarity)"""
    memo = {} if memo is None else memo
    r = memo.get(f)
    if r is not None:
        return r
    if f is TRUE:
        r = frozenset([frozenset()])
    elif f is FALSE:
        r = frozenset()
    elif f.op != 'ite':
        r = frozenset([frozenset([(f, True)])])
    else:
        x, a, b = f.args
        p = primes(land(a, b), cap, memo)
        out = set(p)
        for q, pol in ((a, True), (b, False)):
            for m in primes(q, cap, memo):
                if not any(z <= m for z in p):
                    out.add(m | frozenset([(x, pol)]))
        if len(out) > cap:
            raise Budget('too many alternatives')
        r = frozenset(out)
    memo[f] = r
    return r


def split_any(t):
    """exists i: a or b   as   exists i: a  or  exists i: b   (canonically, by prime implicants)"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not children(t):
            r = t
        elif t.op == 'ite':
            r = cond(go(t.args[0]), go(t.args[1]), go(t.args[2]))
        elif t.op == 'any':
            v, (b,) = open_binder(t)
            n, b = go(t.args[0]), go(b)
            parts = []
            for m in primes(b):
                c = land(*[k if pol else lnot(k) for k, pol in sorted(m, key=lambda q: q[0].uid)])
                parts.append(mk_any(n, v, c))
            r = lor(*parts)
        elif t.op in BINDERS:
            v, bodies = open_binder(t)
            r = mkb(t.op, go(t.args[0]), v, *[goa(b) for b in bodies])
        else:
            r = mk(t.op, *[goa(a) for a in t.args])
        memo[t] = r
        return r

    def goa(a):
        if type(a) is T:
            return go(a)
        if type(a) is tuple:
            return tuple(goa(x) for x in a)
        return a
    return go(t)


TRUNCATED = [False]


def first_atom(t, seen):
    """an undecided closed condition of a term, outermost first"""
    todo = [t]
    i = 0
    while i < len(todo):
        x = todo[i]
        i += 1
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'ite':
            c = x.args[0]
            if not c.fv:
                for y in subterms(c):
                    if y.op == 'ite' and not y.args[0].fv:
                        return y.args[0]
                return c
        todo.extend(children(x))
    return None


def case_split(a, b, budget=4000):
    """(True, None) when equal in every case, (False, (a', b')) with the parts of a case that differs"""
    steps = [0]

    def go(a, b):
        if a is b:
            return None
        steps[0] += 1
        if steps[0] > budget:
            raise Budget('too many cases')
        c = first_atom(a, set()) or first_atom(b, set())
        if c is None:
            return (a, b)
        for val in (TRUE, FALSE):
            r = go(_Simp().go(subst(a, {c: val}), {}, {}), _Simp().go(subst(b, {c: val}), {}, {}))
            if r is not None:
                return r
        return None
    r = go(a, b)
    return r is None, r


def expanded(t, limit=60000):
    """the same term with every alternative taken apart (second attempt of a comparison)"""
    FACTOR[0] = False
    memo = {}
    steps = [0]
    try:
        def ex(t):
            r = memo.get(t)
            if r is not None:
                return r
            steps[0] += 1
            if steps[0] > limit:
                raise Budget('expansion budget exhausted')
            if not children(t):
                r = t
            elif t.op == 'ite':
                r = cond(ex(t.args[0]), ex(t.args[1]), ex(t.args[2]))
            elif t.op in BINDERS:
                v, bodies = open_binder(t)
                r = mkb(t.op, ex(t.args[0]), v, *[exa(b) for b in bodies])
            elif t.op in ('poly', 'ind', 'any', 'eq', 'lt0', 'in', 'dict', 'acc', 'upd') or any(type(a) is tuple for a in t.args):
                r = mk(t.op, *[exa(a) for a in t.args])
            else:
                args = [exa(a) for a in t.args]
                if n_conds(args) <= 10:
                    r = lift(lambda *a: mk(t.op, *a), args)
                else:
                    TRUNCATED[0] = True
                    r = mk(t.op, *args)
            memo[t] = r
            return r

        def exa(a):
            if type(a) is T:
                return ex(a)
            if type(a) is tuple:
                return tuple(exa(x) for x in a)
            return a
        for _ in range(3):
            memo.clear()
            u = _Simp(limit).go(ex(t), {}, {})
            if u is t:
                break
            t = u
        return t
    finally:
        FACTOR[0] = True


def sort_dicts(t):
    """dictionaries with constant keys are the same in any order"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        ch = children(t)
        if not ch:
            r = t
        else:
            m = {}
            for x in ch:
                y = go(x)
                if y is not x:
                    m[x] = y
            r = rebuilt(t, m) if m else t
            if r.op == 'dict' and r.args[0].op == 'cat':
                ps = r.args[0].args
                if all(p.op == 'one' and p.args[0].op == 'pair' and is_const(p.args[0].args[0]) for p in ps):
                    key = lambda p: (p.args[0].args[0].op, str(p.args[0].args[0].args[-1]))
                    qs = sorted(ps, key=key)
                    if list(ps) != qs:
                        r = raw('dict', raw('cat', *qs))
        memo[t] = r
        return r

    def rebuilt(t, m):
        def goa(a):
            if type(a) is T:
                return m.get(a, a)
            if type(a) is tuple:
                return tuple(goa(b) for b in a)
            return a
        if t.op in BINDERS or t.op in ('dict', 'cat', 'one', 'pair', 'ite'):
            return raw(t.op, *[goa(a) for a in t.args])
        return mk(t.op, *[goa(a) for a in t.args])
    return go(t)


def canon(t):
    """canonical form of a whole summary"""
    t = sort_dicts(t)
    for _ in range(4):
        u = canon_paths(_Simp().go(t, {}, {}))
        if u is t:
            break
        t = u
    return t


def mk_minmax(op, args):
    s = []
    for a in args:
        if a.op == op:
            s.extend(a.args)
        else:
            s.append(a)
    s = sorted(set(s), key=lambda t: t.uid)
    nums = [a.args[0] for a in s if is_num(a)]
    if len(nums) > 1:
        k = max(nums) if op == 'max' else min(nums)
        s = [a for a in s if not is_num(a)] + [num(k)]
        s.sort(key=lambda t: t.uid)
    if len(s) == 1:
        return s[0]
    if op == 'min' and POSITIVE is not None:
        # nothing below zero but what is cut off at zero anyway
        for a in s:
            if a.op == 'max' and any(is_num(x) and x.args[0] == 0 for x in a.args) and all(x is a or is_num(x) and x.args[0] >= 0 or POSITIVE(x) for x in s):
                rest = [x for x in a.args if not is_num(x)]
                if len(rest) == 1:
                    return mk_minmax('max', [ZERO, mk_minmax('min', [x for x in s if x is not a] + rest)])
    # max(a, max(b, c)) == max(a, b, c);  max(a, min(a, b)) = a   not needed
    return raw(op, *s)


def shifted_minmax(t):
    """max(a + c, b + c) = c + max(a, b), and the like for min: from a form that is the same for all ways to take the common part out"""
    for _ in range(40):
        m = {}
        for x in subterms(t):
            if x.op in ('max', 'min') and not any(a.op in ('max', 'min', 'ite') or not numeric(a) for a in x.args) and \
                    not any(y.op in ('max', 'min') for a in x.args for y in subterms(a)):
                best = None
                for p in x.args:
                    ds = sorted((sub(a, p) for a in x.args), key=lambda d: d.uid)
                    k = tuple(d.uid for d in ds)
                    if best is None or k < best[0]:
                        best = (k, p, ds)
                m[x] = add(best[1], raw('shifted ' + x.op, *best[2]))
        if not m:
            return t
        t = subst(t, m)
    return t


def minmax(op, args):
    return lift(lambda *a: mk_minmax(op, list(a)), list(args))


def mk_maxof(s, *more):
    """max of a sequence; zero does not count beside magnitudes (of which there is at least one)"""
    if s.op == 'cat' and not more:
        rest = [p for p in s.args if not (p.op == 'one' and p.args[0].op == 'num' and p.args[0].args[0] <= 0)]
        if rest and len(rest) < len(s.args) and all(magnitudes(p) for p in rest):
            s = mk_cat(rest)
    return raw('maxof', s, *more)


def magnitudes(s):
    if s.op == 'cat':
        return all(magnitudes(p) for p in s.args)
    if s.op == 'one':
        return s.args[0].op == 'abs'
    if s.op == 'for':
        return magnitudes(open_binder(s)[1][0])
    return False


def to_ind(t):
    """decision diagram -> polynomial with indicator atoms (multilinear, hence canonical)"""
    if t.op != 'ite':
        return t
    c, a, b = t.args
    a, b = to_ind(a), to_ind(b)
    return add(b, mul(raw('ind', c), sub(a, b)))


def mk_sum(n, v, body):
    if n is ZERO or body is ZERO:
        return ZERO
    if n.op == 'ite':
        return lift(lambda m: mk_sum(m, v, body), [n])
    if not depends(body, v):
        return mul(n, body)
    k = closed_cond(body, v)
    if k is not None:
        return cond(k, mk_sum(n, v, side(body, k, True)), mk_sum(n, v, side(body, k, False)))
    if is_num(n) and n.args[0].denominator == 1 and n.args[0] <= 8:
        r = ZERO
        for i in range(int(n.args[0])):
            r = add(r, subst(body, {v: num(i)}))
        return r
    body = to_ind(body)
    d = to_poly(body)
    out = {}
    r = ZERO
    for m, c in d.items():
        cl = tuple(f for f in m if not depends(f[0], v) and not depends(f[1], v))
        op = tuple(f for f in m if f not in cl)
        out.setdefault(op, {})
        out[op][cl] = out[op].get(cl, 0) + c
    for op, coef in out.items():
        if not op:
            s = n
        elif len(op) == 1 and NONNEG_RULE is not None and op[0][0].op == 'ind' and op[0][1] is ONE and op[0][0].args[0].op == 'eq' \
                and any(x is v and NONNEG_RULE(y) for x, y in (op[0][0].args[0].args, op[0][0].args[0].args[::-1])):
            a = op[0][0].args[0]
            s = to_ind(cond(lt0(sub(a.args[1] if a.args[0] is v else a.args[0], n)), ONE, ZERO))
        else:
            s = one_hot(n, v, op)
            if s is None and BLOCKS is not None:
                s = blocks(n, v, op)
            if s is None:
                s = close('sum', n, v, from_poly({op: Fraction(1)}))
        r = add(r, mul(s, from_poly(coef)))
    return r


BLOCKS = None
ENTRYWISE = False


def blocks(n, v, mono):
    """a sum over whole blocks of the places in a block: a sum over the places"""
    if len(mono) != 1 or mono[0][1] is not ONE or mono[0][0].op != 'sum' or n.op != 'floordiv' or n.args[1] is not mono[0][0].args[0] or not BLOCKS(n):
        return None
    w, (b,) = open_binder(mono[0][0])
    i = fresh()
    b = subst(b, {add(mul(v, n.args[1]), w): i})
    if depends(b, v):
        return None
    return mk_sum(n.args[0], i, subst(b, {w: modulo(i, n.args[1])}))


def one_hot(n, v, mono):
    """sum over i of f(i) where s[i] == x, for distinct elements: f(s.index(x)) if x in s"""
    if DISTINCT is None:
        return None
    for f, e in mono:
        if f.op == 'ind' and e is ONE and f.args[0].op == 'eq':
            a = f.args[0].args
            for p, x in (a, a[::-1]):
                if p.op == 'idx' and p.args[1] is v and not depends(x, v) and not depends(p.args[0], v) and DISTINCT(p.args[0]) \
                        and length(p.args[0]) is n:
                    rest = {tuple(q for q in mono if q[0] is not f): Fraction(1)}
                    return mul(subst(from_poly(rest), {v: mk('m', 'index', p.args[0], x)}), to_ind(cond(contains(x, p.args[0]), ONE, ZERO)))
    return None


def mk_prod(n, v, body):
    if n is ZERO or body is ONE:
        return ONE
    if n.op == 'ite':
        return lift(lambda m: mk_prod(m, v, body), [n])
    if not depends(body, v):
        return power(body, n)
    k = closed_cond(body, v)
    if k is not None:
        return cond(k, mk_prod(n, v, side(body, k, True)), mk_prod(n, v, side(body, k, False)))
    if is_num(n) and n.args[0].denominator == 1 and n.args[0] <= 8:
        r = ONE
        for i in range(int(n.args[0])):
            r = mul(r, subst(body, {v: num(i)}))
        return r
    d = to_poly(body) if body.op != 'ite' else None
    if d is not None and len(d) == 1:
        (m, c), = d.items()
        r = ONE
        if c != 1:
            r = power(num(c), n)
        for a, e in m:
            if not depends(a, v) and not depends(e, v):
                r = mul(r, power(from_poly({((a, e),): Fraction(1)}), n))
            elif not depends(a, v):
                r = mul(r, power(a, mk_sum(n, v, e)))
            elif not depends(e, v):
                # prod(a ** e) = prod(a) ** e
                inner = from_poly({((a, ONE),): Fraction(1)})
                r = mul(r, power(close('prod', n, v, inner), e))
            else:
                r = mul(r, close('prod', n, v, from_poly({((a, e),): Fraction(1)})))
        return r
    return close('prod', n, v, body)


# ---------------------------------------------------------------------------- sequences
EMPTY = raw('cat')
SEQ = {'cat', 'one', 'for', 'sorted', 'uniq', 'rev', 'enumerate', 'zip', 'keys', 'values', 'items', 'slice'}


def one(x):
    return raw('one', x)


def mk_cat(parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    if len(out) == 1:
        return out[0]
    return raw('cat', *out)


def mk_for(n, v, body):
    if n is ZERO or body is EMPTY:
        return EMPTY
    if n.op == 'ite':
        return lift(lambda m: mk_for(m, v, body), [n])
    if is_num(n) and n.args[0].denominator == 1 and 0 < n.args[0] <= 8:
        return mk_cat([subst(body, {v: num(i)}) for i in range(int(n.args[0]))])
    k = closed_cond(body, v)
    if k is not None:
        return cond(k, mk_for(n, v, side(body, k, True)), mk_for(n, v, side(body, k, False)))
    # eta
    if body.op == 'one' and body.args[0].op == 'idx' and body.args[0].args[1] is v:
        s = body.args[0].args[0]
        if not depends(s, v) and n is mk('len', s):
            return s
    return close('for', n, v, body)


def length(s):
    if s.op == 'ite':
        return lift(length, [s])
    if s.op == 'one':
        return ONE
    if s.op == 'cat':
        r = ZERO
        for p in s.args:
            r = add(r, length(p))
        return r
    if s.op == 'for':
        v, (b,) = open_binder(s)
        return mk_sum(s.args[0], v, length(b))
    if s.op == 'tuple':
        return num(len(s.args))
    if s.op == 'nda':
        return length(s.args[0])
    if s.op == 'smat':
        return mul(s.args[0], s.args[1])
    if s.op == 'str':
        return num(len(s.args[0]))
    if s.op in ('sorted', 'rev', 'enumerate', 'keys', 'values', 'items'):
        return length(s.args[0])
    if s.op == 'dict':
        return length(dict_keys(s)) if collide(s.args[0]) else length(s.args[0])
    if s.op in ('aug', 'augs') and s.args[0].op in ('for', 'one', 'cat', 'aug', 'augs'):
        return length(s.args[0])
    if s.op == 'range':
        return s.args[0]
    if s in LEN_MAP:
        return LEN_MAP[s]
    if s.op == 'poly':
        q = repeated(s)
        if q is not None:
            return mul(length(q[0]), q[1])
    if LEN_RULE is not None:
        r = LEN_RULE(s)
        if r is not None:
            return r
    return raw('len', s)


def repeated(t):
    """(sequence, times) of a product with one factor that is a sequence"""
    if SEQ_RULE is None:
        return None
    d = to_poly(t)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    q = [a for a, e in m if e is ONE and (a.op in SEQ or SEQ_RULE(a))]
    if len(q) != 1:
        return None
    return q[0], from_poly({tuple(f for f in m if f[0] is not q[0]): c})


def match(pat, v, t):
    """w with pat[v := w] is t, or None"""
    res = []

    def go(p, q):
        if p is v:
            res.append(q)
            return True
        if p is q:
            return True
        if not depends(p, v):
            return False
        if p.op != q.op or len(p.args) != len(q.args) or p.op in BINDERS:
            return False
        return all(goa(a, b) for a, b in zip(p.args, q.args))

    def goa(a, b):
        if type(a) is T and type(b) is T:
            return go(a, b)
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return all(goa(x, y) for x, y in zip(a, b))
        return a == b
    if go(pat, t) and res and all(r is res[0] for r in res):
        if subst(pat, {v: res[0]}) is t:
            return res[0]
    return None


def unind(t):
    """indicator atoms of a polynomial -> decisions"""
    for m, c in to_poly(t).items():
        for a, e in m:
            if a.op == 'ind':
                return cond(a.args[0], unind(subst(t, {a: ONE})), unind(subst(t, {a: ZERO})))
    return t


def present(f, key, k):
    """an indicator that the entry of k implies: x is in s, for the entry s.index(x) or for x == k an element of s"""
    if f.op != 'ind' or f.args[0].op != 'in':
        return False
    x, s = f.args[0].args
    if key.op == 'm' and key.args[0] == 'index' and key.args[1:] == (s, x):
        return True
    return key is x and k.op == 'idx' and k.args[0] is s


def units_at(u, k):
    """the k-th component of a sum of unit vectors"""
    if u.op == 'unit':
        j = u.args[0]
        if j.op == 'm' and j.args[0] == 'index' and len(j.args) == 3 and DISTINCT is not None and DISTINCT(j.args[1]) and NONNEG_RULE is not None and NONNEG_RULE(k):
            return to_ind(cond(eq(index(j.args[1], k), j.args[2]), ONE, ZERO))
        return to_ind(cond(eq(j, k), ONE, ZERO))
    if u.op == 'sum':
        v, (b,) = open_binder(u)
        x = units_at(b, k)
        return None if x is None else mk_sum(u.args[0], v, x)
    if u.op == 'poly':
        r = ZERO
        for m, c in to_poly(u).items():
            t = [a for a, e in m if any(x.op == 'unit' for x in subterms(a))]
            if len(t) != 1 or any(a is t[0] and e is not ONE for a, e in m):
                return None
            x = units_at(t[0], k)
            if x is None:
                return None
            # what is found at this place is in the list
            rest = tuple(f for f in m if f[0] is not t[0] and not (t[0].op == 'unit' and present(f[0], t[0].args[0], k)))
            r = add(r, mul(x, from_poly({rest: c})))
        return r
    return None


def index(s, k):
    if s.op == 'ite' or k.op == 'ite':
        return lift(index, [s, k])
    if s.op == 'nda':
        return index(s.args[0], k)
    if s.op == 'smat':
        r = ENTRY(s, k)
        if r is not None:
            return r
    if s.op == 'without' and eq(s.args[1], k) is FALSE:
        return index(s.args[0], k)
    if s.op == 'slice' and s.args[3] is NONE and is_num(k) and k.args[0] >= 0:
        lo, hi = s.args[1], s.args[2]
        lo = ZERO if lo is NONE else lo
        if is_num(lo) and lo.args[0] >= 0 and (hi is NONE or is_num(hi) and hi.args[0] > lo.args[0] + k.args[0]):
            return index(s.args[0], add(lo, k))
    if s.op == 'tuple':
        if is_num(k) and k.args[0].denominator == 1 and -len(s.args) <= k.args[0] < len(s.args):
            return s.args[int(k.args[0])]
    if s.op in ('one', 'cat', 'for'):
        parts = list(s.args) if s.op == 'cat' else [s]
        if is_num(k) and k.args[0].denominator == 1:
            i = int(k.args[0])
            seq = parts if i >= 0 else parts[::-1]
            j = i if i >= 0 else -i - 1
            pos = 0
            for p in seq:
                if p.op == 'one':
                    if pos == j:
                        return p.args[0]
                    pos += 1
                elif p.op == 'ite' and length(p) is ONE:
                    if pos == j:
                        return index(p, ZERO)
                    pos += 1
                else:
                    break
        if s.op == 'for':
            v, (b,) = open_binder(s)
            if b.op == 'one':
                kk = k
                if is_num(k) and k.args[0] < 0:
                    kk = add(s.args[0], k)
                return subst(b.args[0], {v: kk})
            if is_num(k) and k.args[0] in (0, -1) and b.op == 'ite':
                # the first or last element that is kept
                n1 = length(b)
                c = lift(lambda x: TRUE if x is ONE else FALSE if x is ZERO else UNDEF, [n1])
                if all(x in (TRUE, FALSE) for x in ite_leaves(c)):
                    i = close('first' if k.args[0] == 0 else 'lastm', s.args[0], v, c)
                    return subst(lift(lambda x: x.args[0] if x.op == 'one' else UNDEF, [b]), {v: i})
    if s.op == 'call' and s.args[0] == 'zip*' and len(s.args) == 2 and is_num(k) and k.args[0] >= 0:
        # a column of rows that are long enough
        return map_seq(s.args[1], lambda x: index(x, k))
    if s.op == 'poly':
        q = repeated(s)
        if q is not None and not (is_num(k) and k.args[0] < 0):
            return index(q[0], modulo(k, length(q[0])))
    if s.op == 'cat' and NONNEG_RULE is not None and NONNEG_RULE(k):
        n = length(s.args[0])
        return cond(lt0(sub(k, n)), index(s.args[0], k), index(mk_cat(s.args[1:]), sub(k, n)))
    if s.op == 'augs' and NONNEG_RULE is not None and NONNEG_RULE(k) and is_num(index(s.args[0], k)) | (index(s.args[0], k).op in ('floordiv', 'poly')):
        r = units_at(s.args[1], k)
        if r is not None:
            return unind(add(index(s.args[0], k), r))
    if s.op in ('aug', 'upd') and NONNEG_RULE is not None and NONNEG_RULE(k) and s.args[0].op in ('for', 'cat', 'one', 'aug', 'augs'):
        # one entry of a sequence that was changed at one place
        j = s.args[1] if s.op == 'aug' else s.args[1].args[0].args[0] if s.args[1].op == 'one' and s.args[1].args[0].op == 'pair' else None
        if j is not None and is_num(j) and j.args[0] < 0:
            n = length(s.args[0])
            j = None if n.op == 'len' and n.args[0] is s.args[0] else add(n, j)
        if j is not None and (NONNEG_RULE(j) or j.op == 'poly'):
            b = index(s.args[0], k)
            return cond(eq(k, j), add(b, s.args[2]) if s.op == 'aug' else s.args[1].args[0].args[1], b)
    if s.op == 'dict':
        r = dict_get(s.args[0], k)
        if r is not None:
            return r
        if PARTITION is not None:
            r = entry(s.args[0], k, None)
            if r is not None:
                return r
        if k.op == 'dict' and s.args[0].op in ('one', 'cat'):
            # items under composite keys
            ps = s.args[0].args if s.args[0].op == 'cat' else (s.args[0],)
            if ps and all(p.op == 'one' and p.args[0].op == 'pair' and p.args[0].args[0].op == 'dict' for p in ps):
                r = raw('idx', s, k)
                for p in ps:
                    r = cond(eq(p.args[0].args[0], k), p.args[0].args[1], r)
                return r
    if s.op == 'upd' and PARTITION is not None:
        r = entry(s.args[1], k, index(s.args[0], k))
        if r is not None:
            return r
    if k.op == 'm' and k.args[0] == 'posof' and s.op == 'idx' and s.args[0] is k.args[1]:
        return k.args[2]
    if s.op == 'enumerate' and not (is_num(k) and k.args[0] < 0):
        return raw('tuple', add(k, s.args[1]), index(s.args[0], k))
    if s.op == 'zip' and not (is_num(k) and k.args[0] < 0):
        return raw('tuple', *[index(x, k) for x in s.args])
    if s.op == 'rev' and is_num(k):
        return index(s.args[0], num(-k.args[0] - 1))
    if s.op == 'keys':
        return index(s.args[0], k) if s.args[0].op in ('cat', 'one', 'for') else raw('idx', s.args[0], k)
    if is_num(k) and k.args[0] < 0 and k.args[0].denominator == 1:
        n = length(s)
        if is_num(n) and n.args[0] + k.args[0] >= 0:
            return index(s, add(n, k))
    if k.op == 'poly' and s.op not in ('one', 'cat', 'tuple'):
        d = sub(k, length(s))
        if is_num(d) and d.args[0] < 0 and d.args[0].denominator == 1:
            return index(s, d)
    # xs[xs.index(k)] == k
    if k.op == 'm' and k.args[0] == 'index' and k.args[1] is s:
        return k.args[2]
    # negative constant index on an opaque sequence stays as it is
    return raw('idx', s, k)


def ite_leaves(t):
    return ite_leaves(t.args[1]) + ite_leaves(t.args[2]) if t.op == 'ite' else [t]


def dict_get(pairs, k):
    parts = list(pairs.args) if pairs.op == 'cat' else [pairs]
    for p in reversed(parts):
        if p.op == 'one' and p.args[0].op == 'pair':
            key, val = p.args[0].args
            if key is k:
                return val
            if is_const(key) and is_const(k):
                continue
            if NAME_SORT is not None:
                s1, s2 = NAME_SORT(key), NAME_SORT(k)
                if s1 is not None and s2 is not None and s1 != s2:
                    continue
            return None
        if p.op == 'for':
            v, (b,) = open_binder(p)
            if b.op == 'one' and b.args[0].op == 'pair':
                key = b.args[0].args[0]
                w = match(key, v, k)
                if w is not None:
                    return subst(b.args[0].args[1], {v: w})
                if NAME_SORT is not None:
                    s1, s2 = NAME_SORT(key), NAME_SORT(k)
                    pl = PEEL(key, k)
                    if pl is not None and pl[0].op == 'idx' and pl[0].args[1] is v and not depends(pl[0].args[0], v) and DISTINCT(pl[0].args[0]):
                        return subst(b.args[0].args[1], {v: mk('m', 'index', pl[0].args[0], pl[1])})
                    if s1 is not None and s2 is not None:
                        if s1 != s2:
                            continue
                        if key.op == 'idx' and key.args[1] is v and DISTINCT(key.args[0]):
                            return subst(b.args[0].args[1], {v: mk('m', 'index', key.args[0], k)})
            return None
        return None
    return None


def entry(b, k, below):
    """the value under k after the items of b have been entered, the last one winning; None when not known"""
    if b is EMPTY:
        return below
    if b.op == 'cat':
        for p in b.args:
            below = entry(p, k, below) if below is not None else entry(p, k, UNDEF)
            if below is UNDEF:
                below = None
        return below
    if b.op == 'ite':
        x, y = entry(b.args[1], k, below), entry(b.args[2], k, below)
        return cond(b.args[0], x, y) if x is not None and y is not None else None
    if b.op == 'one' and b.args[0].op == 'ite':
        c, x, y = b.args[0].args
        return entry(raw('ite', c, one(x), one(y)), k, below)
    if b.op == 'one' and b.args[0].op == 'pair':
        key, val = b.args[0].args
        if key is k:
            return val
        if is_const(key) and is_const(k):
            return below
        if NAME_SORT is not None:
            s1, s2 = NAME_SORT(key), NAME_SORT(k)
            if s1 is not None and s2 is not None and s1 != s2:
                return below
        return None
    if b.op == 'for':
        v, (x,) = open_binder(b)
        w = which(x, v, k)
        if w is None:
            return None
        if w is UNDEF:
            return below
        return entry(subst(x, {v: w}), k, below)
    return None


def which(b, v, k):
    """the iteration that enters k: a value of v, UNDEF when none does, None when not known"""
    if b.op == 'one' and b.args[0].op == 'pair':
        key = b.args[0].args[0]
        s1, s2 = (NAME_SORT(key), NAME_SORT(k)) if NAME_SORT is not None else (None, None)
        if s1 is not None and s2 is not None and s1 != s2:
            return UNDEF
        if key.op != 'idx' or depends(key.args[0], v) and key.args[1] is v:
            return None
        x = key.args[0]
        inclass = x.op == 'idx' and PARTITION is not None and PARTITION(x.args[0])
        if key.args[1] is v:
            if k.op == 'idx' and k.args[0] is x:
                return k.args[1]
            if s1 is None or s1 != s2:
                return None
            if inclass:
                return mk('m', 'posof', x.args[0], k)
            return mk('m', 'index', x, k) if DISTINCT(x) else None
        if inclass and s1 == s2 and s1 is not None and x.args[1].op == 'idx' and x.args[1].args[1] is v and DISTINCT(x.args[1].args[0]):
            return mk('m', 'classof', x.args[0], k)
        return None
    if b.op == 'for':
        _, (x,) = open_binder(b)
        return which(x, v, k)
    if b.op == 'one' and b.args[0].op == 'ite':
        c, x, y = b.args[0].args
        return which(raw('ite', c, one(x), one(y)), v, k)
    if b.op in ('cat', 'ite'):
        ws = set(which(x, v, k) for x in (b.args[1:] if b.op == 'ite' else b.args) if x is not EMPTY)
        return ws.pop() if len(ws) == 1 else None
    return None


def explicit(d):
    """key -> value of a dict given by its items under constant keys, else None"""
    out = {}
    for p in (d.args[0].args if d.args[0].op == 'cat' else (d.args[0],)):
        if p.op != 'one' or p.args[0].op != 'pair' or p.args[0].args[0].op not in ('str', 'num', 'const'):
            return None
        out[p.args[0].args[0]] = p.args[0].args[1]
    return out


def contains(x, s):
    """x in s"""
    if s.op == 'ite' or x.op == 'ite':
        return lift(contains, [x, s])
    if s.op == 'tuple':
        return lor(*[eq(x, y) for y in s.args])
    if s.op == 'one':
        return eq(x, s.args[0])
    if s.op == 'cat':
        return lor(*[contains(x, p) for p in s.args])
    if s.op == 'for':
        v, (b,) = open_binder(s)
        return mk_any(s.args[0], v, contains(x, b))
    if s.op in ('sorted', 'set', 'uniq', 'rev', 'keys'):
        return contains(x, s.args[0])
    if s.op == 'dict':
        return contains(x, dict_keys(s))
    if s.op == 'without':
        return land(lnot(eq(x, s.args[1])), contains(x, s.args[0]))
    if s.op == 'upd':
        keys = pair_keys(s.args[1])
        if keys is not None:
            return lor(contains(x, s.args[0]), contains(x, keys))
    if s.op == 'str' and x.op == 'str':
        return TRUE if x.args[0] in s.args[0] else FALSE
    if x.op == 'idx' and x.args[0] is s:
        return TRUE
    if IN_RULE is not None:
        r = IN_RULE(x, s)
        if r is not None:
            return r
    return raw('in', x, s)


def pair_keys(pairs):
    """the keys of the pairs added to a dict, None if they are not all known"""
    parts = pairs.args if pairs.op == 'cat' else (pairs,)
    for p in parts:
        b = p
        while b.op == 'for':
            b = open_binder(b)[1][0]
        if b.op != 'one' or b.args[0].op != 'pair':
            return None
    return map_seq(pairs, lambda p: p.args[0])


def map_seq(s, f):
    """apply f to every element of a sequence"""
    if s.op == 'one':
        return one(f(s.args[0]))
    if s.op == 'cat':
        return mk_cat([map_seq(p, f) for p in s.args])
    if s.op == 'for':
        v, (b,) = open_binder(s)
        return mk_for(s.args[0], v, map_seq(b, f))
    if s.op == 'ite':
        return cond(s.args[0], map_seq(s.args[1], f), map_seq(s.args[2], f))
    if s.op == 'tuple':
        return mk_cat([one(f(x)) for x in s.args])
    v = fresh()
    return mk_for(length(s), v, one(f(index(s, v))))


def seq_of(t):
    """the sequence iterated over by 'for x in t'"""
    if t.op == 'tuple':
        return mk_cat([one(x) for x in t.args])
    if t.op == 'dict':
        return dict_keys(t)
    if t.op == 'str':
        return mk_cat([one(const(c)) for c in t.args[0]])
    if t.op == 'range':
        v = fresh()
        return mk_for(t.args[0], v, one(v))
    if t.op == 'nda':
        return t.args[0]
    if t.op == 'smat':
        return FLAT(t)
    return t


def minus_key(d, k):
    """the dict d, without the key k, if it is there"""
    if d.op == 'ite' or k.op == 'ite':
        return lift(minus_key, [d, k])
    if d.op == 'without':
        if d.args[1] is k:
            return d
        if k.uid < d.args[1].uid:
            return raw('without', minus_key(d.args[0], k), d.args[1])
    return raw('without', d, k)


def dict_keys(d):
    if d.op == 'ite':
        return cond(d.args[0], dict_keys(d.args[1]), dict_keys(d.args[2]))
    if d.op == 'dict':
        ks = map_seq(d.args[0], lambda p: p.args[0] if p.op == 'pair' else raw('idx', p, ZERO))
        return raw('uniq', ks) if collide(d.args[0]) else ks
    if PARTITION is not None and PARTITION(d):
        return PARTITION(d)
    return raw('keys', d)


def collide(s):
    """entries put in by a loop, the keys of which need not differ"""
    if s.op != 'for' or DISTINCT is None:
        return False
    v, (b,) = open_binder(s)
    while b.op == 'ite' and EMPTY in (b.args[1], b.args[2]):
        b = b.args[1] if b.args[2] is EMPTY else b.args[2]
    if b.op != 'one' or b.args[0].op != 'pair':
        return False
    return not told_apart(b.args[0].args[0], v)


def told_apart(k, v):
    """k differs for different v"""
    if k is v:
        return True
    if k.op == 'idx' and k.args[1] is v and not depends(k.args[0], v):
        x = k.args[0]
        return DISTINCT(x) or x.op in ('keys', 'uniq', 'set', 'dict', 'range') or x.op == 'sorted' and x.args[0].op in ('keys', 'uniq', 'set', 'dict')
    if k.op in ('tuple', 'scat'):
        return any(told_apart(x, v) for x in k.args if type(x) is T)
    return k.op not in ('m', 'attr', 'str', 'num', 'idx')




def enumerate_seq(s, start=ZERO):
    if s.op == 'ite':
        return cond(s.args[0], enumerate_seq(s.args[1], start), enumerate_seq(s.args[2], start))
    if s.op == 'tuple':
        s = seq_of(s)
    if s.op == 'one' or (s.op == 'cat' and all(p.op == 'one' for p in s.args)):
        parts = s.args if s.op == 'cat' else [s]
        return mk_cat([one(raw('tuple', add(start, num(i)), p.args[0])) for i, p in enumerate(parts)])
    if s.op == 'for':
        v, (b,) = open_binder(s)
        if b.op == 'one':
            return mk_for(s.args[0], v, one(raw('tuple', add(v, start), b.args[0])))
        return raw('enumerate', s, start)
    if s.op == 'cat' or s.op == 'ite':
        return raw('enumerate', s, start)
    v = fresh()
    return mk_for(length(s), v, one(raw('tuple', add(v, start), index(s, v))))


ZIPPED = []     # lengths of sequences that are walked together


def equal_lengths(ts):
    """the terms, with one length standing for all lengths of sequences that are walked together"""
    rep = {}

    def find(x):
        while x in rep:
            x = rep[x]
        return x
    for a, b in ZIPPED:
        a, b = find(a), find(b)
        if a is not b:
            # the shorter one stays; a number always does
            if is_num(a) and is_num(b):
                continue
            if is_num(b) or not is_num(a) and sum(1 for _ in subterms(b)) < sum(1 for _ in subterms(a)):
                a, b = b, a
            rep[b] = a
    if not rep:
        return list(ts)
    m = {k: find(k) for k in rep}
    return [subst(t, m) for t in ts]


def zip_seq(ss):
    ss = [seq_of(s) for s in ss]
    if all(s.op == 'one' or (s.op == 'cat' and all(p.op == 'one' for p in s.args)) for s in ss):
        ls = [list(s.args) if s.op == 'cat' else [s] for s in ss]
        return mk_cat([one(raw('tuple', *[p.args[0] for p in ps])) for ps in zip(*ls)])
    prim = None
    for s in ss:
        if s.op == 'cat' or (s.op == 'for' and open_binder(s)[1][0].op != 'one') or s.op == 'ite':
            # irregular
            if not all(p.op == 'one' for p in (s.args if s.op == 'cat' else ())) or s.op != 'cat':
                return raw('zip', *ss)
    # the first one gives the domain (lengths are assumed equal, as zip users do)
    prim = ss[0]
    n = length(prim)
    for s in ss[1:]:
        k = length(s)
        if k is not n and not k.fv and not n.fv and not k.bvs and not n.bvs:
            ZIPPED.append((n, k))
    v = fresh()
    return mk_for(length(prim), v, one(raw('tuple', *[index(s, v) for s in ss])))


def sum_seq(s, start=ZERO):
    s = seq_of(s)
    if s.op == 'one':
        return add(start, s.args[0])
    if s.op == 'cat':
        r = start
        for p in s.args:
            r = add(r, sum_seq(p))
        return r
    if s.op == 'for':
        v, (b,) = open_binder(s)
        return add(start, mk_sum(s.args[0], v, sum_seq(b)))
    if s.op == 'ite':
        return cond(s.args[0], sum_seq(s.args[1], start), sum_seq(s.args[2], start))
    if s.op in ('sorted', 'rev'):
        return sum_seq(s.args[0], start)
    v = fresh()
    return add(start, mk_sum(length(s), v, index(s, v)))


def any_seq(s):
    s = seq_of(s)
    if s.op == 'one':
        return truth(s.args[0])
    if s.op == 'cat':
        return lor(*[any_seq(p) for p in s.args])
    if s.op == 'for':
        v, (b,) = open_binder(s)
        return mk_any(s.args[0], v, any_seq(b))
    if s.op == 'ite':
        return cond(s.args[0], any_seq(s.args[1]), any_seq(s.args[2]))
    v = fresh()
    return mk_any(length(s), v, truth(index(s, v)))


def all_seq(s):
    return lnot(any_seq(map_seq(seq_of(s), lambda x: lnot(truth(x)))))


def mk_set(s):
    """duplicates and order do not matter"""
    if s.op == 'ite':
        return cond(s.args[0], mk_set(s.args[1]), mk_set(s.args[2]))
    parts = {}

    def go(p, wrap):
        if p.op == 'cat':
            for q in p.args:
                go(q, wrap)
        elif p.op == 'for':
            v, (b,) = open_binder(p)
            n = p.args[0]
            go(b, lambda x: wrap(mk_for(n, v, x)))
        elif p.op in ('set', 'sorted', 'uniq', 'rev'):
            go(p.args[0], wrap)
        elif p.op == 'ite' and p.args[2] is EMPTY:
            c = p.args[0]
            go(p.args[1], lambda x: wrap(mk_ite(c, x, EMPTY)))
        else:
            parts[wrap(p)] = 1
    go(seq_of(s), lambda x: x)
    return raw('set', mk_cat(sorted(parts, key=lambda t: t.uid)))


def mk_sorted(s, *key):
    if s.op == 'ite':
        return cond(s.args[0], mk_sorted(s.args[1], *key), mk_sorted(s.args[2], *key))
    if s.op in ('one',) or s is EMPTY:
        return s
    if s.op == 'uniq':
        s = mk_set(s.args[0])
    if s.op == 'sorted' and not key:
        if len(s.args) == 1:
            return s
        s = s.args[0]
    if s.op == 'rev':
        s = s.args[0]
    return raw('sorted', s, *key)


# ---------------------------------------------------------------------------- strings
def trace_canon(t):
    """consecutive writes to one file are one write"""
    if t.op == 'ite':
        return cond(t.args[0], trace_canon(t.args[1]), trace_canon(t.args[2]))
    if t.op == 'for':
        v, (b,) = open_binder(t)
        b = trace_canon(b)
        if b.op == 'one' and b.args[0].op == 'ev' and b.args[0].args[0] == 'write' and not depends(b.args[0].args[1], v):
            w = b.args[0]
            return one(raw('ev', 'write', w.args[1], mk_join(const(''), mk_for(t.args[0], v, one(w.args[2])))))
        return mk_for(t.args[0], v, b)
    if t.op == 'cat':
        out = []
        for p in [q for x in t.args for q in (lambda y: y.args if y.op == 'cat' else [y])(trace_canon(x))]:
            if out and p.op == 'one' and out[-1].op == 'one':
                a, b = out[-1].args[0], p.args[0]
                if a.op == 'ev' and b.op == 'ev' and a.args[0] == b.args[0] == 'write' and a.args[1] is b.args[1]:
                    out[-1] = one(raw('ev', 'write', a.args[1], mk_scat([a.args[2], b.args[2]])))
                    continue
            out.append(p)
        return mk_cat(out)
    return t


STRING_CALLS = {'get_list_string', 'get_dict_string', 'time.asctime', 'os.getcwd', 'os.path.join', 'time.ctime'}


def is_str(t):
    if t.op == 'call':
        return t.args[0] in STRING_CALLS
    return t.op in ('str', 'scat', 'sfor', 'fmt', 'join') or (t.op == 'ite' and (is_str(t.args[1]) or is_str(t.args[2])))


def is_text(t):
    """a part of a text found in another"""
    while t.op == 'idx':
        t = t.args[0]
        if t.op == 'm' and t.args[0] in ('findall', 'split', 'groups', 'partition', 'rsplit', 'splitlines'):
            return True
    return t.op == 'm' and t.args[0] in STR_METHODS


def sparts(t):
    if t.op == 'scat':
        return list(t.args)
    if t.op == 'str' and t.args[0] == '':
        return []
    return [t]


def lift_str(f, t):
    """f of the string t, with the alternatives among the parts of t taken apart"""
    if t.op == 'ite':
        return cond(t.args[0], lift_str(f, t.args[1]), lift_str(f, t.args[2]))
    if t.op == 'scat':
        for i, p in enumerate(t.args):
            if p.op == 'ite':
                c, x, y = p.args
                pre, post = list(t.args[:i]), list(t.args[i + 1:])
                return cond(c, lift_str(f, mk_scat(pre + [x] + post)), lift_str(f, mk_scat(pre + [y] + post)))
    return f(t)


def mk_scat(parts):
    out = []
    for p in parts:
        for q in sparts(p):
            if is_num(q) and q.args[0].denominator == 1:
                q = const(str(int(q.args[0])))
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif q.op == 'str' and q.args[0] == '':
                pass
            else:
                out.append(q)
    for k, q in enumerate(out):
        if k and q.op == 'sfor':
            # x0 + (sep + x1) + (sep + x2) ...
            v, (body,) = open_binder(q)
            if body.op == 'scat' and body.args[0].op == 'str' and len(body.args) > 1:
                g = subst(body.args[1] if len(body.args) == 2 else mk_scat(body.args[1:]), {v: sub(v, ONE)})
                head = sparts(subst(g, {v: ZERO}))
                if len(head) <= k and all(x is y for x, y in zip(head, out[k - len(head):k])):
                    return mk_scat(out[:k - len(head)] + [mk_join(body.args[0], mk_for(add(q.args[0], ONE), v, one(g)))] + out[k + 1:])
    if not out:
        return const('')
    if len(out) == 1 and (is_str(out[0]) or out[0].op == 'm' and out[0].args[0] in STR_METHODS):
        return out[0]
    return raw('scat', *out)


STR_METHODS = {'species', 'site', 'species_site', 'type', 'zfill'}


def mk_join(sep, s):
    if s.op == 'ite':
        return cond(s.args[0], mk_join(sep, s.args[1]), mk_join(sep, s.args[2]))
    s = seq_of(s)
    if s.op == 'one':
        return mk_scat([s.args[0]])
    if s.op == 'cat' and all(p.op == 'one' for p in s.args):
        parts = []
        for i, p in enumerate(s.args):
            if i:
                parts.append(sep)
            parts.append(p.args[0])
        return mk_scat(parts)
    if sep.op == 'str' and sep.args[0] == '':
        if s.op == 'cat':
            return mk_scat([mk_join(sep, p) for p in s.args])
        if s.op == 'for':
            v, (b,) = open_binder(s)
            return mk_sfor(s.args[0], v, mk_join(sep, b))
    return raw('join', sep, s)


def mk_sfor(n, v, body):
    if n is ZERO or (body.op == 'str' and body.args[0] == ''):
        return const('')
    return close('sfor', n, v, body)


# ---------------------------------------------------------------------------- generic constructor
def mk(op, *args):
    f = CONS.get(op)
    if f is not None:
        return f(*args)
    return raw(op, *args)


def _poly_cons(items):
    r = ZERO
    for c, m in items:
        t = num(c)
        for a, e in m:
            t = mul(t, power_atom(a, e))
        r = add(r, t)
    return r


def power_atom(a, e):
    if a is EULER:
        return exp(e)
    if a.op == 'ind':
        return mk_ind(a.args[0]) if a.args else a
    return power(a, e)


def mk_ind(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == 'ite':
        return to_ind(cond(c, ONE, ZERO))
    return raw('ind', c)


REWRITE = None
TWO_OR_THREE = None      # recognises the number of states of a reaction


def n_conds(ts):
    seen = set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if type(t) is T and t.op == 'ite' and t not in seen:
            seen.add(t)
            todo.extend(t.args[1:])
            if len(seen) > 12:
                return 99
    return len(seen)


def app(op):
    """uninterpreted application: pushed below the decisions of its arguments, then rewritten"""
    def plain(*args):
        t = raw(op, *args)
        if op == 'm' and args[0] == 'index' and len(args) == 3:
            q = args[1]
            if q.op == 'one' and q.args[0].op not in ('ite',):
                pass
            if q.op == 'for':
                v, (b,) = open_binder(q)
                if elements_one(b):
                    return close('first', q.args[0], v, eq(first_elem(b), args[2]))
        if REWRITE is not None:
            r = REWRITE(t)
            if r is not None and r is not t:
                return r
        return t

    def f(*args):
        if any(type(a) is T and a.op == 'ite' for a in args) and n_conds(args) <= 12:
            return lift(plain, list(args))
        return plain(*args)
    return f


def elements_one(b):
    if b.op == 'ite':
        return elements_one(b.args[1]) and elements_one(b.args[2])
    return b.op == 'one'


def first_elem(b):
    if b.op == 'ite':
        return cond(b.args[0], first_elem(b.args[1]), first_elem(b.args[2]))
    return b.args[0]


def mk_idx(s, k):
    return rewritten(index(s, k))


def rewritten(t):
    if t.op == 'ite':
        return cond(t.args[0], rewritten(t.args[1]), rewritten(t.args[2]))
    if REWRITE is not None and t.op in ('idx', 'attr', 'm', 'call', 'new', 'typeof', 'hasattr'):
        r = REWRITE(t)
        if r is not None and r is not t:
            return r
    return t


def mk_tuple(*a):
    return raw('tuple', *a)


CONS = {
    'poly': _poly_cons,
    'ite': cond,
    'lt0': lt0,
    'floordiv': floordiv,
    'mod': modulo,
    'eq': eq,
    'truthy': truth,
    'isnone': isnone,
    'ind': mk_ind,
    'log': log,
    'max': lambda *a: minmax('max', a),
    'maxof': mk_maxof,
    'min': lambda *a: minmax('min', a),
    'cat': lambda *a: mk_cat(a),
    'len': length,
    'idx': mk_idx,
    'm': app('m'),
    'call': app('call'),
    'new': app('new'),
    'attr': app('attr'),
    'in': contains,
    'set': mk_set,
    'sorted': mk_sorted,
    'scat': lambda *a: mk_scat(a),
    'join': mk_join,
    'keys': dict_keys,
    'num': num,
    'tuple': mk_tuple,
}


def mkb(op, n, v, *bodies):
    if op == 'for':
        return mk_for(n, v, *bodies)
    if op == 'sum':
        return mk_sum(n, v, *bodies)
    if op == 'prod':
        return mk_prod(n, v, *bodies)
    if op == 'any':
        return mk_any(n, v, *bodies)
    if op == 'sfor':
        return mk_sfor(n, v, *bodies)
    return close(op, n, v, *bodies)


# ---------------------------------------------------------------------------- printing
def show(t, depth=12):
    if type(t) is tuple:
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if type(t) is not T:
        return str(t)
    if depth <= 0:
        return '...'
    d = depth - 1
    a = t.args
    o = t.op
    if o == 'num':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'const':
        return a[1]
    if o in ('var', 'sym', 'k', 'ext', 'fn'):
        return str(a[0])
    if o == 'v':
        return 'v%d' % a[0]
    if o == 'bv':
        return 'i%d' % a[0]
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'idx':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'm':
        return '%s.%s(%s)' % (show(a[1], d), a[0], ', '.join(show(x, d) for x in a[2:]))
    if o == 'poly':
        ms = []
        for c, m in a[0]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for x, e in m:
                fs.append(show(x, d) if e is ONE else '%s**(%s)' % (show(x, d), show(e, d)))
            ms.append('*'.join(fs))
        return '(' + ' + '.join(ms) + ')'
    if o == 'ite':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == 'one':
        return '[%s]' % show(a[0], d)
    if o == 'cat':
        return 'cat(%s)' % ', '.join(show(x, d) for x in a)
    if o in BINDERS:
        return '%s(i%d<%s: %s)' % (o, binder_height(t), show(a[0], d), ', '.join(show(x, d) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
