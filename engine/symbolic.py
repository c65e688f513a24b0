"""Symbolic algebra: symbols are named by text, matrices are rows of entries, and substitution replaces symbols.

* Symbol(prefix + name): symbols of one prefix are distinct for distinct names; symbols of prefixes that end at
  their only underscore are distinct.
* Matrix(list) is a column, Matrix(list of rows) has those rows; products, transposes, signs and substitution are
  computed entry by entry; iterating over a row or a column gives its entries.
* e.subs(d), e.evalf(subs=d), N(e, subs=d): every symbol of e is replaced by its entry of d.
"""
import re

from . import terms as K
from .terms import raw, const, one, add, mul, neg, index, length, fresh, mk_for, num, ONE, ZERO, EMPTY

PREFIX = re.compile(r'[A-Za-z]+_\Z')


def is_symbol(t):
    return t.op == 'call' and t.args[0] == 'sympy.Symbol' and len(t.args) > 1


def family(t):
    """the text before the name of a symbol, or its whole name"""
    x = t.args[1]
    if x.op == 'str' and x.args[0].isalpha():
        return ('symbol', x.args[0])
    if x.op == 'scat' and len(x.args) == 2 and x.args[0].op == 'str' and PREFIX.match(x.args[0].args[0]):
        return ('symbol', x.args[0].args[0])
    return None


def peel(a, b):
    """two symbols of one family: what follows the common text"""
    if is_symbol(a) and is_symbol(b) and a.args[2:] == b.args[2:] and family(a) is not None and family(a) == family(b) and a.args[1].op == 'scat':
        return a.args[1].args[1], b.args[1].args[1]
    return None


def injective(k, v):
    """symbols for different v have different names"""
    if is_symbol(k) and family(k) is not None and k.args[1].op == 'scat':
        x = k.args[1].args[1]
        return x is v or x.op == 'idx' and x.args[1] is v and v.args[0] not in x.args[0].fv and K.DISTINCT(x.args[0])
    return False


def symbols(text, kw):
    """sympy.symbols('a, b')"""
    names = [x for x in re.split(r'[,\s]+', text) if x]
    if any(not x.isidentifier() for x in names):
        return None
    out = [raw('call', 'sympy.Symbol', const(x), *kw) for x in names]
    return out[0] if len(out) == 1 and ',' not in text else raw('tuple', *out)


def value(d, x):
    """what a substitution puts in the place of a symbol"""
    if d.op == 'ite':
        return K.cond(d.args[0], value(d.args[1], x), value(d.args[2], x))
    if d.op == 'dict' and family(x) is not None and d.args[0] is not EMPTY:
        fs = set()
        for p in d.args[0].args if d.args[0].op == 'cat' else d.args:
            b = p
            while b.op == 'for':
                b = K.open_binder(b)[1][0]
            k = b.args[0].args[0] if b.op == 'one' and b.args[0].op == 'pair' else None
            fs.add(family(k) if k is not None and is_symbol(k) else None)
        if None not in fs and family(x) not in fs:
            return x        # it stays
    return index(d, x)


def assign(e, d):
    """e with every symbol replaced by its entry of d"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if is_symbol(x):
            r = value(d, x)
        elif x.op in K.BINDERS:
            v, bodies = K.open_binder(x)
            r = K.mkb(x.op, go(x.args[0]), v, *[goa(b) for b in bodies])
        elif not x.args:
            r = x
        else:
            r = K.mk(x.op, *[goa(a) for a in x.args])
        memo[x] = r
        return r

    def goa(a):
        if type(a) is K.T:
            return go(a)
        if type(a) is tuple:
            return tuple(goa(b) for b in a)
        return a
    return go(e)


def has_symbols(e):
    return any(is_symbol(x) for x in K.subterms(e))


# matrices: smat(rows, columns, entries) -----------------------------------
def cell(m, i, j):
    return index(index(m.args[2], i), j)


def build(n, m, f):
    i, j = fresh(), fresh()
    return raw('smat', n, m, mk_for(n, i, one(mk_for(m, j, one(f(i, j))))))


def matrix(x, dom):
    """Matrix(x)"""
    if x.op == 'smat':
        return x
    shape = getattr(dom, 'shape', None)
    s = shape(x) if shape is not None else None
    if s is None and x.op == 'poly':
        return scaled(x, dom)
    if s is not None:
        if len(s) == 1:
            return build(s[0], ONE, lambda i, j: index(x, i))
        return build(s[0], s[1], lambda i, j: index(index(x, i), j))
    if x.op == 'tuple':
        x = K.seq_of(x)
    if x.op not in ('one', 'cat', 'for') or x is EMPTY:
        return None
    v = fresh()
    e = index(x, v) if x.op == 'for' else index(x, ZERO)
    if e.op in ('one', 'cat', 'for', 'tuple'):
        return build(length(x), length(e), lambda i, j: index(index(x, i), j))
    if e.op == 'idx' and x.op != 'for' and index(x, ZERO) is e and shape is not None and shape(e):
        return None
    return build(length(x), ONE, lambda i, j: index(x, i))


def scaled(x, dom):
    """c times a matrix that is not built from lists"""
    p = K.to_poly(x)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    ms = [(a, e) for a, e in m if getattr(dom, 'shape', lambda a: None)(a) is not None]
    if len(ms) != 1 or ms[0][1] is not ONE:
        return None
    rest = num(c)
    for a, e in m:
        if a is not ms[0][0]:
            rest = mul(rest, K.power(a, e))
    b = matrix(ms[0][0], dom)
    return each(b, lambda y: mul(rest, y))


def each(m, f):
    return build(m.args[0], m.args[1], lambda i, j: f(cell(m, i, j)))


def transpose(m):
    return build(m.args[1], m.args[0], lambda i, j: cell(m, j, i))


def product(a, b):
    if a.op == 'smat' and b.op == 'smat':
        if a.args[1] is not b.args[0]:
            return raw('bin', 'MatMult', a, b)

        def f(i, j):
            k = fresh()
            return K.mk_sum(a.args[1], k, mul(cell(a, i, k), cell(b, k, j)))
        return build(a.args[0], b.args[1], f)
    if a.op == 'smat':
        return each(a, lambda x: mul(x, b))
    return each(b, lambda x: mul(a, x))


def binop(op, a, b):
    if op in ('Mult', 'MatMult'):
        return product(a, b)
    if op == 'Div' and a.op == 'smat' and b.op != 'smat':
        return each(a, lambda x: K.div(x, b))
    if op in ('Add', 'Sub') and a.op == 'smat' and b.op == 'smat' and a.args[:2] == b.args[:2]:
        f = add if op == 'Add' else K.sub
        return build(a.args[0], a.args[1], lambda i, j: f(cell(a, i, j), cell(b, i, j)))
    return raw('bin', op, a, b)


def flat(m):
    """the entries, row by row"""
    i, j = fresh(), fresh()
    if m.args[0] is ONE:
        return mk_for(m.args[1], j, one(cell(m, ZERO, j)))
    if m.args[1] is ONE:
        return mk_for(m.args[0], i, one(cell(m, i, ZERO)))
    return mk_for(m.args[0], i, mk_for(m.args[1], j, one(cell(m, i, j))))


def entry(m, k):
    if k.op == 'tuple' and len(k.args) == 2 and not any(a.op in ('slice', 'none') for a in k.args):
        return cell(m, *k.args)
    if m.args[0] is ONE:
        return cell(m, ZERO, k)
    if m.args[1] is ONE:
        return cell(m, k, ZERO)
    return None


K.FLAT, K.ENTRY, K.PEEL = flat, entry, peel
