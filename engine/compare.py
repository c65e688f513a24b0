"""Comparison of an implementation summary with a specification summary."""
from . import terms as K
from . import cases as C
from .terms import T

# nodes that mean "the lifting gave up here"
OPAQUE = {'opaque', 'fold', 'while', 'callv', 'badcall', 'bvlc', 'reduce', 'undef', 'lc', 'loc', 'name',
          'star', 'sliceset', 'badformat', 'raises', 'exctype', 'excval', 'closure', 'bound', 'partial',
          'unordered', 'stopiter', 'anyof', 'ddict', 'range3', 'lam', 'fmtfield', 'bin', 'un', 'cmp', 'percent', 'obj'}

# faithful descriptions of an update, but not in normal form: a difference only counts when both sides are described the same way
SOFT = {'mut', 'mutret', 'aug', 'augs'}


def soft(t):
    return set(x.op + (':' + str(x.args[0]) if x.op in ('mut', 'mutret') else '') for x in subterms(t) if x.op in SOFT) | \
        set('slice' for x in subterms(t) if x.op == 'cat' and any(y.op == 'slice' for y in x.args))


def definite(x, y):
    """two updates that differ however they are written"""
    return one_sided(x, y) or one_sided(y, x)


def one_sided(x, y):
    if x.op == 'attr' and y.op == 'cat' and y.args.count(x) == 1 and any(p.op == 'one' for p in y.args):
        return True     # nothing added
    if y.op == 'aug' and y.args[0].op == 'attr' and (x is y.args[0] or y.args[0] not in parts(x)) and K.is_num(y.args[2]) and y.args[2] is not K.ZERO:
        return True     # nothing counted, or something in place of a new start
    if x.op in ('attr', 'var', 'const', 'str', 'num') and not soft(x) and (y.op == 'm' or y.op == 'poly' and x.op in ('const', 'str')):
        return True
    if y.op == 'aug' and x is y.args[0] and y.args[2].op in ('attr', 'var'):
        return True     # nothing added
    if y.op == 'upd' and not soft(x) and x.op in ('attr', 'var', 'const', 'str', 'num', 'm'):
        ps = y.args[1].args if y.args[1].op == 'cat' else (y.args[1],)
        if all(p.op == 'one' and p.args[0].op == 'pair' for p in ps):
            if x is not y.args[0]:
                return True
            return any(one_sided(K.index(x, p.args[0].args[0]), p.args[0].args[1]) for p in ps)
    if x.op == 'cat' and y.op == 'cat' and any(p.op == 'one' for p in x.args):
        # put in at another place
        base = [p for p in x.args if p.op != 'one']
        cut = [p for p in y.args if p.op == 'slice']
        if len(base) == 1 and len(cut) == 2 and all(p.args[0] is base[0] for p in cut) and base[0].op != 'slice' and \
                [p for p in x.args if p.op == 'one'] == [p for p in y.args if p.op == 'one'] and len(y.args) == 3 and y.args[1].op == 'one':
            return True
    return False


def subterms(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        todo.extend(K.children(x))


def blockers(t, allowed=()):
    allowed = tuple(allowed) + ('param',)
    return sorted(set(['arithmetic on a sequence'] if any(x.op == 'poly' and any(f.op in SEQUENCES for c, m in x.args[0] for f, e in m) for x in subterms(t)) else []) | set(x.op + (':' + str(x.args[0]) if x.op in ('opaque', 'name', 'badcall', 'mut') and x.args and not isinstance(x.args[0], T) else '')
                      for x in subterms(t) if x.op in OPAQUE and x.op not in allowed and not (x.op == 'callv' and x.args[0].op in ('var', 'dynattr'))))


SHAREABLE = {'execenv', 'opaque', 'callv', 'reduce', 'fold', 'while', 'obj', 'closure', 'dynattr', 'raises', 'bound'}


def open_blockers(x, y, allowed=()):
    """unresolved constructs of x that are not, as a whole, a part of y as well (common ones act as unknowns)"""
    other = set(t.uid for t in subterms(y))
    seen, todo, out = set(), [x], set()
    while todo:
        t = todo.pop()
        if t.uid in seen:
            continue
        seen.add(t.uid)
        if t.op in SHAREABLE and t.uid in other:
            continue
        if t.op == 'callv' and t.args[0].op in ('var', 'dynattr'):
            todo.extend(K.children(t))      # a function that is a parameter: any function
            continue
        if t.op in OPAQUE and t.op not in allowed:
            out.add(t.op)
        todo.extend(K.children(t))
    return out


SEQUENCES = {'cat', 'one', 'for', 'dict', 'set', 'sorted', 'unordered', 'keys', 'enumerate', 'zip'}


def names(t):
    """vocabulary used by a term"""
    out = set()
    for x in subterms(t):
        if x.op in ('attr',):
            out.add(('attr', x.args[1]))
        elif x.op in ('m', 'call', 'ev', 'new'):
            out.add(('call', x.args[0]))
        elif x.op in ('k', 'ext', 'fn', 'class', 'var'):
            out.add((x.op, x.args[0]))
        elif x.op in ('hasattr',):
            out.add(('attr', x.args[1]))
    return out


def diff(a, b, out=None, limit=40):
    """pairs of smallest differing subterms"""
    if out is None:
        out = []
    if a is b or len(out) >= limit:
        return out
    if a.op == b.op and a.op == 'poly':
        pa, pb = dict((m, c) for c, m in a.args[0]), dict((m, c) for c, m in b.args[0])
        ra = [(m, c) for m, c in pa.items() if pb.get(m) != c]
        rb = [(m, c) for m, c in pb.items() if pa.get(m) != c]
        if len(ra) == 1 and len(rb) == 1 and ra[0][1] == rb[0][1]:
            fa, fb = list(ra[0][0]), list(rb[0][0])
            xa = [f for f in fa if f not in fb]
            xb = [f for f in fb if f not in fa]
            if len(xa) == 1 and len(xb) == 1:
                if xa[0][1] is xb[0][1]:
                    return diff(xa[0][0], xb[0][0], out, limit)
                if xa[0][0] is xb[0][0]:
                    return diff(xa[0][1], xb[0][1], out, limit)
        out.append((K.from_poly(dict(ra)), K.from_poly(dict(rb))))
        return out
    if a.op == b.op and len(a.args) == len(b.args) and a.op != 'ite':
        pairs = []
        ok = True
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y:
                    pairs.append((x, y))
            elif isinstance(x, T) or isinstance(y, T):
                ok = False
            elif x != y:
                ok = False
        if ok and pairs:
            for x, y in pairs:
                diff(x, y, out, limit)
            return out
    if a.op == 'ite' and b.op == 'ite':
        if a.args[0] is b.args[0]:
            diff(a.args[1], b.args[1], out, limit)
            diff(a.args[2], b.args[2], out, limit)
            return out
        if a.args[1] is b.args[1] and a.args[2] is b.args[2]:
            diff(a.args[0], b.args[0], out, limit)
            return out
    out.append((a, b))
    return out


class Verdict(object):
    def __init__(self, status, why='', diffs=()):
        self.status, self.why, self.diffs = status, why, list(diffs)


def handed(impl, spec, allowed):
    """methods that are handed over are resolved when the reference hands over the same ones"""
    a, b = [set(x.args[1] for x in subterms(t) if x.op == 'bound') for t in (impl, spec)]
    return tuple(allowed) + ('bound',) if a and a <= b else allowed


def compare(impl, spec, vocab, allowed=()):
    """HOLDS / VIOLATED / UNDECIDED.

    A difference only counts as a violation when the implementation summary is completely resolved (no opaque
    part that the specification does not have as well) and speaks about the vocabulary known to the checks."""
    if impl is spec:
        return Verdict('HOLDS')
    allowed = handed(impl, spec, allowed)
    old = K.LIMIT[0]
    K.LIMIT[0] = max(old, K._counter[0] + 300000)
    a2 = b2 = None
    try:
        K.TRUNCATED[0] = False
        x, y = K.expanded(impl), K.expanded(spec)
        if x is y and x is not None:
            return Verdict('HOLDS', 'after taking the alternatives apart')
        a2, b2 = x, y
        x, y = a2, b2
        for _ in range(2):
            x, y = K.expanded(K.split_any(x)), K.expanded(K.split_any(y))
            if x is y:
                return Verdict('HOLDS', 'after taking existence statements apart')
        a2, b2 = x, y
    except (K.Budget, RecursionError):
        pass
    finally:
        K.LIMIT[0] = old
    for x, y in diff(a2 if a2 is not None else impl, b2 if b2 is not None else spec):
        if x.op == 'unordered' and y.op == 'sorted' and len(y.args) == 1 and x.args[0] is y.args[0]:
            return Verdict('VIOLATED', 'the order depends on hashing', [(x, y)])
    sn = names(spec)
    # case by case
    K.LIMIT[0] = max(old, K._counter[0] + 4000000)
    open_case = None
    complete = True
    try:
        for n, (case, x, y) in enumerate(C.differing(impl, spec)):
            why = unresolved_case(case, x, y, impl, spec, sn, vocab, allowed)
            if why is None:
                return Verdict('VIOLATED', '', diff(x, y))
            open_case = open_case or (why, x, y)
            if n > 200:
                complete = False
                break
        if complete and open_case is None:
            return Verdict('HOLDS', 'in every case that can occur')
        if complete:
            for n, ((l, k), case, x, y) in enumerate(C.differing_short(impl, spec)):
                if unresolved_case(case, x, y, impl, spec, sn, vocab, allowed) is None:
                    return Verdict('VIOLATED', 'for %s = %d' % (K.show(l), k), diff(x, y))
                if n > 300:
                    break
            return Verdict('UNDECIDED', open_case[0], diff(open_case[1], open_case[2]))
    except (C.Incomplete, K.Budget, RecursionError):
        pass
    finally:
        K.LIMIT[0] = old
    if a2 is None:
        return Verdict('UNDECIDED', 'too many alternatives to take apart', diff(impl, spec))
    why = unresolved(impl, spec, sn, vocab, allowed)
    d = diff(impl, spec)
    if why:
        return Verdict('UNDECIDED', why, d)
    d2 = diff(a2, b2)
    return Verdict('VIOLATED', '', d2 if 0 < len(d2) <= len(d) else d)


def unresolved_case(case, x, y, impl, spec, sn, vocab, allowed):
    why = unresolved(x, y, sn, vocab, allowed)
    for c, val in case.path:
        if why:
            break
        if open_blockers(c, spec, allowed) or open_blockers(c, impl, allowed):
            why = 'a condition is not resolved'
        elif c not in parts(spec) and [q for q in names(c) if q not in sn and not known(q, vocab)]:
            if not text_possible(c, case.path, spec):
                why = 'a condition outside the vocabulary'
    return why


TEXT = {'startswith', 'endswith', 'isdigit', 'isalpha', 'lower', 'upper', 'isupper', 'islower', 'find', 'count', 'strip'}


def text_possible(c, path, spec):
    """c tests a text that the reference tests as well, and some text passes all tests of the path"""
    xs = texts(c)
    if len(xs) != 1:
        return False
    x = xs.pop()
    if not any(y.op in ('eq', 'in') and x in texts(y) for y in parts(spec)):
        return False
    tests = [(d, v) for d, v in path if x in parts(d)]
    if any(texts(d) != {x} for d, v in tests):
        return False
    words = sorted(set(y.args[0] for d, v in tests for y in subterms(d) if y.op == 'str'))
    cand = [''] + words + [w + 'x' for w in words] + ['x' + w for w in words] + [w.upper() for w in words] + [w[:-1] for w in words] + ['x']
    for w in cand:
        try:
            if all(text_eval(d, x, w) == v for d, v in tests):
                return True
        except ValueError:
            return False
    return False


def texts(c):
    """the text tested by a condition (empty when it is not a test of texts only)"""
    if c.op == 'm' and c.args[0] in TEXT and all(a.op == 'str' for a in c.args[2:]):
        return texts(c.args[1]) or {c.args[1]}
    if c.op == 'eq':
        a, b = c.args
        if a.op == 'str':
            a, b = b, a
        if b.op == 'str' or b.op == 'num' and a.op == 'm' and a.args[0] in TEXT:
            return texts(a) or {a}
    if c.op == 'in' and c.args[0].op == 'str':
        return {c.args[1]}
    if c.op == 'truthy' and c.args[0].op == 'm' and c.args[0].args[0] in TEXT:
        return texts(c.args[0])
    return set()


def text_eval(c, x, w):
    if c is x:
        return w
    if c.op in ('str', 'num'):
        return c.args[0]
    if c.op == 'm' and c.args[0] in TEXT:
        return getattr(text_eval(c.args[1], x, w), c.args[0])(*[a.args[0] for a in c.args[2:]])
    if c.op == 'truthy':
        return bool(text_eval(c.args[0], x, w))
    if c.op == 'eq':
        return text_eval(c.args[0], x, w) == text_eval(c.args[1], x, w)
    if c.op == 'in':
        return text_eval(c.args[0], x, w) in text_eval(c.args[1], x, w)
    raise ValueError(c.op)


def parts(t):
    r = _parts.get(t)
    if r is None:
        r = _parts[t] = frozenset(subterms(t))
    return r


_parts = {}


def unresolved(impl, spec, sn, vocab, allowed):
    """why a difference of the two does not count (None: it does)"""
    sb = set(blockers(spec, allowed))
    d = diff(impl, spec)
    if not dropped(impl, spec, allowed) and any(soft(x) != soft(y) and not definite(x, y) for x, y in d):
        return 'an update is written in another form'
    bl = [x for x in blockers(impl, allowed) if x not in sb]
    if sb:
        # only differing parts that are themselves resolved count
        if any(open_blockers(x, y, allowed) or open_blockers(y, x, allowed) for x, y in d):
            return 'differing parts contain unresolved constructs'
    if bl:
        return 'not lifted completely: ' + ', '.join(bl[:6])
    unknown = [n for n in names(impl) if n not in sn and not known(n, vocab)]
    unknown = [n for n in unknown if n not in loose_tests(impl, spec)]
    if unknown:
        return 'vocabulary outside the specification: ' + ', '.join('%s %s' % n for n in sorted(unknown)[:6])
    return None


def loose_tests(impl, spec):
    """part-of-text tests in place of the reference's test for the same text"""
    out = set()
    want = [names(x) for x in parts(spec) if x.op == 'eq' and not any(K.is_const(a) for a in x.args)]
    lens = [x.args[0] for x in parts(impl) if x.op == 'len']
    for n in ('startswith', 'endswith'):
        ts = [x for x in parts(impl) if x.op == 'm' and x.args[0] == n]
        if ts and all(len(x.args) == 3 and not K.is_const(x.args[2]) and names(x.args[1]) | names(x.args[2]) in want
                      and x.args[1] not in lens and x.args[2] not in lens for x in ts):
            out.add(('call', n))
    return out


def dropped(impl, spec, allowed):
    """one side accumulates something the other, completely resolved, does not depend on at all"""
    for x, y in ((impl, spec), (spec, impl)):
        if blockers(x, allowed) or open_blockers(y, spec, allowed):
            continue
        here = names(x)
        for u in parts(y):
            if u.op == 'augs' and u.args[1].op == 'sum' and not blockers(u, allowed):
                if any(n[0] == 'attr' and n not in here for n in names(u.args[1])):
                    return True
    return False


def known(n, vocab):
    kind, name = n
    if kind == 'attr':
        return name in vocab['attrs']
    if kind == 'call':
        if str(name).startswith('mpi4py.MPI.COMM_WORLD.'):
            return True
        return name in vocab['methods'] or name in vocab['functions'] or name in KNOWN_CALLS
    if kind == 'var':
        return name in ('self', '@key') or (name[0] == 'p' and name[1:].isdigit()) or name.startswith('kw_') or name in ('*args', '**kwargs')
    if kind in ('k',):
        return True
    if kind == 'ext' and name in ('list', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'bool'):
        return True
    if kind == 'class' or kind == 'fn':
        return True
    return False


KNOWN_CALLS = {'index', 'format', 'split', 'strip', 'group', 'search', 'findall', 'getattr', 'round', 'os.path.exists', 'write', 'setattr', 'create', 'zip*'}


def show_diff(diffs, n=3):
    return ' | '.join('found %s, expected %s' % (K.show(a, 6)[:300], K.show(b, 6)[:300]) for a, b in diffs[:n])
