"""Decides equivalence of two regular expressions including their capture structure.

The pattern is parsed (not run) and turned into a finite automaton over disjoint character classes in
which entering and leaving capture group k are extra symbols.  Two patterns are interchangeable when the
automata accept the same bracketed language and agree on greediness."""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:                                  # pragma: no cover
    import sre_parse
    import sre_constants as sc

# representative characters: every ASCII character plus one that is neither digit nor letter (species names,
# equations and times are written in ASCII, so [0-9] and \d are interchangeable here)
CHARS = [chr(i) for i in range(128)] + ['\u2192']
MAXN = 4


class Unsupported(Exception):
    pass


def char_set(op, av, flags):
    ic = flags & re.IGNORECASE
    out = set()
    if op is sc.LITERAL:
        out = {c for c in CHARS if ord(c) == av or (ic and c.lower() == chr(av).lower())}
        if not out:
            raise Unsupported('literal %r' % av)
    elif op is sc.NOT_LITERAL:
        out = {c for c in CHARS if ord(c) != av}
    elif op is sc.ANY:
        out = set(CHARS) - (set() if flags & re.DOTALL else {'\n'})
    elif op is sc.IN:
        neg = False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                out |= {c for c in CHARS if ord(c) == a or (ic and c.lower() == chr(a).lower())}
            elif o is sc.RANGE:
                out |= {c for c in CHARS if a[0] <= ord(c) <= a[1] or (ic and (a[0] <= ord(c.lower()) <= a[1] or a[0] <= ord(c.upper()) <= a[1]))}
            elif o is sc.CATEGORY:
                pat = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
                       sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[a]
                rx = re.compile(pat)
                out |= {c for c in CHARS if rx.match(c)}
            else:
                raise Unsupported(str(o))
        if neg:
            out = set(CHARS) - out
    else:
        raise Unsupported(str(op))
    return frozenset(out)


class NFA(object):
    def __init__(self):
        self.n = 0
        self.eps = []
        self.tr = []

    def state(self):
        self.n += 1
        self.eps.append([])
        self.tr.append([])
        return self.n - 1


def build(pattern, flags=0):
    tree = sre_parse.parse(pattern, flags)
    flags = tree.state.flags
    nfa = NFA()
    lazy = []

    def seq(items, start):
        cur = start
        for op, av in items:
            cur = item(op, av, cur)
        return cur

    def item(op, av, s):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            e = nfa.state()
            nfa.tr[s].append((char_set(op, av, flags), e))
            return e
        if op is sc.SUBPATTERN:
            gid, addf, delf, p = av
            if gid is None:
                return seq(p, s)
            a = nfa.state()
            nfa.tr[s].append((('open', gid), a))
            b = seq(p, a)
            e = nfa.state()
            nfa.tr[b].append((('close', gid), e))
            return e
        if op is sc.BRANCH:
            e = nfa.state()
            for p in av[1]:
                x = nfa.state()
                nfa.eps[s].append(x)
                nfa.eps[seq(p, x)].append(e)
            return e
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            if op is sc.MIN_REPEAT:
                lazy.append(str(p))
            cur = s
            if lo > 30 or (hi is not sc.MAXREPEAT and hi > 60):
                raise Unsupported('repeat')
            for _ in range(lo):
                cur = seq(p, cur)
            if hi is sc.MAXREPEAT:
                loop = nfa.state()
                nfa.eps[cur].append(loop)
                b = seq(p, loop)
                nfa.eps[b].append(loop)
                e = nfa.state()
                nfa.eps[loop].append(e)
                return e
            e = nfa.state()
            nfa.eps[cur].append(e)
            for _ in range(hi - lo):
                cur = seq(p, cur)
                nfa.eps[cur].append(e)
            return e
        if op is sc.AT:
            e = nfa.state()
            nfa.tr[s].append((('at', str(av)), e))
            return e
        raise Unsupported(str(op))
    s0 = nfa.state()
    end = seq(tree, s0)
    return nfa, s0, end, tuple(sorted(lazy)), dict(tree.state.groupdict)


def closure(nfa, ss):
    todo, seen = list(ss), set(ss)
    while todo:
        x = todo.pop()
        for y in nfa.eps[x]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return frozenset(seen)


def step(nfa, ss, sym):
    out = set()
    for s in ss:
        for lab, e in nfa.tr[s]:
            if lab == sym or (isinstance(lab, frozenset) and isinstance(sym, str) and sym in lab):
                out.add(e)
    return closure(nfa, out)


def equivalent(p, q, fp=0, fq=0):
    a, sa, ea, la, ga = build(p, fp)
    b, sb, eb, lb, gb = build(q, fq)
    if la != lb:
        return False
    syms = set(CHARS)
    for n in (a, b):
        for t in n.tr:
            for lab, _ in t:
                if not isinstance(lab, frozenset):
                    syms.add(lab)
    # group characters into classes
    labs = [lab for n in (a, b) for t in n.tr for lab, _ in t if isinstance(lab, frozenset)]
    reps = {}
    for c in CHARS:
        reps.setdefault(tuple(c in l for l in labs), c)
    syms = list(reps.values()) + [s for s in syms if not isinstance(s, str)]
    start = (closure(a, [sa]), closure(b, [sb]))
    todo, seen = [start], {start}
    while todo:
        x, y = todo.pop()
        if (ea in x) != (eb in y):
            return False
        for s in syms:
            nx = (step(a, x, s), step(b, y, s))
            if nx not in seen:
                if len(seen) > 20000:
                    raise Unsupported('size')
                seen.add(nx)
                todo.append(nx)
    return True


_registry = []


def canonical(pattern, flags=0):
    """a representative pattern of the same bracketed language"""
    for p, f in _registry:
        if (p, f) == (pattern, flags):
            return p
    for p, f in _registry:
        try:
            if equivalent(p, pattern, f, flags):
                _registry.append((pattern, flags)) if False else None
                return p
        except (Unsupported, re.error):
            continue
    _registry.append((pattern, flags))
    return pattern


def group_number(pattern, name):
    try:
        return dict(sre_parse.parse(pattern).state.groupdict).get(name)
    except re.error:
        return None


if __name__ == '__main__':
    print(equivalent(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))', r'(?P<n>\d*)(([\w*-]*)_(\d*)([A-Za-z*]+))'),
          equivalent(r'(\d*)', r'(\d?)'), equivalent(r'[^<>]*(?:a|b)', r'[^\<\>]*[ab]'))
