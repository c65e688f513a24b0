"""Lifts Python source to value-flow summaries (terms).

The source is never executed: statements are interpreted over symbolic *terms* whose normal form
(engine.terms) makes equality of summaries a pointer comparison.  Branches are joined by decision
diagrams, so no paths are enumerated; loops are summarised once by classifying how each
loop-carried variable changes (sum, product, append, flag, first/last match, accumulation, ...).
Whatever does not fit is kept as an opaque 'fold'/'while'/'opaque' node, which makes the comparison
undecided rather than wrong.
"""
import ast
import itertools
import re
from fractions import Fraction

from . import terms as K
from .terms import (T, raw, mk, const, num, TRUE, FALSE, NONE, ZERO, ONE, UNDEF, EMPTY, add, sub, mul, div, neg,
                    power, exp, log, eq, lt0, truth, cond, land, lor, lnot, one, mk_cat, mk_for, index, length, subst,
                    fresh, depends, lift, contains, isnone)
from . import symbolic as SYM
from .repo import Class, Func, Module, Missing, dotted


class Leaf(object):
    __slots__ = ('kind', 'val', 'st')

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st


class Node(object):
    __slots__ = ('c', 't', 'f')

    def __init__(self, c, t, f):
        self.c, self.t, self.f = c, t, f


def leaves(t):
    if isinstance(t, Leaf):
        yield t
    else:
        for x in leaves(t.t):
            yield x
        for x in leaves(t.f):
            yield x


def maptree(t, f):
    if isinstance(t, Leaf):
        return f(t)
    return node(t.c, maptree(t.t, f), maptree(t.f, f))


def node(c, t, f):
    if c is TRUE:
        return t
    if c is FALSE:
        return f
    if t is f:
        return t
    return Node(c, t, f)


def treecond(t, pred):
    if isinstance(t, Leaf):
        return TRUE if pred(t) else FALSE
    return cond(t.c, treecond(t.t, pred), treecond(t.f, pred))


class St(object):
    __slots__ = ('env', 'heap', 'pend')

    def __init__(self, env=None, heap=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pend = []

    def copy(self):
        s = St(dict(self.env), dict(self.heap))
        s.pend = self.pend
        return s


def merge_states(tree, kinds=('fall',)):
    """one state for all leaves of these kinds (the other leaves do not matter)"""
    if isinstance(tree, Leaf):
        return tree.st if tree.kind in kinds else None
    a, b = merge_states(tree.t, kinds), merge_states(tree.f, kinds)
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    r = St()
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
        r.env[k] = x if x is y else cond(tree.c, x, y)
    for k in set(a.heap) | set(b.heap):
        d = UNDEF if k.op == 'loc' else EMPTY if k.op == 'trace' else k
        x, y = a.heap.get(k, d), b.heap.get(k, d)
        r.heap[k] = x if x is y else cond(tree.c, x, y)
    return r


class Frame(object):
    def __init__(self, module, cls, self_term, func=None, parent=None):
        self.module, self.cls, self.self_term, self.func, self.parent = module, cls, self_term, func, parent
        self.globals = set()


FRESH = {'for', 'cat', 'one', 'dict', 'set'}


def known_keys(d):
    """[(name, value)] of a dictionary all of whose keys are known names"""
    if d.op != 'dict':
        return None
    out = []
    for p in dparts(d):
        if p.op != 'one' or p.args[0].args[0].op != 'str':
            return None
        out.append((p.args[0].args[0].args[0], p.args[0].args[1]))
    return out


def fresh_value(v):
    if v.op == 'ite':
        return fresh_value(v.args[1]) and fresh_value(v.args[2])
    return v.op in FRESH and not K.is_str(v)


BUILT = ('for', 'cat', 'one', 'acc', 'dict', 'upd', 'aug', 'augs', 'groups', 'gaug')
MUTATORS = {'append', 'extend', 'insert', 'update', 'sort', 'reverse', 'add', 'setdefault', 'pop', 'remove', 'clear',
            'discard', 'popitem', 'appendleft', '@delslice'}
TRANSPARENT = {'mpf', '_mpf', 'asarray', 'array', 'matrix', 'deepcopy', 'copy', 'float', 'float64', 'ascontiguousarray', 'squeeze', 'mpc'}
LOGNAMES = ('logger', '__logger', '_logger', 'logging')
TRACE = raw('trace')


class Config(object):
    def __init__(self, **kw):
        self.opaque = set()        # method / function names never inlined
        self.inline = set()        # names of pristine methods inlined on any receiver
        self.construct = set()     # classes whose instances are followed
        self.effects = set()       # opaque calls recorded in the trace, in order
        self.vocab = frozenset()   # names existing on the pristine tree (new helpers are inlined)
        self.attrs = {}            # attribute name -> python source of its definition
        self.rewrite = None        # callable(T) -> T or None, applied to new access terms
        self.depth = 14
        self.funcs_opaque = False
        self.typed = {}
        self.initattrs = False     # follow attributes with a single assignment
        self.domain = None
        self.raise_state = False   # keep the state in which an inlined function raises
        self.objects = {}          # terms known to be instances of a class
        self.watch = set()         # attributes whose reads are recorded in the trace
        self.watch_store = set()   # attributes whose assignments are recorded in the trace
        self.own_names = frozenset()   # parameters that the reference takes from its keywords
        self.contracts = {}        # function name -> reference function standing for it (it has an obligation of its own)
        for k, v in kw.items():
            setattr(self, k, v)


MARK = '\ue000'
ENDS = {'any': (True, 'False'), 'all': (False, 'True')}


class BadText(Exception):
    pass


def sum_chunks(text):
    """'a + b - c' -> [(1, a), (1, b), (-1, c)], where the signs stand outside brackets and quotes"""
    out, cur, sign = [], [], 1
    depth, quote = 0, None
    for p in text.args:
        if p.op != 'str':
            cur.append(p)
            continue
        s, start, i = p.args[0], 0, 0
        while i < len(s):
            ch = s[i]
            if quote:
                if ch == quote:
                    quote = None
            elif ch in '\'"':
                quote = ch
            elif ch in '([{':
                depth += 1
            elif ch in ')]}':
                depth -= 1
            elif depth == 0 and s[i:i + 3] in (' + ', ' - '):
                left = cur + [const(s[start:i])]
                t = K.mk_scat(left)
                if t.op == 'str' and not t.args[0].strip() or s[:i].rstrip()[-1:] in ('*', '/', '+', '-', '='):
                    return None
                out.append((sign, t))
                sign = 1 if s[i + 1] == '+' else -1
                cur, start = [], i + 3
                i += 2
            i += 1
        cur.append(const(s[start:]))
    if not out or depth or quote:
        return None
    t = K.mk_scat(cur)
    if t.op == 'str' and not t.args[0].strip():
        return None
    out.append((sign, t))
    return out


def text_of(e):
    return e


def leaf_terms_s(t):
    out = []
    K.lift_str(lambda x: out.append(x) or K.TRUE, t)
    return out


def text_head(t):
    p = K.sparts(t)
    if not p or p[0].op != 'str' or not p[0].args[0].strip():
        return ''
    h = p[0].args[0].strip()
    return h[:1] if h[:2] != '**' else '**'


class Interp(object):
    def __init__(self, repo, cfg):
        self.repo, self.cfg = repo, cfg
        self.closures = {}
        self.deep = set()         # locations of deep copies
        self.outside = {}
        self.objclass = {}
        for t, n in cfg.objects.items():
            self.objclass[t] = repo.cls(n)
        self.objnew = {}
        self.depth = 0
        self.nhole = 0
        self.textmemo = {}
        self.attrdefs = {}
        self.defining = ()
        self.stack = []
        self.concrete = set()
        self.unresolved = {}      # term -> reason
        self.inlined = set()
        self.origin = {}
        self.lines = 0
        self.undecorated, self.rawfns = set(), {}
        self.loops = {}
        self.lost = []            # stores into elements that are not followed
        self.lcinit = {}          # loop-carried variable: value before the loop

    # ------------------------------------------------------------------ entry points
    def run_func(self, func, args=None, self_class=None, self_term=None, st=None):
        """-> (tree, state0); parameters are bound to variables named like them unless given"""
        st = st or St()
        if self_class is not None and self_class is not func.cls:
            self.concrete.add(self_term or raw('var', 'self'))
        self_class = self_class or func.cls
        is_static = 'staticmethod' in func.decorators
        self_term = self_term or raw('var', 'self')
        if func.cls and not is_static:
            self.objclass[self_term] = self_class
        frame = Frame(func.module, func.cls, self_term, func)
        env = {}
        a = func.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args or [])
        for i, p in enumerate(params):
            if i == 0 and func.cls and not is_static:
                env[p] = self_term
            else:
                j = i - (1 if func.cls and not is_static else 0)
                env[p] = vals[j] if j < len(vals) and vals[j] is not None else raw('var', 'p%d' % j)
        for x in a.kwonlyargs:
            env[x.arg] = raw('var', 'kw_' + x.arg)
        if a.vararg:
            env[a.vararg.arg] = raw('var', '*args')
        if a.kwarg:
            env[a.kwarg.arg] = raw('var', '**kwargs')
        st2 = St(env, dict(st.heap))
        if a.kwarg and self.cfg.own_names:
            # arguments the reference takes from its keywords, named here
            kws = env[a.kwarg.arg]
            given = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
            given.update((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
            for n in sorted(set(given) & set(self.cfg.own_names)):
                k = const(n)
                env[n] = st2.env[n] = cond(contains(k, kws), upd_index(kws, k), self.ev(given[n], St({}, {}), frame))
                st2.heap[raw('var', '**kwargs')] = K.minus_key(st2.heap.get(raw('var', '**kwargs'), kws), k)
        self.inlined.add(func.where)
        deco = self.wrappers(func)
        if deco and not a.vararg and not a.kwarg and not a.kwonlyargs:
            st2.env['__wrapped__'] = self.wrapped(func, deco, st2, frame)
            call = ast.parse('def %s():\n return __wrapped__(%s)' % (func.name, ', '.join(params))).body[0]
            ast.copy_location(call, func.node)
            return self.exec_body(ast.fix_missing_locations(call), st2, frame)
        self.stack.append(func.node)
        try:
            tree = self.exec_body(func.node, st2, frame)
        finally:
            self.stack.pop()
        return tree

    def wrappers(self, f):
        """the decorators that are functions of the analysed tree"""
        if f.node in self.undecorated:
            return []
        out = []
        for d in f.node.decorator_list:
            if isinstance(d, ast.Name):
                own = f.cls.methods.get(d.id) if f.cls is not None else None
                if own is not None and own.node in f.cls.node.body and own.node.lineno < f.node.lineno:
                    out.append(Func(own.node, f.module, None))      # a function of the class body, used while the class is made
                    continue
                r = self.repo.lookup(f.module, d.id)
                if isinstance(r, Func):
                    out.append(r)
        return out

    def wrapped(self, f, deco, st, fr):
        self.rawfns[len(self.rawfns)] = f
        t = raw('rawfn', len(self.rawfns) - 1)
        for d in reversed(deco):
            t = self.call_func(d, None, [t], {}, st, fr)
        return t

    def exec_body(self, fnode, st, frame):
        gen = is_generator(fnode)
        if gen:
            st.env['@yield'] = EMPTY
        tree = self.block(fnode.body, st, frame)

        def fin(l):
            if gen and l.kind in ('fall', 'ret'):
                return Leaf('ret', l.st.env['@yield'], l.st)
            if l.kind == 'fall':
                return Leaf('ret', NONE, l.st)
            return l
        return maptree(tree, fin)

    def outcome(self, tree):
        """decision diagram with leaves ret(v) / raise(type)"""
        if isinstance(tree, Leaf):
            if tree.kind == 'raise':
                return raw('raise', tree.val)
            return lift(lambda v: raw('ret', v), [self.clean(self.D(tree.val, tree.st))])
        return cond(tree.c, self.outcome(tree.t), self.outcome(tree.f))

    def clean(self, t):
        """objects that were followed appear in results as the constructor call"""
        for _ in range(6):
            if not self.objnew:
                break
            u = subst(t, self.objnew)
            if u is t:
                break
            t = u
        return t

    def final_heap(self, tree, kinds=('ret',)):
        st = merge_states(tree, kinds)
        out = {}
        if st is None:
            return out
        for k, v in st.heap.items():
            if k.op == 'loc':
                continue
            if not self.is_external(k):
                continue
            v = self.clean(self.D(v, st))
            if v is not k:
                out[k] = v
        return out

    def is_external(self, k):
        while k.op in ('attr', 'idx'):
            k = k.args[0] if k.op == 'attr' else k.args[0]
        return k.op not in ('loc', 'obj')

    # ------------------------------------------------------------------ heap
    def new(self, st, content):
        l = fresh('loc')
        st.heap[l] = content
        return l

    def D(self, t, st):
        """dereference: replace locations by their contents"""
        if type(t) is not T:
            return t
        memo = {}
        has = any(k.op == 'loc' for k in st.heap)
        if not has:
            return t

        locs = {k.args[-1]: k for k in st.heap if k.op == 'loc'}

        def go(x, depth=0):
            if depth > 60:
                return x
            if not any(i in locs for i in x.fv):
                return x
            if x in memo:
                return memo[x]
            if x.op == 'loc':
                r = go(st.heap[x], depth + 1)
            else:
                m = {locs[i]: go(st.heap[locs[i]], depth + 1) for i in x.fv if i in locs}
                r = subst(x, m)
            memo[x] = r
            return r
        return go(t)

    def content(self, t, st):
        while t.op == 'loc' and t in st.heap:
            t = st.heap[t]
        return t

    def ev(self, e, st, fr):
        v = self._ev(e, st, fr)
        if v.uid not in self.origin and hasattr(e, 'lineno'):
            self.origin[v.uid] = (fr.module.rel, e.lineno)
        return v

    def val(self, e, st, fr):
        return self.D(self.ev(e, st, fr), st)

    def opaque(self, why, *args):
        r = raw('opaque', why, *args)
        return r

    # ------------------------------------------------------------------ expressions
    def _ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.opaque('expr:' + type(e).__name__, const(ast.dump(e)[:200]))
        v = m(e, st, fr)
        if isinstance(e, (ast.ListComp, ast.DictComp, ast.SetComp, ast.BinOp)) and fresh_value(v):
            return self.new(st, v)
        return v

    def e_Constant(self, e, st, fr):
        if isinstance(e.value, str) and MARK in e.value:
            ps = []
            for x in e.value.split(MARK):
                if x.startswith('#') and raw('hole', x) in st.env.get('@holes', {}):
                    ps.append(st.env['@holes'][raw('hole', x)])
                else:
                    ps.append(const(x))
            return K.mk_scat(ps)
        return const(e.value)

    # -- program text built by the code itself (exec / eval of string templates)
    def exec_text(self, d, text, args, A, st, fr):
        names = getattr(self.cfg.domain, 'evaluated', ())
        if names and d == 'eval' and len(A) == 1 and text.op in ('m', 'call'):
            return raw('evaluated', text, *[self.D(self.e_Name(ast.Name(n, ast.Load()), st, fr), st) for n in names])
        if any(a.op != 'scope' for a in A[1:]) or not K.is_str(text):
            return None
        try:
            if d == 'eval':
                return self.text_value(text, st, fr)
            return self.text_exec(text, st, fr)
        except SyntaxError:
            return raw('unparsable', text) if getattr(self.cfg.domain, 'folds', False) else None
        except BadText:
            return None

    def text_exec(self, text, st, fr):
        if text.op == 'join' and text.args[0] is const('\n'):
            tree = ast.parse('for @x in @seq:\n    exec(@x)\n'.replace('@x', '__x__').replace('@seq', '__seq__')).body
            st.env['__seq__'] = text.args[1]
            t = self.block(tree, self.cp(st), fr)
            m = merge_states(t)
            if m is None or not isinstance(t, Leaf):
                raise BadText('control flow')
            st.env.clear()
            st.env.update(m.env)
            st.heap.clear()
            st.heap.update(m.heap)
            return NONE
        if text.op == 'ite':
            raise BadText('alternatives')
        parts = K.sparts(text)
        left = []
        for i, p in enumerate(parts):
            if p.op == 'str' and ' = ' in p.args[0]:
                a, b = p.args[0].split(' = ', 1)
                left.append(const(a))
                val = self.text_value(K.mk_scat([const(b)] + parts[i + 1:]), st, fr)
                holes = {}
                src = self.text_source(K.mk_scat(left), holes, st, fr)
                tree = ast.parse(src + ' = __val__').body
                env0 = dict(st.env)
                st.env.update(holes)
                st.env['__val__'] = val
                for x in tree:
                    t = self.stmt(x, st, fr)
                    if not isinstance(t, Leaf) or t.kind != 'fall':
                        raise BadText('control flow')
                return NONE
            left.append(p)
        raise BadText('statement')

    def text_value(self, text, st, fr):
        if text.op == 'ite':
            c, a, b = text.args
            if c.op == 'truthy' and c.args[0] is a and a.op == 'join' and b.op == 'str' and b.args[0].strip() in ('0', '0.0', '0.'):
                return self.text_value(a, st, fr)
            return cond(text.args[0], self.text_value(text.args[1], st, fr), self.text_value(text.args[2], st, fr))
        if text.op == 'scat':
            chunks = sum_chunks(text)
            if chunks is not None:
                total = None
                for sign, chunk in chunks:
                    x = self.text_value(chunk, st, fr)
                    if sign < 0:
                        self.no_sum(chunk, st, fr)
                        x = neg(x)
                    total = x if total is None else lift(add, [total, x])
                return total
            for i, p in enumerate(text.args):
                if p.op == 'ite':
                    return K.lift_str(lambda t: self.text_value(t, st, fr), text)
        key = (text, id(fr))
        if key in self.textmemo and self.textmemo[key][0] is fr and self.textmemo[key][1] == st.env and self.textmemo[key][2] == st.heap:
            return self.textmemo[key][3]
        v = self.text_parsed(text, st, fr)
        self.textmemo[key] = (fr, dict(st.env), dict(st.heap), v)
        return v

    def text_parsed(self, text, st, fr):
        holes = {}
        src = self.text_source(text, holes, st, fr)
        tree = ast.parse(src.strip(), mode='eval').body
        s2 = self.cp(st)
        s2.env.update(holes)
        s2.env['@holes'] = dict(s2.env.get('@holes', {}))
        s2.env['@holes'].update({k: v for k, v in holes.items() if type(k) is T})
        return self.D(self.ev(tree, s2, fr), s2)

    def text_source(self, text, holes, st, fr):
        out = ''
        quote = None
        parts = K.sparts(text)
        for i, p in enumerate(parts):
            if p.op == 'str':
                for ch in p.args[0]:
                    if quote is None and ch in '\'"':
                        quote = ch
                    elif quote == ch:
                        quote = None
                out += p.args[0]
                continue
            self.nhole += 1
            if quote is not None:
                h = '#%d' % self.nhole
                holes[raw('hole', h)] = p
                out += MARK + h + MARK
                continue
            name = '__h%d__' % self.nhole
            nxt = parts[i + 1].args[0] if i + 1 < len(parts) and parts[i + 1].op == 'str' else ''
            if p.op != 'sfor' and out and (out[-1].isalnum() or out[-1] in '_.') or nxt and (nxt[0].isalnum() or nxt[0] in '_.(['):
                raise BadText('token boundary')
            if p.op == 'sfor':
                v, (b,) = K.open_binder(p)
                heads = set(text_head(x) for x in leaf_terms_s(b) if x is not const(''))
                if '' in heads and out and (out[-1].isalnum() or out[-1] in '_.'):
                    raise BadText('token boundary')
                if heads == {'*'}:
                    one_ = self.text_value(K.mk_scat([const('1'), b]), st, fr)
                    self.mul_only(K.mk_scat([const('1'), b]), st, fr)
                    if nxt.startswith('**'):
                        raise BadText('power of product')
                    holes[name] = K.mk_prod(p.args[0], v, one_)
                    out += '*' + name
                    continue
                if heads and heads <= {'+', '-'} and out.strip() and out.rstrip()[-1] not in '=+-*/(,[' and (not nxt.strip() or nxt.strip()[0] in '+-)],'):
                    holes[name] = K.mk_sum(p.args[0], v, self.text_value(K.mk_scat([const('0'), b]), st, fr))
                    out += ' + ' + name
                    continue
                raise BadText('loop text')
            if p.op == 'join' and p.args[0].op == 'str' and p.args[0].args[0].strip() in ('+', '-') and p.args[1].op == 'cat' and p.args[1].args[0].op == 'one':
                rest = self.signed(p, st, fr)
                if out.rstrip()[-1:] not in ('', '=', '(', ',', '[') or nxt.strip()[:1] not in ('', '+', '-', ')', ',', ']'):
                    raise BadText('join context')
                holes[name] = rest
                out += name
                continue
            if p.op == 'join':
                sep = p.args[0]
                if sep.op != 'str' or sep.args[0].strip() != '+':
                    raise BadText('join')
                pre = out.rstrip()
                if (pre and pre[-1] not in '=+(,[') or (nxt.strip() and nxt.strip()[0] not in '+-)],'):
                    raise BadText('join context')
                holes[name] = K.sum_seq(K.map_seq(p.args[1], lambda e: self.text_value(text_of(e), st, fr)))
                out += name
                continue
            if K.is_str(p) or (p.op == 'm' and p.args[0] in ('species', 'site', 'species_site', 'formula', 'tostr', 'join')) or p.op == 'call':
                raise BadText('text of unknown structure')
            holes[name] = p
            out += name
        if quote is not None:
            raise BadText('open quote')
        return out

    def signed(self, p, st, fr):
        """a + b + ... or a - b - ..."""
        def each(e):
            t = K.mk_scat([text_of(e)])
            if p.args[0].args[0].strip() == '-':
                self.no_sum(t, st, fr)
            return self.text_value(t, st, fr)
        first = K.mk_scat([p.args[1].args[0].args[0]])
        rest = K.sum_seq(K.map_seq(mk_cat(list(p.args[1].args[1:])), each))
        return (add if p.args[0].args[0].strip() == '+' else sub)(self.text_value(first, st, fr), rest)

    def no_sum(self, text, st, fr):
        def one(t):
            src = self.text_source(t, {}, st, fr)
            tree = ast.parse(src.strip(), mode='eval').body
            if isinstance(tree, ast.BinOp) and isinstance(tree.op, (ast.Add, ast.Sub)) and isinstance(ast.parse('0*' + src.strip(), mode='eval').body.op, (ast.Add, ast.Sub)):
                raise BadText('sum after minus')
            return K.TRUE
        K.lift_str(one, text)

    def mul_only(self, text, st, fr):
        def one(t):
            src = self.text_source(t, {}, st, fr)
            tree = ast.parse(src.strip(), mode='eval').body
            while isinstance(tree, ast.BinOp) and isinstance(tree.op, ast.Mult):
                tree = tree.left
            if not isinstance(tree, ast.Constant):
                raise BadText('not a product')
            return K.TRUE
        K.lift_str(one, text)

    def e_Name(self, e, st, fr):
        n = e.id
        if n in st.env and n not in fr.globals:
            if '@place:' + n in st.env:
                place = self.place(e, st, fr)
                if place is not None:
                    return self.getitem(place[0], place[1], st, fr)
            return st.env[n]
        p = fr.parent
        while p is not None:
            if n in p[0]:
                return p[0][n]
            p = p[1]
        return self.global_name(n, fr.module, st, fr)

    def global_name(self, n, module, st, fr):
        if n in module.classes:
            return raw('class', n)
        if n in module.functions:
            return raw('fn', module.rel + ':' + n)
        if n in module.consts:
            return self.module_const(module, n, st, fr)
        if n in module.imports:
            return self.dotted_name(module.imports[n], st, fr)
        # star imports inside the package
        for k, d in module.imports.items():
            if k == '*':
                pass
        r = self.star_lookup(module, n)
        if r is not None:
            return self.resolved(r, n, st, fr)
        if n in BUILTINS:
            return raw('ext', n)
        outside = self.outside_star(module)
        if len(outside) == 1:
            return raw('ext', outside[0] + '.' + n)
        return raw('name', n)

    def outside_star(self, module):
        if module.rel not in self.outside:
            out = []
            for s in ast.walk(module.tree):
                if isinstance(s, ast.ImportFrom) and not s.level and any(a.name == '*' for a in s.names) and s.module not in self.repo.modules and s.module not in out:
                    out.append(s.module)
            self.outside[module.rel] = out
        return self.outside[module.rel]

    def star_lookup(self, module, n, seen=None):
        return self.repo.star_lookup(module, n, seen)

    def resolved(self, r, n, st, fr):
        if isinstance(r, Class):
            return raw('class', r.name)
        if isinstance(r, Func):
            return raw('fn', r.module.rel + ':' + r.name)
        if isinstance(r, Module):
            return raw('mod', r.name)
        if isinstance(r, tuple) and isinstance(r[0], Module):
            return self.module_const(r[0], r[1], st, fr)
        if isinstance(r, tuple) and r[0] == 'ext':
            return self.ext(r[1])
        return raw('name', n)

    def dotted_name(self, d, st, fr):
        r = self.repo.resolve(d)
        if r is not None:
            return self.resolved(r, d, st, fr)
        if '.' in d:
            base, last = d.rsplit('.', 1)
            b = self.repo.resolve(base)
            if isinstance(b, Module):
                if last in b.imports and last not in b.consts and b.imports[last] != d:
                    return self.dotted_name(b.imports[last], st, fr)
                s = self.star_lookup(b, last)
                if s is not None:
                    return self.resolved(s, last, st, fr)
        return self.ext(d)

    def ext(self, d):
        last = d.rsplit('.', 1)[-1]
        if last == 'pi' and d.split('.')[0] in ('math', 'numpy', 'np', 'scipy', 'mpmath', 'sympy'):
            return K.PI
        if last == 'e' and d.split('.')[0] in ('math', 'numpy', 'scipy', 'mpmath') or d in ('sympy.E', 'sympy.core.numbers.E'):
            return K.EULER
        return raw('ext', d)

    def module_const(self, module, n, st, fr):
        vals = module.consts[n]
        if module.rel.startswith('scaks/database/'):
            return raw('k', n)
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.BinOp, ast.UnaryOp, ast.Lambda, ast.Name, ast.Set)) or \
                    (isinstance(v, ast.Call)):
                if self.depth < self.cfg.depth:
                    self.depth += 1
                    try:
                        s = St()
                        r = self.D(self.ev(v, s, Frame(module, None, None)), s)
                    finally:
                        self.depth -= 1
                    return r
        return raw('k', n)

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        if e.attr in self.cfg.watch and isinstance(e.ctx, ast.Load):
            self.emit(st, raw('ev', 'read ' + e.attr, self.D(b, st)))
        return self.getattr(b, e.attr, st, fr)

    def getattr(self, b, name, st, fr):
        if b.op == 'ite':
            return lift(lambda x: self.getattr(x, name, st, fr) if x.op != 'ite' else raw('attr', x, name), [b])
        if b.op == 'ext':
            return self.ext(b.args[0] + '.' + name)
        if b.op == 'mod':
            m = self.repo.modules[b.args[0]]
            return self.global_name(name, m, st, fr)
        if b.op == 'closure' and name == '__name__' and isinstance(self.closures[b.args[0]][0], ast.FunctionDef):
            return const(self.closures[b.args[0]][0].name)
        t = raw('attr', b, name)
        if t in st.heap:
            return st.heap[t]
        bd = self.D(b, st)
        if bd is not b:
            t2 = raw('attr', bd, name)
            if t2 in st.heap:
                return st.heap[t2]
            t = t2
        if name == '__class__':
            if b in self.concrete and self.class_of(b) is not None:
                return raw('class', self.class_of(b).name)
            return self.rw(raw('typeof', bd))
        if name == '__name__' and b.op == 'class':
            return const(b.args[0])
        if name == 'pi' and b.op == 'attr':
            return K.PI
        if bd.op == 'smat' and name == 'T':
            return SYM.transpose(bd)
        if bd.op == 'smat' and name in ('shape', 'rows', 'cols'):
            return raw('tuple', *bd.args[:2]) if name == 'shape' else bd.args[0 if name == 'rows' else 1]
        cls = self.class_of(b)
        if cls is not None:
            f = self.repo.find_method(cls, name)
            if f is not None:
                if name in self.cfg.opaque:
                    return t
                if any(d in ('Property', 'property', 'cached_property') for d in f.decorators):
                    return self.call_func(f, b, [], {}, st, fr)
                return raw('bound', b, name)
            ca = self.repo.find_attr(cls, name)
            if ca is not None and isinstance(ca[0], (ast.Constant, ast.Tuple, ast.List, ast.Dict)) and name not in self.cfg.opaque:
                s = St()
                return self.D(self.ev(ca[0], s, Frame(ca[1].module, ca[1], None)), s)
            d = self.cfg.attrs.get(name)
            if d is not None:
                return self.spec_expr(d, b, st, fr)
            if self.cfg.initattrs and name not in self.cfg.opaque:
                r = self.attr_def(cls, b, name)
                if r is not None:
                    return r
            e = self.repo.const_attr(cls, name)
            if e is not None and name not in self.cfg.opaque:
                s = St()
                return self.D(self.ev(e[0], s, Frame(e[1].module, e[1], None)), s)
        if name == 'is_master' and t.args[0].op == 'new' and t.args[0].args[0] == 'MPIUtil' and name not in self.cfg.opaque:
            # the definition C27 decides
            return K.eq(raw('attr', t.args[0], 'rank'), ZERO)
        return self.rw(t)

    def attr_def(self, cls, b, name):
        """value of an attribute that only one parameterless method (or the constructor) ever assigns"""
        key = (cls.name, name)
        if key not in self.attrdefs:
            self.attrdefs[key] = None
            f = self.repo.sole_writer(cls, name)
            if f is not None and f.node not in self.stack and f.node not in self.defining:
                me = raw('var', 'self')
                st = St()
                args = [raw('attr', me, '_owner')] if f.name == '__init__' else []
                it = Interp(self.repo, self.cfg)
                it.attrdefs = self.attrdefs
                it.defining = self.defining + (f.node,)
                it.objclass[me] = cls
                it.concrete = set(self.concrete)
                tree = it.run_func(f, args, self_class=cls if cls is not f.cls else None, self_term=me, st=st)
                it.objclass[me] = cls
                h = it.final_heap(tree, ('ret', 'fall'))
                v = h.get(raw('attr', me, name))
                if v is not None and not v.fv:
                    v = K.canon(v)
                    ok = not any(x.op in ('closure', 'bound', 'loc', 'super') or x.op == 'attr' and x.args[0] is me and x.args[1] == name for x in K.subterms(v))
                    if ok:
                        self.attrdefs[key] = v
                        self.inlined.add(f.where)
        v = self.attrdefs[key]
        if v is None:
            return None
        me = raw('var', 'self')
        bd = b
        return v if bd is me else subst(v, {me: bd})

    def rw(self, t):
        return K.rewritten(t)

    def spec_expr(self, src, b, st, fr):
        node_ = ast.parse(src, mode='eval').body
        return self.ev(node_, St({'self': b}, st.heap), Frame(fr.module, fr.cls, b))

    def class_of(self, b):
        if b in self.objclass:
            return self.objclass[b]
        if b.op == 'new' and b.args[0] in self.cfg.construct:
            return self.repo.cls(b.args[0])
        for pat, cname in self.cfg.typed.items():
            if b.op == 'attr' and b.args[1] == pat:
                return self.repo.cls(cname)
        return None

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            r = self.slice(self.D(b, st), e.slice, st, fr)
            full = not (e.slice.lower or e.slice.upper)
            return self.new(st, r) if full and (b.op == 'loc' and is_seq(r) or r.op in ('attr', 'idx') and r is b) else r
        k = self.val(e.slice, st, fr)
        if b.op == 'scope' and b.args[0] == 'locals' and k.op == 'str' and k.args[0] in st.env:
            return st.env[k.args[0]]
        return self.getitem(b, k, st, fr)

    def slice(self, b, s, st, fr):
        lo = self.val(s.lower, st, fr) if s.lower else NONE
        hi = self.val(s.upper, st, fr) if s.upper else NONE
        step = self.val(s.step, st, fr) if s.step else NONE
        if b.op == 'ite':
            return lift(lambda x: self.mkslice(x, lo, hi, step), [b])
        return self.mkslice(b, lo, hi, step)

    def mkslice(self, b, lo, hi, step):
        if b.op == 'tuple':
            b = K.seq_of(b)
        if lo is ZERO:
            lo = NONE
        if lo is NONE and hi is NONE and step is NONE:
            return b
        if lo in (NONE, ZERO) and step in (NONE, ONE) and hi.op == 'len' and hi.args[0] is b:
            return b
        if lo is NONE and hi is NONE and step is num(-1):
            return reverse(b)
        parts = list(b.args) if b.op == 'cat' else [b]
        if step.op == 'num' and b.op in ('cat', 'one') and all(p.op == 'one' for p in parts) and all(x is NONE or x.op == 'num' for x in (lo, hi)):
            return mk_cat(parts[slice(*[None if x is NONE else int(x.args[0]) for x in (lo, hi, step)])])
        if step is NONE and b.op in ('cat', 'one') and all(p.op == 'one' for p in parts):
            a = int(lo.args[0]) if lo.op == 'num' else (None if lo is NONE else 'x')
            z = int(hi.args[0]) if hi.op == 'num' else (None if hi is NONE else 'x')
            if a != 'x' and z != 'x':
                return mk_cat(parts[slice(a, z)])
        if step is NONE and (lo is NONE or (lo.op == 'num' and lo.args[0] > 0)) and \
                (hi is NONE or (hi.op == 'num' and hi.args[0] < 0)) and b.op not in ('str', 'scat'):
            # xs[a:len-b] of an opaque sequence / comprehension
            a = lo if lo is not NONE else ZERO
            z = neg(hi) if hi is not NONE else ZERO
            n = sub(sub(length(b), a), z)
            if b.op == 'for' or b.op not in K.SEQ:
                v = fresh()
                return mk_for(n, v, one(index(b, add(v, a))))
        if step is NONE and lo is NONE and hi.op not in ('num',) and b.op == 'range':
            return raw('range', hi)
        if b.op == 'str' and all(x is NONE or (x.op == 'num') for x in (lo, hi, step)):
            f = lambda x: None if x is NONE else int(x.args[0])
            return const(b.args[0][f(lo):f(hi):f(step)])
        return raw('slice', b, lo, hi, step)

    def getitem(self, b, k, st, fr):
        o = self.own(b, k)
        if o is not None:
            return self.getattr(o[0], o[1], st, fr)
        bc = b
        t = raw('idx', b, k)
        if t in st.heap:
            return st.heap[t]
        if b.op == 'loc':
            c = self.content(b, st)
            if c.op == 'dict':
                r = K.dict_get(c.args[0], k)
                if r is not None:
                    return r
            r = entry(c, k)
            if r is not None and r.op == 'loc':
                return r
            bc = self.D(b, st)
        elif b.op in ('tuple',) or any(True for _ in K.children(b)):
            if b.op != 'tuple':
                bc = self.D(b, st)
        if bc in st.heap:
            bc = st.heap[bc]
            bc = self.D(bc, st)
        t = raw('idx', bc, k) if bc.op != 'ite' and k.op != 'ite' else None
        if t is not None and t in st.heap:
            return st.heap[t]
        r = upd_index(bc, k)
        return self.rw(r) if r.op == 'idx' else r

    def e_BinOp(self, e, st, fr):
        a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
        if isinstance(e.op, ast.Mult) and a.op == 'loc':
            c = self.content(a, st)
            if c.op == 'one' and c.args[0].op == 'loc':
                # one and the same element, many times
                return mk_for(self.D(b, st), fresh(), c)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if op == 'Mod' and (K.is_str(self.D(a, st))):
            return self.percent(self.D(a, st), self.D(b, st))
        a, b = self.D(a, st), self.D(b, st)
        if has_array(a) or has_array(b):
            return lift(lambda x, y: self.elementwise(op, x, y, st), [a, b])
        if 'smat' in (a.op, b.op):
            return SYM.binop(op, a, b)
        if op == 'Add':
            return lift(self.plus, [a, b])
        if op == 'Sub':
            if a.op == 'set' or b.op == 'set':
                return minus(a, b)
            return sub(a, b)
        if op == 'Mult':
            return lift(self.times, [a, b])
        if op == 'Div':
            return div(a, b)
        if op == 'Pow':
            return power(a, b)
        if op == 'FloorDiv':
            return K.floordiv(a, b)
        if op == 'Mod':
            return K.modulo(a, b)
        if op == 'BitOr' and (a.op == 'set' or b.op == 'set'):
            return K.mk_set(mk_cat([set_seq(a), set_seq(b)]))
        if op == 'BitAnd' and (a.op == 'set' or b.op == 'set'):
            return minus(a, b, True)
        if op == 'BitXor' and (a.op == 'set' and b.op == 'set'):
            return K.mk_set(mk_cat([set_seq(minus(a, b)), set_seq(minus(b, a))]))
        return raw('bin', op, a, b)

    # arrays whose number of dimensions is known
    def rank(self, t):
        if t.op == 'nda':
            return self.rank(t.args[0])
        if t.op == 'num':
            return 0
        r = getattr(self.cfg.domain, 'rank', None)
        k = r(t) if r is not None else None
        if k is not None:
            return k
        if t.op in ('one', 'cat', 'for', 'tuple') and t is not EMPTY:
            e = self.rank(index(t, ZERO) if t.op != 'for' else K.open_binder(t)[1][0].args[0] if K.open_binder(t)[1][0].op == 'one' else t.args[0])
            return None if e is None else e + 1
        if r is not None and t.op in ('idx', 'poly', 'abs'):
            return 0
        return None

    def elementwise(self, op, a, b, st):
        if a.op != 'nda' and b.op != 'nda':
            return self.binop(op, a, b, st)
        ra, rb = self.rank(a), self.rank(b)
        x, y = [t.args[0] if t.op == 'nda' else t for t in (a, b)]
        if ra is None or rb is None or max(ra, rb) > 2:
            return raw('bin', op, a, b)

        def go(x, i, y, j):
            if i == 0 and j == 0:
                return self.binop(op, x, y, st)
            if i == j or i > j:
                s, v = K.seq_of(x), fresh('e')
                return mk_for(length(s), v, one(go(index(s, v), i - 1, index(y, v) if i == j else y, j - 1 if i == j else j)))
            s, v = K.seq_of(y), fresh('e')
            return mk_for(length(s), v, one(go(x, i, index(s, v), j - 1)))
        return raw('nda', go(x, ra, y, rb))

    def plus(self, a, b):
        if K.is_str(a) or K.is_str(b) or hint(a) == 'str' or hint(b) == 'str':
            return K.mk_scat([a, b])
        if a.op == 'tuple' and b.op == 'tuple':
            return raw('tuple', *(a.args + b.args))
        if is_seq(a) or is_seq(b):
            a = K.seq_of(a) if a.op == 'tuple' else a
            b = K.seq_of(b) if b.op == 'tuple' else b
            return joined([a, b])
        if a.op == 'slice' and b.op == 'slice' and a.args[0] is b.args[0] and K.DISTINCT is not None and K.DISTINCT(a.args[0]):
            return joined([a, b])
        if a.op in ('attr',) and b.op in ('attr',) and a.args[1].endswith('_names') and b.args[1].endswith('_names'):
            return mk_cat([a, b])
        return add(a, b)

    def times(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op in ('one', 'cat') and not (y.op in ('one', 'cat')):
                v = fresh()
                return mk_for(y, v, x)
            if x.op == 'str':
                v = fresh()
                if y.op == 'num':
                    return const(x.args[0] * max(0, int(y.args[0])))
                return K.mk_sfor(y, v, x)
        return mul(a, b)

    def percent(self, f, a):
        args = list(a.args) if a.op == 'tuple' else [a]
        if f.op != 'str':
            return raw('percent', f, a)
        import re
        parts, pos, i = [], 0, 0
        s = f.args[0]
        for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([sdifgeEGrxX%])', s):
            parts.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group(3) == '%':
                parts.append(const('%'))
                continue
            if m.group(1):
                v = index(a, const(m.group(1)))
            elif i < len(args):
                v = args[i]
                i += 1
            else:
                return raw('percent', f, a)
            parts.append(fmt(v, m.group(2) + m.group(3) if (m.group(2) or m.group(3) not in 'sd') else ''))
        parts.append(const(s[pos:]))
        return lift(lambda *p: K.mk_scat(list(p)), parts) if False else K.mk_scat(parts)

    def e_UnaryOp(self, e, st, fr):
        v = self.val(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return lnot(truth(v))
        if isinstance(e.op, ast.USub):
            return SYM.each(v, neg) if v.op == 'smat' else neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return raw('un', type(e.op).__name__, v)

    def e_BoolOp(self, e, st, fr):
        def go(i, s):
            v = self.val(e.values[i], s, fr)
            if i == len(e.values) - 1:
                return v
            t = truth(v)
            if isinstance(e.op, ast.And):
                return self.branch(t, lambda u: go(i + 1, u), lambda u: v if not K.is_bool(v) else FALSE, s)
            return self.branch(t, lambda u: v if not K.is_bool(v) else TRUE, lambda u: go(i + 1, u), s)
        return go(0, st)

    def branch(self, c, f, g, st):
        """f in the states with c, g in the others; the state gets the effects of both"""
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        s1, s2 = self.cp(st), self.cp(st)
        x, y = f(s1), g(s2)
        for s in (s1, s2):
            if s.pend or any(s.env.get(k) is not v for k, v in st.env.items()) or len(s.env) != len(st.env) or \
                    any(s.heap.get(k) is not v for k, v in st.heap.items()) or any(k.op != 'loc' and k not in st.heap for k in s.heap):
                break
        else:
            st.heap.update(s1.heap)
            st.heap.update(s2.heap)
            return x if x is y else cond(c, x, y)
        ok = Leaf('fall', None, None)
        st.pend = st.pend + [node(c, p, ok) for p in s1.pend] + [node(c, ok, p) for p in s2.pend]
        m = merge_states(Node(c, Leaf('fall', None, s1), Leaf('fall', None, s2)))
        st.env.clear()
        st.env.update(m.env)
        st.heap.clear()
        st.heap.update(m.heap)
        return x if x is y else cond(c, x, y)

    def alternatives(self, t, f, st):
        """f for the alternatives of t, each in the states in which it is the value"""
        if t.op != 'ite':
            return f(t, st)
        return self.branch(t.args[0], lambda s: self.alternatives(t.args[1], f, s), lambda s: self.alternatives(t.args[2], f, s), st)

    def test(self, e, st, fr):
        if isinstance(e, ast.BoolOp):
            def go(i, s):
                c = self.test(e.values[i], s, fr)
                if i == len(e.values) - 1:
                    return c
                if isinstance(e.op, ast.And):
                    return self.branch(c, lambda u: go(i + 1, u), lambda u: FALSE, s)
                return self.branch(c, lambda u: TRUE, lambda u: go(i + 1, u), s)
            return go(0, st)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return lnot(self.test(e.operand, st, fr))
        return truth(self.val(e, st, fr))

    def e_Compare(self, e, st, fr):
        left = self.val(e.left, st, fr)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.val(c, st, fr)
            o = self.own(right, left) if isinstance(op, (ast.In, ast.NotIn)) else None
            if o is not None:
                x = TRUE if raw('attr', *o) in st.heap else self.rw(raw('hasattr', *o))
                r = land(r, lnot(x) if isinstance(op, ast.NotIn) else x)
                left = right
                continue
            r = land(r, self.compare(type(op).__name__, left, right))
            left = right
        return r

    def compare(self, op, a, b):
        if op == 'Eq':
            return eqv(a, b)
        if op == 'NotEq':
            return lnot(eqv(a, b))
        if op == 'Is':
            if b is NONE:
                return isnone(a)
            if a is NONE:
                return isnone(b)
            return eqv(a, b)
        if op == 'IsNot':
            return lnot(self.compare('Is', a, b))
        if op == 'In':
            return contains(a, b)
        if op == 'NotIn':
            return lnot(contains(a, b))
        if K.is_str(a) or K.is_str(b):
            return raw('strcmp', op, a, b)
        if a.op == 'set' or b.op == 'set':
            le, ge = lnot(truth(minus(a, b))), lnot(truth(minus(b, a)))
            return le if op == 'LtE' else ge if op == 'GtE' else land(le, lnot(ge)) if op == 'Lt' else land(ge, lnot(le))
        if op == 'Lt':
            return lt0(sub(a, b))
        if op == 'Gt':
            return lt0(sub(b, a))
        if op == 'LtE':
            return lnot(lt0(sub(b, a)))
        if op == 'GtE':
            return lnot(lt0(sub(a, b)))
        return raw('cmp', op, a, b)

    def e_IfExp(self, e, st, fr):
        c = self.test(e.test, st, fr)
        if c is TRUE or c is FALSE:
            return self.ev(e.body if c is TRUE else e.orelse, st, fr)
        return self.branch(c, lambda s: self.val(e.body, s, fr), lambda s: self.val(e.orelse, s, fr), st)

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.seqlit(e.elts, st, fr)
        return raw('tuple', *[self.ev(x, st, fr) for x in e.elts])

    def seqlit(self, elts, st, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(K.seq_of(self.val(x.value, st, fr)))
            else:
                parts.append(one(self.ev(x, st, fr)))
        return mk_cat(parts)

    def e_List(self, e, st, fr):
        return self.new(st, self.seqlit(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        return self.new(st, K.mk_set(self.seqlit(e.elts, st, fr)))

    def e_Dict(self, e, st, fr):
        c = raw('dict', EMPTY)
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = dict_update(c, self.val(v, st, fr))
            else:
                c = dict_set(c, self.val(k, st, fr), self.ev(v, st, fr))
        return self.new(st, c)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                spec = ''
                if v.format_spec is not None:
                    s = self.val(v.format_spec, st, fr)
                    spec = s.args[0] if s.op == 'str' else '?'
                x = self.val(v.value, st, fr)
                if v.conversion == ord('r'):
                    spec += '!r'
                parts.append(fmt(x, spec))
        return K.mk_scat(parts)

    def e_FormattedValue(self, e, st, fr):
        return fmt(self.val(e.value, st, fr), '')

    def e_Lambda(self, e, st, fr):
        return self.closure(e, st, fr)

    def closure(self, nodee, st, fr):
        n = len(self.closures)
        key = (nodee, fr.module.rel)
        for i, (k, _, _) in self.closures.items():
            if k is nodee:
                # same definition again: refresh its environment
                self.closures[i] = (nodee, st, fr)
                return raw('closure', i)
        self.closures[n] = (nodee, st, fr)
        return raw('closure', n)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.val(e.value, st, fr) if e.value else NONE
        st.env['@yield'] = mk_cat([st.env['@yield'], one(v)])
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = K.seq_of(self.val(e.value, st, fr))
        st.env['@yield'] = mk_cat([st.env['@yield'], v])
        return NONE

    # comprehensions
    def comp(self, gens, leaf, st, fr):
        """sequence of leaf(state) over the generators"""
        env0 = dict(st.env)

        def level(i, s):
            if i == len(gens):
                return one(self.D(leaf(s), s))
            g = gens[i]
            it = self.iter_seq(g.iter, s, fr)

            def body(x):
                s2 = s.copy()
                self.bind(g.target, x, s2, fr)
                c = TRUE
                for t in g.ifs:
                    c = land(c, self.test(t, s2, fr))
                inner = level(i + 1, s2)
                return cond(c, inner, EMPTY)
            return flatmap(it, body)
        return level(0, st.copy())

    def e_ListComp(self, e, st, fr):
        return self.effectful(e, 'list', st, fr) or \
            self.new(st, self.comp(e.generators, lambda s: self.ev(e.elt, s, fr), st, fr))

    def effectful(self, e, kind, st, fr):
        """a comprehension whose parts raise or change something, as the loop it is"""
        found = [False]

        def leaf(s):
            if kind == 'dict':
                r = raw('pair', self.val(e.key, s, fr), self.val(e.value, s, fr))
            else:
                r = self.ev(e.elt, s, fr)
            if len(s.pend) > len(st.pend) or any(s.heap.get(k) is not v for k, v in st.heap.items()) or \
                    any(k.op != 'loc' and k not in st.heap for k in s.heap):
                found[0] = True
            return r
        if not any(isinstance(x, (ast.Call, ast.Attribute)) for x in ast.walk(e)):
            return None
        s0 = st.copy()
        self.comp(e.generators, leaf, s0, fr)
        if not found[0] and len(s0.pend) == len(st.pend):
            return None
        f = self.loops.get((e, kind))
        if f is None:
            name = '_comp'
            res = ast.Name(name, ast.Load())
            if kind == 'dict':
                body = ast.Assign([ast.Subscript(res, e.key, ast.Store())], e.value)
            elif kind in ENDS:
                test = e.elt if kind == 'any' else ast.UnaryOp(ast.Not(), e.elt)
                body = ast.If(test, [ast.Return(ast.Constant(ENDS[kind][0]))], [])
            else:
                body = ast.Expr(ast.Call(ast.Attribute(res, 'append' if kind == 'list' else 'add', ast.Load()), [e.elt], []))
            for g in reversed(e.generators):
                for t in reversed(g.ifs):
                    body = ast.If(t, [body], [])
                body = ast.For(g.target, g.iter, [body], [])
            start = {'set': 'set()', 'dict': 'dict()'}.get(kind, 'list()')
            f = ast.parse('def comprehension():\n _comp = %s\n return _comp' % start).body[0]
            if kind in ENDS:
                f.body[1] = ast.parse('def f():\n return %s' % ENDS[kind][1]).body[0].body[0]
            f.body.insert(1, body)
            ast.fix_missing_locations(ast.copy_location(f, e))
            self.loops[(e, kind)] = f
        return self.call(self.closure(f, st, fr), [], {}, st, fr)

    def mapped(self, f, it, seq, st, fr):
        """map(f, it) whose calls raise or change something, as the loop it is"""
        s0 = st.copy()
        v = fresh()
        self.D(self.call(f, [index(K.seq_of(seq), v)], {}, s0, fr), s0)
        if len(s0.pend) == len(st.pend) and not any(s0.heap.get(k) is not x for k, x in st.heap.items()) and \
                not any(k.op != 'loc' and k not in st.heap for k in s0.heap):
            return None
        loop = ast.parse('def mapping(_map_f, _map_it):\n _comp = list()\n for _x in _map_it:\n  _comp.append(_map_f(_x))\n return _comp').body[0]
        return self.call(self.closure(loop, st, fr), [f, it], {}, st, fr)

    def e_GeneratorExp(self, e, st, fr):
        r = self.effectful(e, 'list', st, fr)
        if r is not None:
            return r
        return self.comp(e.generators, lambda s: self.ev(e.elt, s, fr), st, fr)

    def e_SetComp(self, e, st, fr):
        return self.effectful(e, 'set', st, fr) or \
            self.new(st, K.mk_set(self.comp(e.generators, lambda s: self.ev(e.elt, s, fr), st, fr)))

    def e_DictComp(self, e, st, fr):
        r = self.effectful(e, 'dict', st, fr)
        if r is not None:
            return r
        ps = self.comp(e.generators, lambda s: raw('pair', self.val(e.key, s, fr), self.val(e.value, s, fr)), st, fr)
        return self.new(st, raw('dict', ps))

    def iter_seq(self, e, st, fr):
        v = self.val(e, st, fr)
        return K.seq_of(v)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        f = e.func
        # logging has no semantics here
        d = dotted(f) or ''
        seg = d.split('.')
        if len(seg) > 1 and any(s.strip('_') in ('logger', 'logging') for s in seg[:-1]) and seg[-1] in \
                ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'):
            if seg[-1] in self.cfg.effects and len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred):
                self.emit(st, raw('ev', seg[-1], self.D(self.ev(e.args[0], st, fr), st)))
            return NONE
        if d == 'print' or seg[-1] in ('warn',) and seg[0] == 'warnings':
            return NONE
        if d in ENDS and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords and d not in st.env:
            r = self.effectful(e.args[0], d, st, fr)
            if r is not None:
                return r
        if d == 'super' or (isinstance(f, ast.Name) and f.id == 'super'):
            return raw('super', fr.cls.name if fr.cls else '?', fr.self_term if fr.self_term is not None else NONE)
        if isinstance(f, ast.Attribute):
            place = self.place(f.value, st, fr) if f.attr in MUTATORS and f.attr != 'setdefault' else None
            b = self.ev(f.value, st, fr)
            args, kw = self.args(e, st, fr)
            if place is not None and b.op != 'loc':
                # an element of a container built here: read, change, write back
                cell = self.new(st, b)
                r = self.method(cell, f.attr, args, kw, st, fr, e)
                new = st.heap.pop(cell)
                self.setitem(place[0], place[1], new, st, fr)
                return r
            key = self.attr_cell(f.value, st, fr) if f.attr in MUTATORS else None
            if key is not None and b.op != 'loc':
                cell = self.new(st, st.heap[key])
                r = self.method(cell, f.attr, args, kw, st, fr, e)
                st.heap[key] = st.heap.pop(cell)
                return r
            return self.method(b, f.attr, args, kw, st, fr, e)
        fn = self.ev(f, st, fr)
        args, kw = self.args(e, st, fr)
        return self.call(fn, args, kw, st, fr, e)

    def attr_cell(self, e, st, fr):
        """the attribute whose (changed) content e denotes, when that content is known by value only"""
        if not isinstance(e, ast.Attribute):
            return None
        b = self.D(self.ev(e.value, self.cp(st), fr), st)
        t = raw('attr', b, e.attr)
        if t in st.heap and st.heap[t].op != 'loc':
            return t
        return None

    def place(self, e, st, fr):
        """(container, key) of an expression that denotes an element of a container built here"""
        if isinstance(e, ast.Name) and '@place:' + e.id in st.env:
            p = st.env['@place:' + e.id]
            if p.op != 'tuple':
                return None
            c, k, val = p.args
            return (c, k, TRUE) if st.env.get(e.id) is val else None
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            inner, key = e.value, e.slice
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'setdefault' and len(e.args) == 2:
            inner, key = e.func.value, e.args[0]
        else:
            return None
        if not isinstance(inner, (ast.Name, ast.Attribute)):
            return None
        c = self.ev(inner, self.cp(st), fr)
        if c.op != 'loc' or c not in self.deep and hint(self.D(c, st)) not in ('dict', 'groups') and not self.own_element(c, key, st, fr):
            return None
        if c not in self.deep and hint(self.D(c, st)) not in ('dict', 'groups') or self.own_element(c, key, st, fr):
            return c, self.val(key, self.cp(st), fr), TRUE
        return c, self.val(key, self.cp(st), fr)

    def own_element(self, c, key, st, fr):
        """the element is a container built for this one alone"""
        x = self.D(c, st)
        k = self.val(key, self.cp(st), fr)
        seen = set()
        while x not in seen:
            seen.add(x)
            y = upd_index(x, k)
            while y.op == 'idx' and y.args[0].op in ('upd', 'aug', 'augs', 'gaug'):
                y = upd_index(y.args[0].args[0], y.args[1])
            if y.op in BUILT:
                return True
            lcs = [z for z in K.subterms(y) if z.op == 'lc' and z in self.lcinit]
            if not lcs or y.op not in ('idx', 'lc'):
                return False
            x = subst(x, {z: self.lcinit[z] for z in lcs})
        return False

    def followed(self, place):
        return place is not None and (place[0] in self.deep or len(place) > 2)

    def args(self, e, st, fr):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.val(a.value, st, fr)
                if v.op == 'tuple':
                    args.extend(v.args)
                elif v.op in ('one', 'cat') and all(p.op == 'one' for p in (v.args if v.op == 'cat' else [v])):
                    args.extend(p.args[0] for p in (v.args if v.op == 'cat' else [v]))
                else:
                    args.append(raw('star', v))
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.val(k.value, st, fr)
                if v.op == 'dict' and all(p.op == 'one' for p in dparts(v)):
                    for p in dparts(v):
                        if p.args[0].args[0].op == 'str':
                            kw[p.args[0].args[0].args[0]] = p.args[0].args[1]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = self.ev(k.value, st, fr)
        return args, kw

    def method(self, b, name, args, kw, st, fr, e=None):
        if name == 'get' and args and not kw:
            o = self.own(b, self.D(args[0], st))
            if o is not None:
                return self.ext_call('getattr', [o[0], const(o[1])] + (list(args[1:]) or [NONE]), {}, st, fr, e)
        if name == 'update' and b.op == 'attr' and b.args[1] == '__dict__' and len(args) == 1 and not kw:
            d = self.D(args[0], st)
            ps = (dparts(d) if d.args[0] is not EMPTY else []) if d.op == 'dict' else None
            if ps is not None:
                new = [self.entry(b, p) for p in ps]
                if all(x is not None for x in new):
                    for c, n, v in new:
                        key = raw('attr', b.args[0], n)
                        st.heap[key] = cond(c, v, st.heap.get(key, key))
                    return NONE
        if b.op == 'ite':
            # same method on alternatives
            bs = set(leaf_terms(b))
            if all(x.op in ('closure', 'bound', 'fn') or self.class_of(x) is not None for x in bs):
                return self.alternatives(b, lambda x, s: self.method(x, name, args, kw, s, fr, e), st)
        if b.op == 'super':
            cls = self.class_of(b.args[1])
            cur = self.repo.cls(b.args[0])
            if cls is not None:
                mro = self.repo.mro(cls)
                if cur in mro:
                    for c in mro[mro.index(cur) + 1:]:
                        if name in c.methods:
                            return self.call_func(c.methods[name], b.args[1], args, kw, st, fr)
            return NONE
        if b.op == 'ext':
            return self.ext_call(b.args[0] + '.' + name, args, kw, st, fr, e)
        if b.op == 'mod':
            return self.call(self.getattr(b, name, st, fr), args, kw, st, fr, e)
        if b.op == 'class':
            cls = self.repo.cls(b.args[0])
            f = self.repo.find_method(cls, name)
            if f is not None and name not in self.cfg.opaque:
                if 'staticmethod' in f.decorators:
                    return self.call_func(f, None, args, kw, st, fr)
                if 'classmethod' in f.decorators:
                    return self.call_func(f, b, args, kw, st, fr)
                if args:
                    return self.call_func(f, args[0], args[1:], kw, st, fr)
        # attribute holding a callable (self._mpf and the like)
        t = raw('attr', b, name)
        if t in st.heap:
            h = self.content(st.heap[t], st)
            if h.op in ('closure', 'bound', 'fn', 'ext', 'class'):
                return self.call(h, args, kw, st, fr, e)
        cls = self.class_of(b)
        if cls is not None:
            f = self.repo.find_method(cls, name)
            if f is not None and name not in self.cfg.opaque:
                prop = any(d in ('Property', 'property') for d in f.decorators)
                if prop:
                    return self.call(self.getattr(b, name, st, fr), args, kw, st, fr, e)
                if 'staticmethod' in f.decorators:
                    return self.call_func(f, None, args, kw, st, fr)
                return self.call_func(f, b, args, kw, st, fr)
            dd = self.cfg.attrs.get(name)
            if dd is not None and f is None:
                return self.call(self.spec_expr(dd, b, st, fr), args, kw, st, fr, e)
        # collections
        r = self.coll_method(b, name, args, kw, st, fr, e)
        if r is not None:
            return r
        # methods of other classes of the package
        cands = self.repo.method_index.get(name, [])
        if len(cands) > 1 and self.cfg.domain is not None:
            sc = self.cfg.domain.class_name(b)
            if sc is not None:
                fs = self.repo.find_method(self.repo.cls(sc), name)
                cands = [fs] if fs is not None else cands
        if name in self.cfg.inline or (cands and name not in self.cfg.vocab and name not in self.cfg.opaque):
            if len(cands) == 1:
                f = cands[0]
                if 'staticmethod' in f.decorators:
                    return self.call_func(f, None, args, kw, st, fr)
                if b not in self.objclass:
                    self.objclass[b] = f.cls
                return self.call_func(f, b, args, kw, st, fr)
        return self.opaque_method(b, name, args, kw, st, fr, cands)

    def opaque_method(self, b, name, args, kw, st, fr, cands=()):
        if name == 'diff' and len(args) == 1 and not kw and not cands:
            return self.rw(mk('m', 'doit', mk('call', 'sympy.Derivative', self.D(b, st), self.D(args[0], st))))
        if name in ('exp', 'log', 'sqrt', 'fsum', 'prod', 'mpf', 'matrix', '_mpf', '_math_exp') and b.op in ('attr', 'name', 'var', 'k'):
            r = self.ext_call('mpmath.' + name.lstrip('_'), args, kw, st, fr, None)
            if r.op != 'call':
                return r
        a = self.norm_args(cands, args, kw, st)
        bd = self.D(b, st)
        if cands and all('staticmethod' in f.decorators for f in cands):
            r = self.rw(mk('call', name, *a))
            if name in self.cfg.effects:
                self.emit(st, raw('ev', name, *a))
            return r
        r = self.rw(mk('m', name, bd, *a))
        if name in self.cfg.effects:
            self.emit(st, raw('ev', name, bd, *a))
        if name in getattr(self.cfg.domain, 'allocates', ()) and len(a) > 1:
            return self.new(st, r)
        return r

    def norm_args(self, cands, args, kw, st):
        """positional form of the arguments when the signature is known"""
        sigs = set()
        for f in cands:
            a = f.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if f.cls and 'staticmethod' not in f.decorators:
                ps = ps[1:]
            ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
            if a.vararg or a.kwarg:
                sigs.add(None)
            else:
                sigs.add((tuple(ps), tuple(ast.dump(d) if d is not None else None for d in ds)))
        args = [self.D(x, st) for x in args]
        kw = {k: self.D(v, st) for k, v in kw.items()}
        if cands and 'log' in kw:
            kw['log'] = K.FALSE
        if len(sigs) == 1 and None not in sigs and '**' not in kw and not any(x.op == 'star' for x in args):
            f = cands[0]
            a = f.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if f.cls and 'staticmethod' not in f.decorators:
                ps = ps[1:]
            ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
            out = list(args)
            ok = len(args) <= len(ps) and all(k in ps for k in kw)
            if ok:
                for i in range(len(args), len(ps)):
                    if ps[i] in kw:
                        out.append(kw.pop(ps[i]))
                    elif ds[i] is not None:
                        s = St()
                        out.append(self.D(self.ev(ds[i], s, Frame(f.module, f.cls, None)), s))
                    else:
                        out.append(UNDEF)
                # drop trailing defaults so that f(x) and f(x, None) agree with older signatures
                return out
        return args + [raw('kw', k, kw[k]) for k in sorted(kw)]

    def emit(self, st, ev):
        st.heap[TRACE] = mk_cat([st.heap.get(TRACE, EMPTY), one(ev)])

    def call(self, fn, args, kw, st, fr, e=None):
        if fn.op == 'ite':
            return self.alternatives(fn, lambda f, s: self.call(f, args, kw, s, fr, e), st)
        if fn.op == 'loc':
            fn = self.content(fn, st)
        if fn.op == 'closure':
            return self.call_closure(fn, args, kw, st, fr)
        if fn.op == 'rawfn':
            f = self.rawfns[fn.args[0]]
            own = f.cls is not None and 'staticmethod' not in f.decorators and len(args) > 0
            self.undecorated.add(f.node)
            try:
                return self.call_func(f, args[0] if own else None, args[1:] if own else args, kw, st, fr)
            finally:
                self.undecorated.discard(f.node)
        if fn.op == 'fn':
            name = fn.args[0].split(':')[1]
            f = self.repo.func(fn.args[0])
            if name in self.cfg.opaque or (name in self.cfg.vocab and name not in self.cfg.inline and self.cfg.funcs_opaque):
                r = self.rw(mk('call', name, *self.norm_args([f], args, kw, st)))
                if name in self.cfg.effects:
                    self.emit(st, raw('ev', name, *r.args[1:]))
                return r
            return self.call_func(f, None, args, kw, st, fr)
        if fn.op == 'bound':
            return self.method(fn.args[0], fn.args[1], args, kw, st, fr, e)
        if fn.op == 'class':
            return self.construct(fn.args[0], args, kw, st, fr)
        if fn.op == 'ext':
            if '**' in kw and kw['**'].op == 'ite' and all(known_keys(d) for d in leaf_terms(kw['**'])):
                return lift(lambda d: self.ext_call(fn.args[0], args, dict([(k, v) for k, v in kw.items() if k != '**'] + known_keys(d)), st, fr, e), [kw['**']])
            return self.ext_call(fn.args[0], args, kw, st, fr, e)
        if fn.op == 'attr':
            # calling an attribute value: same shape as a method call
            cls = self.class_of(fn.args[0])
            f = self.repo.find_method(cls, fn.args[1]) if cls is not None else None
            return self.opaque_method(fn.args[0], fn.args[1], args, kw, st, fr, [f] if f is not None else self.repo.method_index.get(fn.args[1], []))
        if fn.op == 'partial':
            return self.call(fn.args[0], list(fn.args[1:]) + args, kw, st, fr, e)
        if fn.op == 'name' and fn.args[0] in self.cfg.opaque:
            return self.rw(raw('call', fn.args[0], *([self.D(a, st) for a in args] + [raw('kw', k, self.D(kw[k], st)) for k in sorted(kw)])))
        if fn.op == 'typeof':
            b = fn.args[0]
            cls = self.class_of(b)
            if cls is not None:
                return self.construct(cls.name, args, kw, st, fr)
        r = raw('callv', self.D(fn, st), *([self.D(a, st) for a in args] + [raw('kw', k, self.D(kw[k], st)) for k in sorted(kw)]))
        return r

    def construct(self, cname, args, kw, st, fr):
        cls = self.repo.cls(cname)
        init = self.repo.find_method(cls, '__init__')
        if is_exception(self.repo, cls):
            return raw('exc', cname)
        base = self.builtin_base(cls)
        if base is not None and init is None and len(args) == 1 and not kw:
            # a container class of its own: a copy of the content
            return self.new(st, self.D(args[0], st))
        if cname in self.cfg.construct:
            key = mk('new', cname, *self.norm_args([init] if init else [], args, kw, st))
            o = raw('obj', cname, K._fresh[0])
            K._fresh[0] += 1
            self.objclass[o] = cls
            self.objnew[o] = key
            if init is not None:
                self.call_func(init, o, args, kw, st, fr)
            return o
        return self.rw(mk('new', cname, *self.norm_args([init] if init else [], args, kw, st)))

    def builtin_base(self, cls):
        for k in self.repo.mro(cls):
            for b in k.node.bases:
                if dotted(b) in ('dict', 'list'):
                    return dotted(b)
        return None

    def call_closure(self, fn, args, kw, st, fr):
        nodee, dst, dfr = self.closures[fn.args[0]]
        outer = st.env if dfr is fr else dst.env
        frame = Frame(dfr.module, dfr.cls, dfr.self_term, dfr.func, (outer, dfr.parent))
        env = self.bind_args(nodee.args, args, kw, st, frame, skip_self=False, dfr=dfr)
        if env is None:
            return self.opaque('call')
        if isinstance(nodee, ast.Lambda):
            s = St(env, st.heap)
            s.pend = st.pend
            return self.D(self.ev(nodee.body, s, frame), s)
        return self.run_inline(nodee, env, st, frame)

    def bind_args(self, a, args, kw, st, frame, skip_self, dfr=None, self_term=None):
        env = {}
        ps = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if self_term is not None:
            vals = [self_term] + vals
        if any(v.op == 'star' for v in vals):
            return None
        for i, p in enumerate(ps):
            if i < len(vals):
                env[p] = vals[i]
            elif p in kw:
                env[p] = kw[p]
            else:
                j = i - (len(ps) - len(a.defaults))
                if j < 0:
                    return None
                s = St({}, st.heap)
                env[p] = self.ev(a.defaults[j], s, frame)
        if a.vararg:
            env[a.vararg.arg] = raw('tuple', *vals[len(ps):])
        elif len(vals) > len(ps):
            return None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw[x.arg]
            elif d is not None:
                env[x.arg] = self.ev(d, St({}, st.heap), frame)
            else:
                return None
        if a.kwarg:
            c = raw('dict', EMPTY)
            for k in sorted(kw):
                if k not in ps and k != '**':
                    c = dict_set(c, const(k), kw[k])
            if '**' in kw and len(kw) == 1:
                c = kw['**']
            env[a.kwarg.arg] = c
        elif '**' in kw:
            return None
        elif any(k not in ps and k not in [x.arg for x in a.kwonlyargs] for k in kw):
            return None
        return env

    def call_func(self, f, self_term, args, kw, st, fr):
        f = self.cfg.contracts.get(f.name, f) if f.module.rel[:5] != 'spec/' else f
        if self.depth >= self.cfg.depth:
            return self.opaque('depth:' + f.qual)
        if f.node in self.stack:
            a = [self.D(x, st) for x in args] + [raw('kw', k, self.D(kw[k], st)) for k in sorted(kw)]
            return self.rw(mk('call', 'rec:' + f.name, *a))
        deco = self.wrappers(f)
        if deco:
            t = self.wrapped(f, deco, st, fr)
            return self.call(t, ([self_term] if self_term is not None else []) + list(args), kw, st, fr)
        frame = Frame(f.module, f.cls, self_term, f)
        env = self.bind_args(f.node.args, args, kw, st, frame, False, self_term=self_term)
        if env is None:
            a = [self.D(x, st) for x in args] + [raw('kw', k, self.D(kw[k], st)) for k in sorted(kw)]
            return raw('badcall', f.qual, *a)
        self.inlined.add(f.where)
        self.stack.append(f.node)
        try:
            return self.run_inline(f.node, env, st, frame)
        finally:
            self.stack.pop()

    def run_inline(self, fnode, env, st, frame):
        self.depth += 1
        try:
            s = St(env, dict(st.heap))
            tree = self.exec_body(fnode, s, frame)
        finally:
            self.depth -= 1
        m = merge_states(tree, ('ret',))
        if m is None:
            # always raises
            ls = list(leaves(tree))
            st.pend = st.pend + [maptree(tree, lambda l: Leaf(l.kind, l.val, self.raised(l, st)))]
            return UNDEF
        st.heap.clear()
        st.heap.update(m.heap)
        if any(l.kind == 'raise' for l in leaves(tree)):
            st.pend = st.pend + [maptree(tree, lambda l: Leaf('raise', l.val, self.raised(l, st)) if l.kind == 'raise' else Leaf('fall', None, None))]

        def value(t):
            if isinstance(t, Leaf):
                return t.val if t.kind == 'ret' else UNDEF
            a, b = value(t.t), value(t.f)
            if a is b:
                return a
            return cond(t.c, a, b)
        v = value(tree)
        if v.op == 'ite' and any(x.op == 'loc' or x.fv for x in leaf_terms(v)):
            v = self.D(v, st)
        return v

    def raised(self, l, st):
        """the caller's state when an inlined function raises"""
        return St(dict(st.env), dict(l.st.heap)) if self.cfg.raise_state and l.st is not None else None

    def demangled(self, name):
        """_Class__name written out is the private __name of the class"""
        if name.startswith('_') and not name.startswith('__') and '__' in name[1:]:
            k, rest = name[1:].split('__', 1)
            if self.repo.cls(k) is not None:
                return '__' + rest
        return name

    def own(self, b, k):
        """b.__dict__[k] for a private name written out: (b, name)"""
        if b.op == 'attr' and b.args[1] == '__dict__' and k.op == 'str' and b not in self.concrete:
            n = self.demangled(k.args[0])
            if n != k.args[0] or self.plain(b.args[0], n):
                return b.args[0], n
        return None

    def entry(self, b, p):
        """(condition, name, value) of an entry of a dictionary of attributes"""
        c = TRUE
        while p.op == 'ite' and (p.args[1] is EMPTY or p.args[2] is EMPTY):
            c = land(c, p.args[0] if p.args[2] is EMPTY else lnot(p.args[0]))
            p = p.args[1] if p.args[2] is EMPTY else p.args[2]
        if p.op != 'one' or p.args[0].op != 'pair':
            return None
        o = self.own(b, p.args[0].args[0])
        return (c, o[1], p.args[0].args[1]) if o is not None else None

    def plain(self, x, n):
        """is n an attribute of the object x alone, which its class does not define"""
        cls = self.class_of(x)
        return cls is not None and not any(n in k.methods or n in k.attrs for k in self.repo.mro(cls))

    # -- external functions
    def ext_call(self, d, args, kw, st, fr, e):
        last = d.rsplit('.', 1)[-1]
        A = [self.D(a, st) for a in args]
        n = len(A)
        raw_args = args
        root = d.split('.')[0]
        if d in ('getattr', 'hasattr', 'setattr') and n >= 2 and A[1].op == 'str':
            A[1] = const(self.demangled(A[1].args[0]))
        if d == 'getattr' and n >= 2 and A[1].op == 'str':
            if n == 3:
                t = raw('attr', A[0], A[1].args[0])
                c = raw('hasattr', A[0], A[1].args[0])
                if args[0] in self.objclass and raw('attr', args[0], A[1].args[0]) in st.heap:
                    return st.heap[raw('attr', args[0], A[1].args[0])]
                return cond(c, self.getattr(args[0], A[1].args[0], st, fr), A[2])
            return self.getattr(args[0], A[1].args[0], st, fr)
        if d == 'getattr':
            return self.rw(raw('dynattr', *A))
        if d == 'setattr' and n == 3:
            if A[1].op == 'str':
                st.heap[raw('attr', args[0], A[1].args[0])] = args[2]
            else:
                self.emit(st, raw('ev', 'setattr', *A))
            return NONE
        if d == 'hasattr' and n == 2 and A[1].op == 'str':
            if raw('attr', args[0], A[1].args[0]) in st.heap:
                return TRUE
            return self.rw(raw('hasattr', A[0], A[1].args[0]))
        if d == 'isinstance' and n == 2:
            return self.isinst(A[0], A[1], st)
        if d == 'callable':
            return raw('callable', *A)
        if d == 'type' and n == 1:
            def kind(x):
                if x.op == 'loc':
                    x = self.content(x, st)
                    if x.op in K.SEQ and x.op != 'tuple':
                        return raw('ext', 'list')
                    if x.op in ('dict', 'set'):
                        return raw('ext', x.op)
                    x = self.D(x, st)
                elif x.op == 'tuple':
                    return raw('ext', 'tuple')
                elif x.op == 'dict':
                    return raw('ext', 'dict')
                return self.rw(raw('typeof', self.D(x, st)))
            return lift(kind, [args[0]])
        if d == 'len' and n == 1:
            return length(A[0])
        if d in ('sum', 'math.fsum', 'mpmath.fsum', 'numpy.sum') and n >= 1 and not kw:
            if A[0].op == 'for' or True:
                s = A[0]
                x = seq_elem(s)
                if x is not None and (is_seq(x)):
                    # sum of lists
                    r = flatmap(K.seq_of(s), lambda y: y)
                    return mk_cat([A[1], r]) if n > 1 else r
            if n > 1 and (is_seq(A[1])):
                return mk_cat([A[1], flatmap(K.seq_of(s), lambda y: y)])
            return K.sum_seq(A[0], A[1] if n > 1 else ZERO)
        if last in ('prod', 'fprod') and n == 1 and root in ('numpy', 'math', 'mpmath'):
            return prod_seq(A[0])
        if d == 'any' and n == 1:
            return K.any_seq(A[0])
        if d == 'all' and n == 1:
            return K.all_seq(A[0])
        if d in ('max', 'min', 'numpy.max', 'numpy.min', 'numpy.maximum', 'numpy.minimum') and not kw:
            op = 'max' if 'max' in d else 'min'
            if n == 1:
                s = K.seq_of(A[0])
                if s.op == 'one' or (s.op == 'cat' and s.args and all(p.op == 'one' for p in s.args)):
                    return K.minmax(op, [p.args[0] for p in (s.args if s.op == 'cat' else [s])])
                return mk(op + 'of', s)
            return K.minmax(op, A)
        if d in ('max', 'min') and n == 1:
            return raw(d + 'of', A[0], *[raw('kw', k, self.D(kw[k], st)) for k in sorted(kw)])
        if d in ('abs', 'numpy.abs', 'math.fabs', 'mpmath.fabs') and n == 1:
            return absv(A[0])
        if last in ('exp', 'log', 'sqrt') and n == 1:
            return {'exp': exp, 'log': log, 'sqrt': lambda x: power(x, num(Fraction(1, 2)))}[last](A[0])
        if d in ('pow', 'math.pow', 'numpy.power', 'operator.pow') and n == 2:
            return power(A[0], A[1])
        if d == 'operator.mul' and n == 2:
            return self.binop('Mult', A[0], A[1], st)
        if d == 'operator.add' and n == 2:
            return self.binop('Add', A[0], A[1], st)
        if d == 'operator.sub' and n == 2:
            return sub(A[0], A[1])
        if d in ('float', 'numpy.float64') and n == 1:
            return A[0] if A[0].op != 'str' else mk('call', 'float', A[0])
        if d == 'int' and n == 1:
            x = A[0]
            if x.op == 'num':
                return num(int(x.args[0]))
            if x.op == 'str' and x.args[0].isdigit() and n == 1:
                return num(int(x.args[0]))
            return lift(lambda y: y if y.op == 'int' else (num(int(y.args[0])) if y.op == 'num' else raw('int', y)), [x])
        if d in ('str', 'unicode') and n == 1:
            return K.mk_scat([A[0]])
        if d == 'repr' and n == 1:
            return fmt(A[0], '!r')
        if d == 'bool' and n == 1:
            return truth(A[0])
        if d in ('list', 'tuple') and n <= 1:
            if n == 0:
                return self.new(st, EMPTY) if d == 'list' else EMPTY
            s = A[0]
            if s.op in ('tuple', 'dict', 'str', 'range', 'smat'):
                s = K.seq_of(s)
            elif s.op == 'set':
                s = raw('unordered', s)
            if d == 'tuple' and (s.op == 'one' or s.op == 'cat' and s.args and all(x.op == 'one' for x in s.args)):
                return raw('tuple', *[x.args[0] for x in (s.args if s.op == 'cat' else [s])])
            return self.new(st, s) if d == 'list' else s
        if d in ('set', 'frozenset') and n <= 1:
            return self.new(st, K.mk_set(K.seq_of(A[0])) if n else raw('set', EMPTY))
        if d in ('dict', 'collections.OrderedDict'):
            c = raw('dict', EMPTY)
            if n == 1:
                s = A[0]
                if s.op == 'dict':
                    c = s
                elif s.op in ('one', 'cat', 'for', 'tuple'):
                    c = raw('dict', K.map_seq(K.seq_of(s), lambda p: raw('pair', index(p, ZERO), index(p, ONE))))
                else:
                    c = raw('dict', K.map_seq(raw('items', s), lambda p: raw('pair', index(p, ZERO), index(p, ONE)))) if False else s
            for k in sorted(kw):
                if k != '**':
                    c = dict_set(c, const(k), kw[k])
            return self.new(st, c)
        if d in ('collections.defaultdict',):
            return self.new(st, raw('acc', raw('dict', EMPTY), ZERO) if n and A[0] is not raw('ext', 'list') else raw('groups', raw('dict', EMPTY), EMPTY))
        if d in ('collections.Counter',) and n == 0:
            return self.new(st, raw('acc', raw('dict', EMPTY), ZERO))
        if d == 'sorted' and n >= 1:
            s = A[0]
            if s.op in ('set', 'dict', 'tuple', 'str', 'range', 'unordered'):
                s = s if s.op == 'set' else (s.args[0] if s.op == 'unordered' else K.seq_of(s))
            if s.op == 'keys' and s.args[0].op == 'var':
                s = s.args[0]
            if s.op == 'for' and not kw and n == 1:
                # items in the order of their keys, which differ
                v, b = K.open_binder(s)
                x = s.args[0].args[0] if s.args[0].op == 'len' else None
                if x is not None and b[0] is one(raw('tuple', index(x, v), index(x, index(x, v)))):
                    return self.new(st, K.map_seq(K.mk_sorted(x), lambda k: raw('tuple', k, index(x, k))))
            return self.new(st, K.mk_sorted(s, *self.keykw(kw, st, fr)))
        if d == 'reversed' and n == 1:
            return reverse(A[0])
        if d == 'enumerate' and n >= 1:
            return K.enumerate_seq(K.seq_of(A[0]), A[1] if n > 1 else self.D(kw.get('start', ZERO), st))
        if d in ('zip', 'itertools.izip', 'future_builtins.zip') and n >= 1:
            if n == 1 and A[0].op == 'star':
                return transposed(A[0].args[0])
            return lift(lambda *s: K.zip_seq(list(s)), A)
        if d in ('range', 'xrange'):
            if n == 1:
                return K.seq_of(raw('range', A[0]))
            if n == 2:
                v = fresh()
                return mk_for(sub(A[1], A[0]), v, one(add(v, A[0])))
            if n == 3 and A[2] is num(-1) and A[1] is num(-1):
                v = fresh()
                return mk_for(add(A[0], ONE), v, one(sub(A[0], v)))
            if n == 3 and A[2] is num(-1):
                v = fresh()
                return mk_for(sub(A[0], A[1]), v, one(sub(A[0], v)))
            return raw('range3', *A)
        if d in ('map', 'itertools.imap') and n >= 2:
            if n == 2:
                r = self.mapped(args[0], args[1], A[1], st, fr)
                if r is not None:
                    return r
                return flatmap(K.seq_of(A[1]), lambda x: one(self.D(self.call(args[0], [x], {}, st, fr), st)))
            z = K.zip_seq(A[1:])
            return flatmap(z, lambda x: one(self.D(self.call(args[0], [index(x, num(i)) for i in range(n - 1)], {}, st, fr), st)))
        if d in ('filter',) and n == 2:
            def keep(x):
                t = truth(x) if A[0] is NONE else truth(self.D(self.call(args[0], [x], {}, st, fr), st))
                return cond(t, one(x), EMPTY)
            return flatmap(K.seq_of(A[1]), keep)
        if d in ('functools.reduce', 'reduce') and n >= 2:
            return self.reduce(args, A, st, fr)
        if d == 'functools.partial':
            return raw('partial', *args)
        if d == 'itertools.chain' :
            return mk_cat([K.seq_of(a) if a.op != 'star' else flatmap(K.seq_of(a.args[0]), lambda y: K.seq_of(y)) for a in A])
        if d == 'itertools.chain.from_iterable' and n == 1:
            return flatmap(K.seq_of(A[0]), lambda y: K.seq_of(y))
        if d == 'itertools.product' and n == 2:
            return flatmap(K.seq_of(A[0]), lambda x: flatmap(K.seq_of(A[1]), lambda y: one(raw('tuple', x, y))))
        if d == 'itertools.combinations' and n == 2 and A[1] is num(2):
            q = K.seq_of(A[0])
            v, w = fresh(), fresh()
            return mk_for(K.length(q), v, mk_for(sub(sub(K.length(q), v), ONE), w, one(raw('tuple', index(q, v), index(q, add(add(v, w), ONE))))))
        if d == 'next' and n >= 1:
            return first_of(A[0], A[1] if n > 1 else raw('stopiter'))
        if d == 'iter' and n == 1:
            return A[0]
        if d in ('open', 'io.open', 'codecs.open'):
            mode = A[1] if n > 1 else self.D(kw.get('mode', const('r')), st)
            if mode.op == 'str' and 'w' in mode.args[0]:
                self.emit(st, raw('ev', 'create', A[0]))
            return raw('file', A[0], mode)
        if last == 'dump' and root in ('pickle', 'cPickle', '_pickle', 'json') and n >= 2 and A[1].op == 'file':
            self.emit(st, raw('ev', 'write', A[1].args[0], mk('call', 'dumps', A[0])))
            return NONE
        if last in ('deepcopy', 'copy') and root == 'copy' and n == 1:
            c = self.content(args[0], st)
            if args[0].op == 'loc' or A[0].op in ('attr', 'idx', 'var', 'm', 'cat', 'for', 'one', 'dict', 'ite', 'call', 'callv'):
                r = self.new(st, A[0])
                if last == 'deepcopy':
                    self.deep.add(r)
                return r
            return A[0]
        if last in ('mpf', '_mpf', 'asarray', 'array', 'matrix', 'float64', 'squeeze', 'asmatrix', 'mpc', 'ascontiguousarray') and n >= 1 and root in ('numpy', 'mpmath', 'sympy', 'decimal', 'scipy', 'math'):
            if last in ('array', 'asarray') and n == 1 and not kw and getattr(self.cfg.domain, 'rank', None) is not None:
                r = lift(lambda x: x if x.op == 'nda' else raw('nda', x) if self.rank(x) is not None else raw('array', x), [A[0]])
                if not any(x.op == 'array' for x in K.subterms(r)):
                    return r
            if args[0].op == 'loc':
                return self.new(st, self.content(args[0], st))
            if is_seq(A[0]) or A[0].op == 'acc':
                return self.new(st, A[0])
            if A[0].op == 'str' and n == 1 and number(A[0].args[0]) is not None:
                return num(number(A[0].args[0]))
            return A[0]
        if last in ('zeros', 'zeros_like', 'zerosm') and n >= 1:
            shp = A if root == 'mpmath' else [A[0]]
            return self.new(st, raw('acc', raw('arr', *shp), ZERO))
        if root == 're' and getattr(self.cfg.domain, 'folds', False):
            r = self.fold_regex(last, A, kw, st)
            if r is not None:
                return r
        if d == 'sympy.diff' and n == 2 and not kw:
            return self.rw(mk('m', 'doit', mk('call', 'sympy.Derivative', A[0], A[1])))
        if d in ('exec', 'eval') and n >= 1 and fr is not None:
            r = self.exec_text(d, A[0], args, A, st, fr)
            if r is not None:
                return r
        if d in ('globals', 'locals') and n == 0:
            return raw('scope', d)
        if d == 'exec' and n >= 1:
            if n > 1:
                tgt = args[-1]
                k = raw('execenv', A[0])
                if tgt.op == 'loc':
                    st.heap[tgt] = k
            return NONE
        if last in ('flush', 'close') or d in ('gc.collect',):
            return NONE
        if d == 'divmod' and n == 2:
            return raw('tuple', K.floordiv(*A), K.modulo(*A))
        if d == 'round':
            return mk('call', 'round', *A)
        if last == 'join' and root == 'os':
            return mk('call', 'os.path.join', *A)
        a = A + [raw('kw', k, self.D(kw[k], st)) for k in sorted(kw)]
        if root == 'sympy' and getattr(self.cfg.domain, 'symbolic', False):
            r = self.symbolic(last, A, a[n:], st)
            if r is not None:
                return r
        if last in EXC or d in EXC:
            return raw('exc', last)
        r = self.rw(mk('call', d, *a))
        if last in self.cfg.effects or d in self.cfg.effects:
            self.emit(st, raw('ev', d, *a))
        return r

    def fold_regex(self, name, A, kw, st):
        """a regular expression applied to a constant text"""
        if kw or any(a.op != 'str' for a in (A[:1] + A[2:] if name == 'sub' else A)):
            return None
        texts = [a.args[0] if a.op == 'str' else None for a in A]
        try:
            if name in ('search', 'match', 'fullmatch') and len(A) == 2:
                m = getattr(re, name)(*texts)
                return NONE if m is None else raw('mtch', *[NONE if g is None else const(g) for g in (m.group(0),) + m.groups()])
            if name == 'findall' and len(A) == 2:
                return self.new(st, mk_cat([one(raw('tuple', *map(const, x)) if isinstance(x, tuple) else const(x)) for x in re.findall(*texts)]))
            if name == 'split' and len(A) == 2:
                return self.new(st, mk_cat([one(NONE if x is None else const(x)) for x in re.split(*texts)]))
            if name == 'escape' and len(A) == 1:
                return const(re.escape(texts[0]))
            if name == 'sub' and len(A) == 3:
                out, pos = [], 0
                if any(x.op != 'str' and not K.is_str(x) or x.op == 'str' and '\\' in x.args[0] for x in K.sparts(A[1])[:1] if x.op == 'str'):
                    return None
                for m in re.finditer(texts[0], texts[2]):
                    out += [const(texts[2][pos:m.start()]), A[1]]
                    pos = m.end()
                return K.mk_scat(out + [const(texts[2][pos:])])
        except re.error:
            pass
        return None

    def symbolic(self, name, A, kw, st):
        """functions of the symbolic algebra"""
        if name in ('symbols', 'Symbol') and A and A[0].op == 'str':
            return SYM.symbols(A[0].args[0], kw) if name == 'symbols' else None
        if name in ('Matrix', 'ImmutableMatrix', 'MutableDenseMatrix') and len(A) == 1:
            return SYM.matrix(A[0], self.cfg.domain)
        if name in ('zeros', 'eye', 'ones') and 1 <= len(A) <= 2:
            n, m = A[0], A[-1]
            if name == 'eye':
                return SYM.build(n, m, lambda i, j: cond(eq(i, j), ONE, ZERO))
            return SYM.build(n, m, lambda i, j: ZERO if name == 'zeros' else ONE)
        if name == 'N' and A:
            return self.substituted(A[0], kw)
        if name in ('S', 'sympify', 'simplify', 'expand', 'factor', 'Float', 'Rational', 'Integer', 'together', 'cancel') and len(A) >= 1 and name not in ('Rational',):
            return A[0]
        return None

    def substituted(self, x, kw):
        for k in kw:
            if k.args[0] == 'subs':
                return SYM.each(x, lambda e: SYM.assign(e, k.args[1])) if x.op == 'smat' else SYM.assign(x, k.args[1])
        return x

    def symbolic_method(self, cd, name, A, kw, st):
        if name in ('evalf', 'n'):
            return self.substituted(cd, kw)
        if name in ('subs', 'xreplace') and len(A) == 1:
            return self.substituted(cd, [raw('kw', 'subs', A[0])])
        if name in ('simplify', 'expand', 'doit'):
            return cd
        if cd.op == 'smat':
            if name in ('transpose', 'adjoint') and not A:
                return SYM.transpose(cd)
            if name == 'tolist':
                return cd.args[2]
            if name in ('values', 'flat') and not A:
                return SYM.flat(cd)
            if name in ('multiply', 'dot') and len(A) == 1 and name == 'multiply':
                return SYM.binop('Mult', cd, A[0])
        return None

    def keykw(self, kw, st, fr):
        out = []
        if 'key' in kw:
            k = self.D(kw['key'], st)
            v = raw('var', '@key')
            try:
                b = self.D(self.call(kw['key'], [v], {}, st, fr), st)
            except Exception:
                b = k
            if b is not v:
                out.append(raw('key', b))
        if 'reverse' in kw:
            r = self.D(kw['reverse'], st)
            if r is not FALSE:
                out.append(raw('rev?', r))
        return out

    def isinst(self, x, c, st):
        if c.op == 'tuple' or (c.op in ('cat', 'one')):
            cs = c.args if c.op != 'one' else [c]
            return lor(*[self.isinst(x, y.args[0] if y.op == 'one' else y, st) for y in cs])
        if c.op == 'class':
            n = c.args[0]
        elif c.op == 'ext':
            n = c.args[0].rsplit('.', 1)[-1]
        elif c.op == 'typeof':
            cl = self.class_of(c.args[0])
            n = cl.name if cl is not None else None
            if n is None and self.cfg.domain is not None:
                n = self.cfg.domain.class_name(c.args[0])
            if n is None:
                return raw('isinst', x, c)
        else:
            return raw('isinst', x, c)
        if n in ('str', 'basestring', 'unicode', 'string_types'):
            n = 'str'
        if self.cfg.domain is not None and x.op != 'ite':
            sc = self.cfg.domain.class_name(x)
            if sc is not None:
                return TRUE if sc == n else FALSE
        if x.op == 'new':
            return TRUE if x.args[0] == n else raw('isinst', x, n)
        if K.is_str(x):
            return TRUE if n == 'str' else FALSE
        return lift(lambda y: raw('isinst', y, n), [x]) if x.op == 'ite' else raw('isinst', x, n)

    def reduce(self, args, A, st, fr):
        lc = fresh('lc', 'acc')
        s = K.seq_of(A[1])
        if len(A) > 2:
            init = A[2]
            x, y = raw('var', '@a'), raw('var', '@b')
            out = self.D(self.call(args[0], [x, y], {}, st, fr), st)
            if out is mul(x, y):
                return mul(init, prod_seq(s))
            if out is add(x, y):
                return add(init, K.sum_seq(s))
            v = fresh()
            out = self.D(self.call(args[0], [lc, index(s, v)], {}, st, fr), st)
            return close_loop_value(lc, init, out, length(s), v)
        if s.op in ('one', 'cat') and all(p.op == 'one' for p in (s.args if s.op == 'cat' else [s])):
            ps = [p.args[0] for p in (s.args if s.op == 'cat' else [s])]
            r = ps[0]
            for p in ps[1:]:
                r = self.D(self.call(args[0], [r, p], {}, st, fr), st)
            return r
        x, y = raw('var', '@a'), raw('var', '@b')
        out = self.D(self.call(args[0], [x, y], {}, st, fr), st)
        if out is mul(x, y):
            return prod_seq(s)
        if out is add(x, y):
            return K.sum_seq(s)
        if out is mk_cat([x, y]):
            return flatmap(s, lambda q: q)
        return raw('reduce', s, out)

    # -- collections
    def coll_method(self, b, name, args, kw, st, fr, e):
        c = self.content(b, st)
        A = [self.D(a, st) for a in args]
        cd = self.D(c, st)
        n = len(A)
        # strings
        if name == 'format' and (K.is_str(cd) or (cd.op not in ('ext',) and (n or kw))):
            if cd.op == 'ite':
                return lift(lambda x: self.strformat(x, A, {k: self.D(v, st) for k, v in kw.items()}), [cd])
            return self.strformat(cd, A, {k: self.D(v, st) for k, v in kw.items()})
        if name == 'join' and n == 1 and (K.is_str(cd)):
            return K.mk_join(cd, K.seq_of(A[0]))
        if cd.op == 'str' and name in ('strip', 'lower', 'upper', 'lstrip', 'rstrip') and n == 0:
            return const(getattr(cd.args[0], name)())
        if cd.op == 'str' and name == 'replace' and n == 2 and A[0].op == 'str' and A[1].op == 'str':
            return const(cd.args[0].replace(A[0].args[0], A[1].args[0]))
        if cd.op == 'str' and name == 'split' and n <= 1 and all(a.op == 'str' for a in A):
            return mk_cat([one(const(x)) for x in cd.args[0].split(*[a.args[0] for a in A])])
        if cd.op == 'file':
            if name in ('write', 'writelines'):
                self.emit(st, raw('ev', 'write', cd.args[0], A[0] if name == 'write' else K.mk_join(const(''), K.seq_of(A[0]))))
                return NONE
            if name in ('close', 'flush'):
                return NONE
            if name == 'read':
                return mk('call', 'read', cd.args[0])
        # dictionaries
        if name == 'keys' and n == 0:
            return K.dict_keys(cd)
        if name in ('items', 'iteritems') and n == 0:
            if cd.op == 'dict' and not K.collide(cd.args[0]):
                return K.map_seq(cd.args[0], lambda p: raw('tuple', p.args[0], p.args[1]) if p.op == 'pair' else p)
            if cd.op == 'ite':
                return lift(lambda x: self.coll_method(x, 'items', args, kw, st, fr, e), [cd])
            v = fresh()
            ks = K.dict_keys(cd)
            return mk_for(length(cd if ks.op == 'keys' else ks), v, one(raw('tuple', index(ks, v), index(cd, index(ks, v)))))
        if name in ('values', 'itervalues') and n == 0:
            if cd.op == 'dict' and not K.collide(cd.args[0]):
                return K.map_seq(cd.args[0], lambda p: p.args[1] if p.op == 'pair' else p)
            v = fresh()
            ks = K.dict_keys(cd)
            return mk_for(length(cd if ks.op == 'keys' else ks), v, one(index(cd, index(ks, v))))
        if name == 'get' and n in (1, 2) and not kw:
            d = A[1] if n == 2 else NONE
            if cd.op in ('m',):
                return None

            def got(x):
                y = upd_index(x, A[0])
                # nothing has been added up under other keys
                if d is ZERO and x.op == 'acc' and x.args[0].op == 'dict' and x.args[0].args[0] is EMPTY:
                    y = self.rw(y)
                    if y.op != 'idx':
                        return y
                return cond(contains(A[0], x), y, d)
            return lift(got, [cd])
        if name == 'copy' and n == 0 and all(x.op in ('dict', 'acc', 'cat', 'one', 'for', 'set', 'attr', 'idx', 'var', 'upd', 'fold', 'm', 'call', 'callv') for x in leaf_terms(cd)):
            return self.new(st, cd)
        if name == 'index' and n == 1:
            return self.rw(mk('m', 'index', cd if cd.op != 'tuple' else K.seq_of(cd), A[0]))
        if cd.op == 'mtch':
            if name == 'group' and all(a.op == 'num' for a in A):
                gs = [cd.args[int(a.args[0])] for a in A or [ZERO]]
                return gs[0] if len(gs) == 1 else raw('tuple', *gs)
            if name == 'groups' and not A:
                return raw('tuple', *cd.args[1:])
        if getattr(self.cfg.domain, 'symbolic', False):
            r = lift(lambda x: self.symbolic_method(x, name, A, [raw('kw', k, self.D(kw[k], st)) for k in sorted(kw)], st) or raw('none!'), [cd])
            if not any(x.op == 'none!' for x in leaf_terms(r)):
                return r
        if name == 'tolist' and n == 0 and has_array(cd):
            return self.new(st, lift(lambda x: x.args[0] if x.op == 'nda' else raw('m', 'tolist', x), [cd]))
        if name == 'reshape' and cd.op == 'nda' and self.rank(cd) == 2 and A and A[0] is num(-1):
            return cd
        if name == 'tolist' and n == 0 and cd.op in ('acc', 'arr', 'cat', 'for', 'one'):
            return cd
        if cd.op == 'set' and n == 1 and name in ('difference', 'intersection', 'union', 'issubset', 'issuperset', 'isdisjoint'):
            if name in ('difference', 'intersection'):
                return self.new(st, minus(cd, A[0], name == 'intersection'))
            if name == 'union':
                return self.new(st, K.mk_set(mk_cat([set_seq(cd), K.seq_of(set_seq(A[0]))])))
            return lnot(truth(minus(cd, A[0]) if name == 'issubset' else minus(A[0], cd) if name == 'issuperset' else minus(cd, A[0], True)))
        if name in MUTATORS:
            return self.mutate(b, c, cd, name, args, A, kw, st, fr, e)
        return None

    def strformat(self, f, A, kw):
        if f.op in ('ite', 'scat') and K.is_str(f) and (f.op == 'ite' or any(p.op == 'ite' for p in f.args)):
            return K.lift_str(lambda x: self.strformat(x, A, kw) if x.op == 'str' else
                              mk('m', 'format', x, *(A + [raw('kw', k, kw[k]) for k in sorted(kw)])), f)
        if len(A) == 1 and A[0].op == 'star':
            X = A[0].args[0]
            A = [index(X, num(i)) for i in range(12)]
        if f.op != 'str':
            return mk('m', 'format', f, *(A + [raw('kw', k, kw[k]) for k in sorted(kw)]))
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(f.args[0]):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                head = field
                rest = ''
                for i, ch in enumerate(field):
                    if ch in '.[':
                        head, rest = field[:i], field[i:]
                        break
                if head == '':
                    i = auto
                    auto += 1
                    if i >= len(A):
                        return raw('badformat', f, *A)
                    v = A[i]
                elif head.isdigit():
                    if int(head) >= len(A):
                        return raw('badformat', f, *A)
                    v = A[int(head)]
                elif head in kw:
                    v = kw[head]
                elif '**' in kw:
                    v = index(kw['**'], const(head))
                else:
                    return raw('badformat', f, *A)
                if v.op == 'star':
                    # "{} -> {}".format(*xs)
                    v = index(v.args[0], num(auto - 1)) if head == '' else index(v.args[0], num(int(head)))
                elif head == '' and A and A[0].op == 'star' and len(A) == 1:
                    v = index(A[0].args[0], num(auto - 1))
                if rest:
                    v = raw('fmtfield', v, rest)
                parts.append(fmt(v, (spec or '') + ('!' + conv if conv else '')))
        except ValueError:
            return raw('badformat', f, *A)
        return K.mk_scat(parts)

    def mutate(self, b, c, cd, name, args, A, kw, st, fr, e=None):
        """methods that change their receiver"""
        if b.op == 'ite':
            return self.opaque('mutate-alias', b)
        key = b
        if b.op != 'loc':
            if b.op in ('cat', 'one', 'for', 'dict', 'set', 'str', 'tuple'):
                key = None
                if b.op in BUILT and e is not None and not isinstance(e.func.value, (ast.List, ast.Dict, ast.Call, ast.ListComp)):
                    self.lost.append(K.show(b))
            elif b in st.heap:
                c = self.content(st.heap[b], st)
                cd = self.D(c, st)
        else:
            key = b
            while st.heap.get(key) is not None and st.heap[key].op == 'loc':
                key = st.heap[key]
        n = len(A)
        ret = NONE
        cur = c
        known = b.op == 'loc' or is_seq(cd) or cd.op in ('dict', 'set', 'acc')
        if name == 'append' and n == 1:
            new = mk_cat([K.seq_of(cur) if cur.op == 'tuple' else cur, one(args[0])])
        elif name == 'extend' and n == 1:
            new = mk_cat([cur, K.seq_of(A[0])])
        elif name == 'insert' and n == 2 and A[0] is ZERO:
            new = mk_cat([one(args[1]), cur])
        elif name == 'insert' and n == 2:
            new = mk_cat([self.mkslice(cd, NONE, A[0], NONE), one(args[1]), self.mkslice(cd, A[0], NONE, NONE)])
        elif name == 'pop' and n == 1 and A[0].op == 'm' and A[0].args[0] == 'index' and A[0].args[1] is cd or name == 'remove' and n == 1 and is_seq(cd):
            x = A[0] if name == 'remove' else A[0].args[2]
            i = mk('m', 'index', cd, x)
            ret = NONE if name == 'remove' else x
            new = joined([self.mkslice(cd, NONE, i, NONE), self.mkslice(cd, add(i, ONE), NONE, NONE)])
        elif name == 'sort':
            new = K.mk_sorted(cd.args[0] if cd.op == 'unordered' else cd, *self.keykw(kw, st, fr))
        elif name == 'reverse' and n == 0:
            new = reverse(cd)
        elif name == 'add' and n == 1:
            if not (cd.op in ('set',) or hint(cd) == 'set'):
                return None
            new = K.mk_set(mk_cat([set_seq(cd), one(A[0])]))
        elif name == 'update':
            if cd.op in ('set',) or hint(cd) == 'set':
                new = K.mk_set(mk_cat([set_seq(cd)] + [K.seq_of(a) for a in A]))
            else:
                new = cur
                for a in A:
                    new = dict_update(new, a)
                for k in sorted(kw):
                    new = dict_set(new, const(k), kw[k])
        elif name == 'setdefault' and n == 2:
            has = contains(A[0], cd)
            ret = cond(has, upd_index(cd, A[0]), A[1])
            new = cond(has, cd, dict_set(cd, A[0], args[1]))
            if has is FALSE:
                ret, new = args[1], dict_set(c if c.op in ('dict', 'upd') else cd, A[0], args[1])
            elif has is TRUE and c.op in ('dict', 'upd'):
                new = c
                inner = upd_index(c, A[0])
                ret = inner if inner.op == 'loc' else ret
        elif name == 'pop' and n == 1 and args[0].op == 'num' and is_seq(cd) and args[0].args[0] in (0, -1):
            ret = index(cd, A[0])
            new = self.mkslice(cd, ONE if args[0] is ZERO else NONE, NONE if args[0] is ZERO else num(-1), NONE)
        elif name == 'pop' and n == 0 and is_seq(cd):
            ret = index(cd, num(-1))
            new = self.mkslice(cd, NONE, num(-1), NONE)
        elif name == 'pop' and (n == 2 or n == 1 and args[0].op == 'str') and not kw and cd.op in ('var', 'attr', 'dict', 'without'):
            # of a dict
            has = contains(A[0], cd)
            ret = cond(has, upd_index(cd, A[0]), args[1]) if n == 2 else upd_index(cd, A[0])
            new = K.minus_key(cd, A[0])
        elif name == 'clear' and n == 0:
            new = EMPTY if is_seq(cd) or self.attr_kind(b, fr) == 'list' else raw('dict', EMPTY)
        else:
            if not known and name in ('add', 'remove', 'pop', 'discard', 'insert', 'update'):
                if name != 'update':
                    return None
            new = raw('mut', name, cd, *A)
            ret = raw('mutret', name, cd, *A)
        if key is not None:
            st.heap[key] = new
        return ret

    def attr_kind(self, b, fr):
        """'list' when the class only ever assigns lists to this attribute"""
        while b.op == 'loc':
            return ''
        if b.op != 'attr' or fr.cls is None:
            return ''
        kinds = set()
        for c in self.repo.mro(fr.cls):
            for x in ast.walk(c.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        ts, vs = ([t], [x.value]) if not isinstance(t, ast.Tuple) or not isinstance(x.value, ast.Tuple) else (t.elts, x.value.elts)
                        for a, v in zip(ts, vs):
                            if isinstance(a, ast.Attribute) and a.attr == b.args[1] and isinstance(a.value, ast.Name) and a.value.id == 'self':
                                kinds.add('list' if isinstance(v, (ast.List, ast.ListComp)) else 'other')
        return 'list' if kinds == {'list'} else ''

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for i, s in enumerate(stmts):
            st.pend = []
            t = self.stmt(s, st, fr)
            if isinstance(t, Leaf):
                if t.kind == 'fall' and not t.st.pend:
                    st = t.st
                    continue
                if t.kind == 'fall':
                    p, t.st.pend = t.st.pend, []
                    t = self.apply_pending(p, t)
            else:
                ps = [l for l in leaves(t) if l.st is not None and l.st.pend]
                pend = []
                for l in ps:
                    for q in l.st.pend:
                        if not any(q is z for z in pend):
                            pend.append(q)
                    l.st.pend = []
                if pend:
                    t = self.apply_pending(pend, t)
            if isinstance(t, Leaf) and t.kind != 'fall':
                if t.st is not None and t.st.pend:
                    p, t.st.pend = t.st.pend, []
                    t = self.apply_pending(p, t)
                return t
            m = merge_states(t)
            if m is None:
                return t
            m.pend = []
            if all(l.kind == 'fall' for l in leaves(t)):
                st = m
                continue
            rest = self.block(stmts[i + 1:], m, fr)
            return maptree(t, lambda l: rest if l.kind == 'fall' else l)
        return Leaf('fall', None, st)

    def apply_pending(self, pend, t):
        for p in reversed(pend):
            t = maptree(p, lambda l: (Leaf('raise', l.val, l.st) if l.kind == 'raise' else t))
        return t

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        self.lines += 1
        if m is None:
            st.env['@unknown'] = self.opaque('stmt:' + type(s).__name__)
            return Leaf('fall', None, st)
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return Leaf('fall', None, st)
        v = self.ev(s.value, st, fr)
        return Leaf('fall', None, st)

    def s_Pass(self, s, st, fr):
        return Leaf('fall', None, st)

    s_Import = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, s, st, fr):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            st.env[n] = self.dotted_name(a.name if a.asname else a.name.split('.')[0], st, fr)
        return Leaf('fall', None, st)

    def s_ImportFrom(self, s, st, fr):
        base = s.module or ''
        if s.level:
            pk = fr.module.name.split('.')
            pk = pk[:len(pk) - s.level + (1 if fr.module.path.endswith('__init__.py') else 0)]
            base = '.'.join(pk + ([s.module] if s.module else []))
        for a in s.names:
            st.env[a.asname or a.name] = self.dotted_name(base + '.' + a.name, st, fr)
        return Leaf('fall', None, st)

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return Leaf('fall', None, st)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                if isinstance(t.slice, ast.Slice):
                    full = t.slice.lower is None and t.slice.upper is None
                    call = ast.Call(ast.Attribute(t.value, 'clear' if full else '@delslice', ast.Load()), [], [])
                else:
                    call = ast.Call(ast.Attribute(t.value, 'pop', ast.Load()), [t.slice], [])
                self.ev(ast.fix_missing_locations(ast.copy_location(call, t)), st, fr)
            elif isinstance(t, ast.Attribute):
                st.heap[raw('attr', self.D(self.ev(t.value, st, fr), st), t.attr)] = UNDEF
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return Leaf('fall', None, st)

    def s_FunctionDef(self, s, st, fr):
        st.env[s.name] = self.closure(s, st, fr)
        return Leaf('fall', None, st)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        return Leaf('ret', v, st)

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            return Leaf('raise', raw('exc', 'reraise'), st)
        v = self.ev(s.exc, st, fr)
        if v.op == 'class':
            v = raw('exc', v.args[0])
        elif v.op == 'ext':
            v = raw('exc', v.args[0])
        elif v.op == 'ite':
            v = self.D(v, st)
        return Leaf('raise', v, st)

    def s_Assert(self, s, st, fr):
        c = self.test(s.test, st, fr)
        return node(c, Leaf('fall', None, st), Leaf('raise', raw('exc', 'AssertionError'), st))

    def s_Break(self, s, st, fr):
        return Leaf('break', None, st)

    def s_Continue(self, s, st, fr):
        return Leaf('continue', None, st)

    def s_Assign(self, s, st, fr):
        place = self.place(s.value, st, fr) if isinstance(s.value, ast.Subscript) else None
        v = self.ev(s.value, st, fr)
        if v.op in ('upd', 'dict', 'aug', 'augs', 'ite') and all(x.op in ('upd', 'dict', 'aug', 'augs') for x in leaf_terms(v)):
            key = self.attr_cell(s.value, st, fr)
            if key is not None and st.heap[key] is v:
                # one more name for a changed container
                v = st.heap[key] = self.new(st, v)
        for t in s.targets:
            self.bind(t, v, st, fr)
            if self.followed(place) and v.op != 'loc' and isinstance(t, ast.Name):
                st.env['@place:' + t.id] = raw('tuple', place[0], place[1], v)
        return Leaf('fall', None, st)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, st, fr), st, fr)
        return Leaf('fall', None, st)

    def s_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            place = self.place(t.value, st, fr)
            b = self.ev(t.value, st, fr)
            if self.followed(place) and b.op != 'loc':
                # an element of a deep copy: read, change, write back
                cell = self.new(st, self.D(self.getitem(place[0], place[1], st, fr), st))
                k = self.val(t.slice, st, fr)
                d = self.val(s.value, st, fr)
                new = self.D(self.getitem(cell, k, st, fr), st)
                self.setitem(cell, k, self.binop(op, new, d, st), st, fr)
                self.setitem(place[0], place[1], st.heap.pop(cell), st, fr)
                return Leaf('fall', None, st)
            k = self.val(t.slice, st, fr)
            d = self.val(s.value, st, fr)
            if op in ('Add', 'Sub'):
                c = self.content(b, st) if b.op == 'loc' else st.heap.get(b, b)
                cd = self.D(c, st)
                dd = d if op == 'Add' else neg(d)
                new = aug(cd, k, dd)
                self.store_container(b, new, st)
                return Leaf('fall', None, st)
            cur = self.D(self.getitem(b, k, st, fr), st)
            self.setitem(b, k, self.binop(op, cur, d, st), st, fr)
            return Leaf('fall', None, st)
        cur = self.ev(target_load(t), st, fr)
        v = self.ev(s.value, st, fr)
        if op == 'Add' and cur.op == 'loc':
            c = self.content(cur, st)
            if is_seq(self.D(c, st)):
                key = cur
                while st.heap[key].op == 'loc':
                    key = st.heap[key]
                st.heap[key] = mk_cat([st.heap[key], K.seq_of(self.D(v, st))])
                return Leaf('fall', None, st)
        self.bind(t, self.binop(op, cur, v, st), st, fr)
        return Leaf('fall', None, st)

    def bind(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if v.op == 'loc':
                v = self.D(v, st)
            for i, x in enumerate(t.elts):
                if star and i == star[0]:
                    hi = len(t.elts) - i - 1
                    self.bind(x.value, self.mkslice(v, num(i), num(-hi) if hi else NONE, NONE), st, fr)
                elif star and i > star[0]:
                    self.bind(x, self.getitem(v, num(i - len(t.elts)), st, fr), st, fr)
                else:
                    if v.op == 'tuple' and i < len(v.args):
                        self.bind(x, v.args[i], st, fr)
                    else:
                        self.bind(x, self.getitem(v, num(i), st, fr), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            cls = self.class_of(b)
            if cls is not None:
                setter = self.repo.find_method(cls, t.attr + '@setter')
                if setter is not None:
                    self.call_func(setter, b, [v], {}, st, fr)
                    return
            if t.attr in self.cfg.watch_store:
                self.emit(st, raw('ev', 'store ' + t.attr, self.D(b, st), self.D(v, st)))
            st.heap[raw('attr', b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                if not (t.slice.lower or t.slice.upper or t.slice.step):
                    self.store_container(b, K.seq_of(self.D(v, st)), st)
                    return
                self.store_container(b, raw('sliceset', self.D(b, st), self.D(v, st), const(ast.dump(t.slice))), st)
                return
            k = self.val(t.slice, st, fr)
            o = self.own(b, k)
            if o is not None:
                st.heap[raw('attr', *o)] = v
                return
            place = self.place(t.value, st, fr)
            if self.followed(place) and b.op != 'loc':
                cell = self.new(st, self.D(self.getitem(place[0], place[1], st, fr), st))
                self.setitem(cell, k, v, st, fr)
                self.setitem(place[0], place[1], st.heap.pop(cell), st, fr)
                return
            key = self.attr_cell(t.value, st, fr)
            if key is not None:
                st.heap[key] = dict_set(self.D(st.heap[key], st), k, v)
                return
            if b.op in BUILT:
                self.lost.append(K.show(b))
            self.setitem(b, k, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st, fr)

    def setitem(self, b, k, v, st, fr):
        if b.op == 'loc':
            c = self.content(b, st)
        else:
            c = st.heap.get(b, b)
            c = self.content(c, st)
        self.store_container(b, dict_set(c, k, v), st)

    def store_container(self, b, new, st):
        if b.op == 'ite':
            # aliasing through alternatives: give up on this container
            for x in leaf_terms(b):
                st.heap[x] = self.opaque('alias-store', new)
            return
        key = b
        if b.op == 'loc':
            while st.heap.get(key) is not None and st.heap[key].op == 'loc':
                key = st.heap[key]
        elif b in st.heap and st.heap[b].op == 'loc':
            key = st.heap[b]
            while st.heap[key].op == 'loc':
                key = st.heap[key]
        st.heap[key] = new

    def s_If(self, s, st, fr):
        c = self.test(s.test, st, fr)
        pend = st.pend
        if c is TRUE:
            t = self.block(s.body, self.cp(st), fr)
        elif c is FALSE:
            t = self.block(s.orelse, self.cp(st), fr)
        else:
            t = node(c, self.block(s.body, self.under(st, c), fr), self.block(s.orelse, self.under(st, lnot(c)), fr))
        if pend:
            t = self.apply_pending(pend, t)
        if not isinstance(t, Leaf) and all(l.kind == 'fall' for l in leaves(t)):
            m = merge_states(t)
            m.pend = []
            return Leaf('fall', None, m)
        return t

    def under(self, st, c):
        """the state, where c holds"""
        r = self.cp(st)
        if c.op == 'ite' or c.op not in ('const',):
            memo = {}
            for d in (r.env, r.heap):
                for k, x in d.items():
                    if x.op == 'ite':
                        d[k] = K.restrict(x, c, memo)
        return r

    def cp(self, st):
        s = st.copy()
        s.pend = []
        return s

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, st, fr)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        if self.lazy_cache(s):
            return self.block(s.handlers[0].body, st, fr)
        s0 = self.cp(st)
        body = self.block(s.body, self.cp(st), fr)
        hnames = []
        for h in s.handlers:
            hnames.append(exc_names(h.type))
        flat = set(x for hs in hnames for x in hs)
        c = self.try_cond(s, s0, fr, flat)
        if not s.handlers:
            t = body
            if s.orelse:
                t = maptree(t, lambda l: self.block(s.orelse, l.st, fr) if l.kind == 'fall' else l)
        else:
            h = s.handlers[-1]
            ht = None
            for h, hs in reversed(list(zip(s.handlers, hnames))):
                sh = self.cp(s0)
                if h.name:
                    sh.env[h.name] = raw('excval', ','.join(sorted(hs)))
                tt = self.block(h.body, sh, fr)
                ht = tt if ht is None else node(raw('exctype', ','.join(sorted(hs))), tt, ht)

            def route(l):
                if l.kind == 'raise' and (not flat or '*' in flat or l.val.op == 'exc' and l.val.args[0] in flat or 'Exception' in flat):
                    return ht
                if l.kind == 'fall' and s.orelse:
                    return self.block(s.orelse, l.st, fr)
                return l
            t = node(c, ht, maptree(body, route))
        if s.finalbody:
            def fin(l):
                if l.st is None:
                    return l
                f = self.block(s.finalbody, self.cp(l.st), fr)
                return maptree(f, lambda x: Leaf(l.kind, l.val, x.st) if x.kind == 'fall' else x)
            t = maptree(t, fin)
        return t

    def lazy_cache(self, s):
        """try: return self.x / except AttributeError: ... self.x = value; return value"""
        if len(s.body) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.body[0].value, ast.Attribute) and \
                len(s.handlers) == 1 and exc_names(s.handlers[0].type) in (['AttributeError'], {'AttributeError'}) and not s.orelse and not s.finalbody:
            a = s.body[0].value
            return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == a.attr and ast.dump(x.value) == ast.dump(a.value)
                       for b in s.handlers[0].body for x in ast.walk(b))
        return False

    def tabulated(self, e, k, fr):
        """is k a key of every entry of a table of the data modules?"""
        if not (k.op == 'str' and isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name)):
            return False
        n = e.value.id
        for m in self.repo.modules.values():
            if m.rel.startswith('scaks/database/'):
                from . import constants
                t = constants.constants(m).get(n)
                if isinstance(t, dict) and t and all(isinstance(x, dict) and k.args[0] in x for x in t.values()):
                    return True
        return False

    def try_cond(self, s, st, fr, flat):
        """the condition under which the handlers run"""
        if len(s.body) == 1:
            b = s.body[0]
            e = b.value if isinstance(b, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice) and flat & {'KeyError', 'IndexError'} and 'KeyError' in flat:
                c = TRUE
                while isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
                    k = self.val(e.slice, st, fr)
                    if not self.tabulated(e.value, k, fr):
                        c = land(contains(k, self.val(e.value, st, fr)), c)
                    e = e.value
                return lnot(c)
            if flat & {'ValueError', '*', 'Exception'}:
                calls = [x for x in ast.walk(b) if isinstance(x, ast.Call)]
                if len(calls) == 1 and isinstance(calls[0].func, ast.Attribute) and calls[0].func.attr == 'index' and len(calls[0].args) == 1 and not calls[0].keywords:
                    return lnot(contains(self.val(calls[0].args[0], st, fr), self.val(calls[0].func.value, st, fr)))
            if isinstance(e, ast.Attribute) and flat == {'AttributeError'}:
                return lnot(raw('hasattr', self.val(e.value, st, fr), e.attr))
        vals = []
        try:
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Call):
                        d = dotted(x.func) or ''
                        vals.append(const(d.rsplit('.', 1)[-1]))
        except Exception:
            pass
        return raw('raises', ','.join(sorted(flat)), *vals)

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        it = self.iter_seq(s.iter, st, fr)
        pend, st.pend = st.pend, []

        def body(x, st2):
            self.bind(s.target, x, st2, fr)
            return self.block(s.body, st2, fr)
        t = self.iterate(it, body, st)
        # break -> skip else
        if s.orelse:
            t = maptree(t, lambda l: self.block(s.orelse, l.st, fr) if l.kind == 'fall' else l)
        t = maptree(t, lambda l: Leaf('fall', None, l.st) if l.kind == 'break' else l)
        return self.apply_pending(pend, t) if pend else t

    def iterate(self, seq, body, st):
        """tree with leaves fall / break / ret / raise"""
        if seq.op == 'one':
            t = body(seq.args[0], st)
            return maptree(t, lambda l: Leaf('fall', None, l.st) if l.kind == 'continue' else l)
        if seq.op == 'cat':
            t = Leaf('fall', None, st)
            for p in seq.args:
                m = merge_states(t)
                if m is None:
                    return t
                m.pend = []
                if isinstance(t, Leaf):
                    t = self.iterate(p, body, m)
                else:
                    r = self.iterate(p, body, m)
                    t = maptree(t, lambda l: r if l.kind == 'fall' else l)
            return t
        if seq.op == 'ite':
            return node(seq.args[0], self.iterate(seq.args[1], body, self.cp(st)), self.iterate(seq.args[2], body, self.cp(st)))
        if seq.op == 'for':
            v, (b,) = K.open_binder(seq)
            return self.loop(seq.args[0], v, lambda s2: self.iterate(b, body, s2), st)
        v = fresh()
        return self.loop(length(seq), v, lambda s2: body(self.rw(index(seq, v)), s2), st)

    def loop(self, n, v, inner, st):
        # 1. which variables and heap cells change?
        changed_env, changed_heap = set(), set()
        for _ in range(6):
            trial = self.havoc(st, changed_env, changed_heap)
            res = inner(trial[0].copy())
            ce, ch = set(changed_env), set(changed_heap)
            for l in leaves(res):
                if l.st is None:
                    continue
                for k, x in l.st.env.items():
                    if (k not in trial[0].env or x is not trial[0].env[k]) and k[0] != '@':
                        ce.add(k)
                for k, x in l.st.heap.items():
                    if k not in trial[0].heap:
                        if k.op == 'loc' or not self.is_external(k):
                            continue
                        if depends(k, v):
                            continue
                        ch.add(k)
                    elif x is not trial[0].heap[k]:
                        ch.add(k)
            if ce == changed_env and ch == changed_heap:
                break
            changed_env, changed_heap = ce, ch
        st_h, lcs = trial
        # exits
        kinds = set(l.kind for l in leaves(res))
        live = merge_states(res, ('fall', 'continue'))
        brk = merge_states(res, ('break',))
        ends = {}
        if live is not None:
            for key, (lc, init) in lcs.items():
                x = live.env.get(key[1], UNDEF) if key[0] == 'env' else live.heap.get(key[1], key[1])
                # iteration-local locations are frozen; outer ones stay
                ends[key] = self.freeze(x, live, st, lcs)
        else:
            for key, (lc, init) in lcs.items():
                ends[key] = lc
        # iteration-dependent external cells (x[i] = ... through a path containing v)
        dyn = {}
        if live is not None:
            for k, x in live.heap.items():
                if k not in st_h.heap and k.op != 'loc' and self.is_external(k) and depends(k, v):
                    dyn[k] = self.freeze(x, live, st, lcs)
        exitc = treecond(res, lambda l: l.kind in ('ret', 'raise', 'break'))
        finals = self.close_vars(lcs, ends, n, v)
        lcset = {lc: key for key, (lc, init) in lcs.items()}
        # replace lc's in the exit condition by their value at iteration v
        at_v = self.values_at(lcs, ends, n, v)
        out = St(dict(st.env), dict(st.heap))
        for key, val in finals.items():
            if key[0] == 'env':
                out.env[key[1]] = val
            else:
                out.heap[key[1]] = val
        for k, x in dyn.items():
            c = k.args[0]
            if k.op == 'idx' and not depends(c, v):
                cur = out.heap.get(c, c)
                pairs = mk_for(n, v, one(raw('pair', k.args[1], x)))
                out.heap[c] = upd(cur, pairs)
            else:
                out.heap[raw('anyof', K.close('lam', n, v, k))] = K.close('lam', n, v, x)
        tree = Leaf('fall', None, out)
        if exitc is FALSE:
            return tree
        exitc2 = subst(exitc, at_v)
        if any(lc.args[-1] in exitc2.fv for lc in lcset):
            exitc2 = self.fold_cond(exitc2, lcset, n, v)
        fires = K.mk_any(n, v, exitc2)

        # what happens at the first exiting iteration
        def at_exit(val):
            """value of an iteration-dependent term at the first exit"""
            val = subst(val, at_v)
            if any(lc.args[-1] in val.fv for lc in lcset):
                val = raw('opaque', 'loop-exit', K.close('lam', n, v, subst(val, {lc: raw('bvlc', str(k[1])) for lc, k in lcset.items()})))
            if not depends(val, v):
                return val
            return first_match(n, v, exitc2, val)

        def conv(t, pc):
            if isinstance(t, Leaf):
                if t.kind in ('fall', 'continue'):
                    return None
                s2 = St(dict(st.env), dict(st.heap))
                if t.st is not None:
                    for key, (lc, init) in lcs.items():
                        x = t.st.env.get(key[1], UNDEF) if key[0] == 'env' else t.st.heap.get(key[1], key[1])
                        x = self.freeze(x, t.st, st, lcs)
                        x = at_exit(x)
                        if key[0] == 'env':
                            s2.env[key[1]] = x
                        else:
                            s2.heap[key[1]] = x
                    for k, x in t.st.heap.items():
                        if k.op == 'loc' and k not in s2.heap:
                            s2.heap[k] = x
                val = t.val
                if t.kind == 'ret':
                    val = at_exit(self.D(val, t.st))
                elif t.kind == 'raise' and val is not None and depends(val, v):
                    val = at_exit(val)
                return Leaf(t.kind, val, s2)
            # what holds here: this iteration exits, along this path
            r = K.restrict_cond(t.c, pc)
            if r is TRUE:
                return conv(t.t, pc)
            if r is FALSE:
                return conv(t.f, pc)
            t = Node(r, t.t, t.f)
            a, b = conv(t.t, K.land(pc, t.c)), conv(t.f, K.land(pc, K.lnot(t.c)))
            if a is None:
                return b
            if b is None:
                return a
            c = subst(t.c, at_v)
            if any(lc.args[-1] in c.fv for lc in lcset):
                c = raw('opaque', 'loop-exit-cond', K.close('lam', n, v, subst(c, {lc: raw('bvlc', str(k[1])) for lc, k in lcset.items()})))
            elif depends(c, v):
                c = lift(lambda z: z, [c]) if False else first_cond(n, v, exitc2, c)
            return node(c, a, b)
        # raise leaves of one type independent of the iteration need no 'first'
        ex = conv(simplify_exits(res), exitc)
        return node(fires, ex, tree)

    def fold_cond(self, c, lcset, n, v):
        return raw('opaque', 'loop-cond', K.close('lam', n, v, subst(c, {lc: raw('bvlc', str(k[1])) for lc, k in lcset.items()})), v)

    def freeze(self, x, live, st, lcs):
        """contents of locations created inside the iteration are inlined"""
        if type(x) is not T or not x.fv:
            return x
        m = {}
        for k in live.heap:
            if k.op == 'loc' and k.args[-1] in x.fv and k not in st.heap:
                m[k] = self.D(k, live)
        return subst(x, m) if m else x

    def havoc(self, st, ce, ch):
        s = St(dict(st.env), dict(st.heap))
        lcs = {}
        for k in sorted(ce):
            init = st.env.get(k, UNDEF)
            if init.op == 'loc':
                # rebinding of a variable that holds a container: follow by value
                init = self.D(init, st)
            lc = fresh('lc', hint(init))
            s.env[k] = lc
            self.lcinit[lc] = init
            lcs[('env', k)] = (lc, init)
        for k in sorted(ch, key=lambda t: t.uid):
            init = st.heap.get(k, k)
            init = self.D(init, st) if init is not k else init
            lc = fresh('lc', hint(init) or ('seq' if False else ''))
            s.heap[k] = lc
            self.lcinit[lc] = init
            lcs[('heap', k)] = (lc, init)
        return s, lcs

    def values_at(self, lcs, ends, n, v):
        """value of each loop-carried variable at the start of iteration v (where it has a closed form)"""
        out = {}
        w = fresh()
        for key, (lc, init) in lcs.items():
            e = ends[key]
            if e is lc:
                out[lc] = init
                continue
            d = numeric_delta(e, lc)
            if d is not None and not any(l.args[-1] in d.fv for l, _ in lcs.values()) and init is not UNDEF:
                out[lc] = add(init, K.mk_sum(v, w, subst(d, {v: w})))
                continue
            c = close_value(lc, init, subst(e, {v: w}), v, w)
            if c is not None and not any(l.args[-1] in c.fv for l, _ in lcs.values()):
                out[lc] = c
        return out

    def close_vars(self, lcs, ends, n, v):
        res = {}
        pending = dict(lcs)
        at, folded = {}, {}
        for _ in range(len(lcs) + 1):
            progress = False
            for key in list(pending):
                lc, init = pending[key]
                e = subst(ends[key], at) if at else ends[key]
                others = [l for k2, (l, _) in lcs.items() if k2 != key]
                if any(l.args[-1] in e.fv for l in others if l not in at):
                    continue
                r = close_value(lc, init, e, n, v)
                if r is None:
                    r = make_fold(n, v, init, e, lc)
                    folded[key] = (lc, init)
                else:
                    w = fresh()
                    a = close_value(lc, init, subst(e, {v: w}), v, w)
                    if a is not None:
                        at[lc] = a
                res[key] = r
                del pending[key]
                progress = True
            if not progress:
                break
        if pending:
            # mutually dependent: one opaque system
            wanted = list(pending)
            while True:
                body = [subst(ends[k], at) for k in pending]
                more = [k for k, (lc, _) in folded.items() if k not in pending and any(lc.args[-1] in b.fv for b in body)]
                if not more:
                    break
                for k in more:
                    pending[k] = folded[k]
            inits = [i for _, i in pending.values()]
            h = max([x.bh for x in body + inits] + [0]) + 1
            names = {lc: raw('bvlc', '%d.%d' % (h, i)) for i, (lc, _) in enumerate(pending.values())}
            body = [subst(b, names) for b in body]
            for i, k in enumerate(pending):
                if k not in wanted:
                    continue
                res[k] = K.close('fold', n, v, raw('tuple', *inits), raw('tuple', *body), num(i), const('%d.' % h))
        return res

    def s_While(self, s, st, fr):
        # induction variable form
        changed_env, changed_heap = set(), set()
        for _ in range(6):
            trial = self.havoc(st, changed_env, changed_heap)
            s1 = trial[0].copy()
            c = self.test(s.test, s1, fr)
            res = self.block(s.body, s1.copy(), fr)
            ce, ch = set(changed_env), set(changed_heap)
            for l in leaves(res):
                if l.st is None:
                    continue
                for k, x in l.st.env.items():
                    if (k not in trial[0].env or x is not trial[0].env[k]) and k[0] != '@':
                        ce.add(k)
                for k, x in l.st.heap.items():
                    if k not in trial[0].heap:
                        if k.op == 'loc' or not self.is_external(k):
                            continue
                        ch.add(k)
                    elif x is not trial[0].heap[k]:
                        ch.add(k)
            if ce == changed_env and ch == changed_heap:
                break
            changed_env, changed_heap = ce, ch
        st_h, lcs = trial
        # i < n with i += 1 on every live path
        live = merge_states(res, ('fall', 'continue'))
        if c.op == 'lt0' and live is not None:
            for key, (lc, init) in lcs.items():
                if key[0] != 'env':
                    continue
                end = live.env.get(key[1], UNDEF)
                if sub(end, lc) is ONE and lc.args[-1] in c.fv:
                    bound = sub(lc, c.args[0])       # c: lc - bound < 0
                    if not any(l.args[-1] in bound.fv for l, _ in lcs.values()):
                        n = sub(bound, init)
                        v = fresh()

                        def inner(s2, key=key, init=init):
                            s2.env[key[1]] = add(init, v)
                            return self.block(s.body, s2, fr)
                        t = self.loop(n, v, inner, st)
                        return maptree(t, lambda l: Leaf('fall', None, l.st) if l.kind == 'break' else l)
        # i < n and <more> with i += 1 on every live path
        if c.op == 'ite' and live is not None:
            for key, (lc, init) in lcs.items():
                if key[0] != 'env' or sub(live.env.get(key[1], UNDEF), lc) is not ONE:
                    continue
                for a in cond_atoms(c):
                    if a.op != 'lt0' or lc.args[-1] not in a.fv or K.cofactor(c, a, False) is not FALSE:
                        continue
                    bound = sub(lc, a.args[0])
                    if any(l.args[-1] in bound.fv for l, _ in lcs.values()):
                        continue
                    n = sub(bound, init)
                    v = fresh()

                    def inner(s2, key=key, init=init, bound=bound):
                        s2.env[key[1]] = add(init, v)
                        more = self.test(s.test, s2, fr)
                        more = K.restrict(more, truth(mk('lt0', sub(add(init, v), bound))))
                        return node(more, self.block(s.body, s2.copy(), fr), Leaf('break', None, s2.copy()))
                    t = self.loop(n, v, inner, st)
                    return maptree(t, lambda l: Leaf('fall', None, l.st) if l.kind == 'break' else l)
        # general while: opaque
        names = {lc: raw('bvlc', '%s%d' % (k[0], i)) for i, (k, (lc, _)) in enumerate(lcs.items())}
        ends = []
        for key, (lc, init) in lcs.items():
            x = UNDEF
            if live is not None:
                x = live.env.get(key[1], UNDEF) if key[0] == 'env' else live.heap.get(key[1], key[1])
                x = self.freeze(x, live, st, lcs)
            ends.append(subst(x, names))
        sysm = raw('tuple', subst(c, names), raw('tuple', *[i for _, i in lcs.values()]), raw('tuple', *ends))
        out = St(dict(st.env), dict(st.heap))
        for i, key in enumerate(lcs):
            x = raw('while', ZERO, sysm, num(i))
            if key[0] == 'env':
                out.env[key[1]] = x
            else:
                out.heap[key[1]] = x
        t = Leaf('fall', None, out)
        ex = [l for l in leaves(res) if l.kind in ('ret', 'raise')]
        for l in ex:
            cc = raw('opaque', 'while-exit', sysm, subst(treecond(res, lambda z: z is l), names))
            val = l.val
            if l.kind == 'ret':
                val = raw('opaque', 'while-ret', sysm, subst(self.D(l.val, l.st), names))
            elif val is not None:
                val = subst(val, names)
            t = node(cc, Leaf(l.kind, val, out), t)
        return t


# ---------------------------------------------------------------------------- helpers
BUILTINS = {'abs', 'all', 'any', 'bool', 'callable', 'dict', 'divmod', 'enumerate', 'exec', 'filter', 'float', 'frozenset',
            'getattr', 'hasattr', 'hash', 'id', 'int', 'isinstance', 'issubclass', 'iter', 'len', 'list', 'map', 'max', 'min',
            'next', 'object', 'open', 'pow', 'print', 'range', 'repr', 'reversed', 'round', 'set', 'setattr', 'sorted', 'str',
            'sum', 'super', 'tuple', 'type', 'vars', 'zip', 'eval', 'delattr', 'bytes', 'complex', 'slice', 'format', 'ord', 'chr',
            'unicode', 'basestring', 'xrange', 'reduce', 'input', 'globals', 'locals', 'property', 'staticmethod', 'classmethod',
            'NotImplemented', 'Ellipsis', '__name__', '__file__', 'compile'}
EXC = {'ValueError', 'KeyError', 'TypeError', 'AttributeError', 'IOError', 'OSError', 'RuntimeError', 'NotImplementedError',
       'IndexError', 'Exception', 'AssertionError', 'ZeroDivisionError', 'StopIteration', 'ArithmeticError', 'LookupError',
       'ImportError', 'NameError', 'FileNotFoundError', 'UserWarning', 'OverflowError'}
BUILTINS |= EXC


def cond_atoms(c):
    out = []

    def go(t):
        if t.op == 'ite':
            if t.args[0] not in out:
                out.append(t.args[0])
            go(t.args[1])
            go(t.args[2])
    go(c)
    return out


def is_exception(repo, cls):
    for b in cls.node.bases:
        d = dotted(b)
        if d in EXC:
            return True
        r = repo.lookup(cls.module, d) if d else None
        if isinstance(r, Class) and is_exception(repo, r):
            return True
    return cls.name.endswith('Error')


def exc_names(t):
    if t is None:
        return {'*'}
    if isinstance(t, ast.Tuple):
        return set(x for e in t.elts for x in exc_names(e))
    d = dotted(t)
    return {d.rsplit('.', 1)[-1]} if d else {'?'}


def is_generator(f):
    if isinstance(f, ast.Lambda):
        return False

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if go(c):
                return True
        return False
    return go(f)


def target_load(t):
    import copy
    n = copy.deepcopy(t)
    for x in ast.walk(n):
        if hasattr(x, 'ctx') and x is n:
            x.ctx = ast.Load()
    return n


def leaf_terms(t):
    if t.op == 'ite':
        for x in leaf_terms(t.args[1]):
            yield x
        for x in leaf_terms(t.args[2]):
            yield x
    else:
        yield t


def hint(t):
    if t.op == 'lc':
        return t.args[0]
    if K.is_str(t):
        return 'str'
    if is_seq(t):
        return 'seq'
    if t.op == 'set':
        return 'set'
    if t.op in ('dict', 'acc', 'upd'):
        return 'dict'
    if t.op in ('groups', 'gaug'):
        return 'groups'
    if t.op in ('num', 'poly', 'sum', 'prod'):
        return 'num'
    if t.op == 'ite':
        hs = set(hint(x) for x in leaf_terms(t) if x is not UNDEF)
        if len(hs) == 1:
            return hs.pop()
    return ''


def has_array(t):
    return t.op == 'nda' or t.op == 'ite' and (has_array(t.args[1]) or has_array(t.args[2]))


def is_seq(t):
    if t.op in K.SEQ or t.op == 'unordered':
        return True
    if t.op == 'lc' and t.args[0] == 'seq':
        return True
    if t.op == 'ite':
        return is_seq(t.args[1]) or is_seq(t.args[2])
    return False


def set_seq(t):
    return t.args[0] if t.op == 'set' else t


def dparts(d):
    s = d.args[0]
    return list(s.args) if s.op == 'cat' else [s]


def dict_set(c, k, v):
    """container c with c[k] = v"""
    if c.op == 'ite':
        return cond(c.args[0], dict_set(c.args[1], k, v), dict_set(c.args[2], k, v))
    if k.op == 'ite':
        return lift(lambda kk: dict_set(c, kk, v), [k])
    if c.op == 'dict':
        ps = dparts(c) if c.args[0] is not EMPTY else []
        new = one(raw('pair', k, v))
        if all(p.op == 'one' for p in ps):
            if any(p.args[0].args[0] is k for p in ps):
                ps = [new if p.args[0].args[0] is k else p for p in ps]
            else:
                ps.append(new)
        else:
            ps.append(new)
        return raw('dict', mk_cat(ps))
    if c.op in ('cat', 'one') and k.op == 'num':
        ps = list(c.args) if c.op == 'cat' else [c]
        if all(p.op == 'one' for p in ps) and -len(ps) <= k.args[0] < len(ps):
            ps[int(k.args[0])] = one(v)
            return mk_cat(ps)
    if v.op == 'ite':
        return lift(lambda x: dict_set(c, k, x), [v])
    # c[k] = c[k] + d
    old = upd_index(c, k)
    if is_seq(v) and old.op == 'idx':
        d = strip_prefix(v, old)
        if d is not None and old.uid not in subterm_ids(d):
            return raw('gaug', c, k, d)
    if v.op in ('poly', 'idx') and old.op == 'idx':
        d = sub(v, old)
        if old.uid not in subterm_ids(d):
            return aug(c, k, d)
    return upd(c, one(raw('pair', k, v)))


def dict_update(c, other):
    if other.op == 'ite':
        return cond(other.args[0], dict_update(c, other.args[1]), dict_update(c, other.args[2]))
    if other.op == 'dict':
        for p in dparts(other) if other.args[0] is not EMPTY else []:
            if p.op == 'one':
                c = dict_set(c, *p.args[0].args)
            elif c.op == 'dict':
                c = raw('dict', mk_cat([c.args[0], p]))
            else:
                c = upd(c, p)
        return c
    return raw('mut', 'update', c, other)


def upd(c, pairs):
    if c.op == 'upd':
        return upd(c.args[0], mk_cat([c.args[1], pairs]))
    if c.op == 'dict':
        return raw('dict', mk_cat([c.args[0], pairs]))
    if c.op == 'ite' and pairs.op != 'ite' and all(x.op == 'dict' for x in leaf_terms(c)) and len(set(leaf_terms(c))) <= 4:
        return lift(lambda x: upd(x, pairs), [c])
    # full overwrite of a list
    if pairs.op == 'for':
        v, (b,) = K.open_binder(pairs)
        b = at_key(b, v)
        if b is not None:
            base_len = arr_len(c)
            if base_len is not None and base_len is pairs.args[0]:
                return mk_for(pairs.args[0], v, b)
    return raw('upd', c, pairs)


def again(c, pairs):
    """an update whose parts have become known"""
    if c.op in ('cat', 'one') and all(p.op == 'one' for p in (c.args if c.op == 'cat' else (c,))):
        ps = pairs.args if pairs.op == 'cat' else (pairs,)
        if all(p.op == 'one' and p.args[0].op == 'pair' and p.args[0].args[0].op == 'num' for p in ps):
            for p in ps:
                c = dict_set(c, *p.args[0].args)
            return c
    if pairs is EMPTY:
        return c
    return upd(c, pairs)


K.CONS['upd'] = again


def at_key(b, v):
    """one value at the key v, in every case"""
    if b.op == 'one' and b.args[0].op == 'pair' and b.args[0].args[0] is v:
        return one(b.args[0].args[1])
    if b.op == 'one' and b.args[0].op == 'ite':
        c, x, y = b.args[0].args
        x, y = at_key(one(x), v), at_key(one(y), v)
        return cond(c, x, y) if x is not None and y is not None else None
    if b.op == 'ite':
        x, y = at_key(b.args[1], v), at_key(b.args[2], v)
        if x is not None and y is not None:
            return cond(b.args[0], x, y)
    return None


def arr_len(c):
    if c.op == 'acc' and c.args[0].op == 'arr':
        s = c.args[0].args[0]
        if s.op == 'tuple':
            return s.args[0]
        return s
    if is_seq(c):
        return length(c)
    return length(c)


def upd_index(c, k):
    if c.op == 'ite' or k.op == 'ite':
        return lift(upd_index, [c, k])
    if c.op == 'groups' and c.args[0].op == 'dict' and c.args[0].args[0] is EMPTY:
        return of_key(c.args[1], k)
    if c.op == 'upd' and K.PARTITION is not None:
        return index(c, k)
    if c.op == 'upd':
        ps = list(c.args[1].args) if c.args[1].op == 'cat' else [c.args[1]]
        for p in reversed(ps):
            if p.op == 'one' and p.args[0].op == 'pair':
                if p.args[0].args[0] is k:
                    return p.args[0].args[1]
                if K.is_const(p.args[0].args[0]) and K.is_const(k):
                    continue
            elif p.op == 'for':
                r = K.dict_get(p, k)
                if r is not None:
                    return r
            return raw('idx', c, k)
        return index(c.args[0], k)
    return index(c, k)


def entry(c, k):
    """what is known to stand under k"""
    if c.op == 'upd':
        ps = list(c.args[1].args) if c.args[1].op == 'cat' else [c.args[1]]
        p = ps[-1]
        return p.args[0].args[1] if p.op == 'one' and p.args[0].op == 'pair' and p.args[0].args[0] is k else None
    if c.op == 'for':
        _, (b,) = K.open_binder(c)
        return b.args[0] if b.op == 'one' and b.args[0].op == 'loc' else None
    if c.op in ('cat', 'one') and k.op == 'num' and k.args[0].denominator == 1:
        ps = list(c.args) if c.op == 'cat' else [c]
        i = int(k.args[0])
        ps = ps[i:] + ps[:i] if i < 0 else ps
        own = ps[:abs(i)] if i < 0 else ps[:i + 1]
        if len(own) > 0 and -len(ps) <= i < len(ps) and all(p.op == 'one' for p in own):
            return own[0 if i < 0 else i].args[0]
    return None


def aug(c, k, d):
    """c[k] += d"""
    if c.op == 'ite' or d.op == 'ite':
        return lift(lambda x, y: aug(x, k, y), [c, d])
    if c.op == 'acc':
        return raw('acc', c.args[0], add(c.args[1], mul(d, raw('unit', k))))
    if c.op == 'dict' and K.dict_get(c.args[0], k) is not None:
        return dict_set(c, k, add(K.dict_get(c.args[0], k), d))
    if c.op == 'aug' and c.args[1] is k:
        return raw('aug', c.args[0], k, add(c.args[2], d))
    return raw('aug', c, k, d)


def acc_pattern(c, a, b):
    """k in X ? X[k] += d : X[k] = d   ->  accumulate"""
    if c.op == 'in' and a.op == 'aug' and b.op in ('upd', 'dict'):
        X, k, d = a.args
        if c.args[0] is k and c.args[1] is X:
            if b.op == 'upd' and b.args[0] is X and b.args[1] is one(raw('pair', k, d)):
                return raw('acc', X, mul(d, raw('unit', k)))
    return None


_old_push = K.push_ite


def _push(c, a, b):
    r = acc_pattern(c, a, b)
    if r is not None:
        return r
    if a.op == 'acc' and b.op == 'acc' and a.args[0] is b.args[0]:
        return raw('acc', a.args[0], cond(c, a.args[1], b.args[1]))
    return _old_push(c, a, b)


K.push_ite = _push


def subterm_ids(t):
    seen = set()

    def go(x):
        if x.uid in seen:
            return
        seen.add(x.uid)
        for c in K.children(x):
            go(c)
    go(t)
    return seen


def fmt(v, spec):
    if v.op == 'ite':
        return lift(lambda x: fmt(x, spec), [v])
    if spec in ('', 's', 'd'):
        if v.op == 'num':
            q = v.args[0]
            return const(str(int(q))) if q.denominator == 1 else raw('fmt', '', v)
        if v.op in ('const',):
            return const(v.args[1].strip("'"))
        return v
    if len(spec) >= 3 and spec[0] == '0' and spec[-1] == 'd' and spec[1:-1].isdigit():
        # zeros in front of an integer
        return mk('m', 'zfill', raw('scat', v), num(int(spec[1:-1])))
    return raw('fmt', spec, v)


def absv(x):
    if x.op == 'ite':
        return lift(absv, [x])
    if x.op == 'num':
        return num(abs(x.args[0]))
    d = K.to_poly(x)
    lead = max(d, key=K.mono_key)
    if d[lead] < 0:
        x = neg(x)
    return raw('abs', x)


def eqv(a, b):
    return eq(a, b)


def reverse(s):
    s = K.seq_of(s)
    if s.op == 'ite':
        return cond(s.args[0], reverse(s.args[1]), reverse(s.args[2]))
    if s.op == 'one':
        return s
    if s.op == 'cat':
        return mk_cat([reverse(p) for p in reversed(s.args)])
    if s.op == 'rev':
        return s.args[0]
    if s.op == 'for':
        v, (b,) = K.open_binder(s)
        w = fresh()
        n = s.args[0]
        return mk_for(n, w, reverse(subst(b, {v: sub(sub(n, ONE), w)})))
    v = fresh()
    n = length(s)
    return mk_for(n, v, one(index(s, sub(sub(n, ONE), v))))


def joined(parts):
    """parts of one sequence put together"""
    r = mk_cat(parts)
    out = []
    for p in r.args if r.op == 'cat' else [r]:
        if out and p.op == 'slice' and out[-1].op == 'slice':
            a, b = out[-1].args, p.args
            if a[0] is b[0] and a[1] is NONE and b[2] is NONE and a[3] is NONE and b[3] is NONE and a[2] is not NONE and b[1] is not NONE:
                s, i = a[0], a[2]
                if i is b[1]:
                    out[-1] = s
                    continue
                if i.op == 'm' and i.args[0] == 'index' and i.args[1] is s and b[1] is add(i, ONE) and K.DISTINCT is not None and K.DISTINCT(s):
                    v, x = fresh(), i.args[2]
                    out[-1] = mk_for(length(s), v, cond(eq(index(s, v), x), EMPTY, one(index(s, v))))
                    continue
        out.append(p)
    return mk_cat(out)


def transposed(s):
    """zip(*s)"""
    s = K.seq_of(s)
    if s.op == 'for':
        v, (b,) = K.open_binder(s)
        if b.op == 'one' and b.args[0].op == 'tuple':
            return mk_cat([one(mk_for(s.args[0], v, one(x))) for x in b.args[0].args])
    return mk('call', 'zip*', s)


def minus(a, b, common=False):
    """elements of a that are not (common: that are) in b"""
    if a.op == 'ite' or b.op == 'ite':
        return lift(lambda x, y: minus(x, y, common), [a, b])
    return K.mk_set(flatmap(K.seq_of(set_seq(a)), lambda x: cond(contains(x, b) if not common else lnot(contains(x, b)), EMPTY, one(x))))


def flatmap(s, f):
    if s.op == 'one':
        return f(s.args[0])
    if s.op == 'cat':
        return mk_cat([flatmap(p, f) for p in s.args])
    if s.op == 'ite':
        return cond(s.args[0], flatmap(s.args[1], f), flatmap(s.args[2], f))
    if s.op == 'for':
        v, (b,) = K.open_binder(s)
        return mk_for(s.args[0], v, flatmap(b, f))
    v = fresh()
    return mk_for(length(s), v, f(index(s, v)))


def seq_elem(s):
    if s.op == 'one':
        return s.args[0]
    if s.op == 'cat' and s.args:
        return seq_elem(s.args[0])
    if s.op == 'for':
        return seq_elem(s.args[1])
    return None


def prod_seq(s):
    s = K.seq_of(s)
    if s.op == 'one':
        return s.args[0]
    if s.op == 'cat':
        r = ONE
        for p in s.args:
            r = mul(r, prod_seq(p))
        return r
    if s.op == 'for':
        v, (b,) = K.open_binder(s)
        return K.mk_prod(s.args[0], v, prod_seq(b))
    if s.op == 'ite':
        return cond(s.args[0], prod_seq(s.args[1]), prod_seq(s.args[2]))
    v = fresh()
    return K.mk_prod(length(s), v, index(s, v))


def first_match(n, v, c, val):
    """val at the first v < n with c"""
    if val.op == 'ite':
        k = K.closed_cond(val, v)
        if k is not None:
            return cond(k, first_match(n, v, c, K.side(val, k, True)), first_match(n, v, c, K.side(val, k, False)))
    if val.op == 'tuple':
        return raw('tuple', *[first_match(n, v, c, x) if depends(x, v) else x for x in val.args])
    # under the exit condition
    if c is TRUE:
        return subst(val, {v: ZERO})
    i = raw_first(n, v, c)
    return subst(val, {v: i})


def raw_first(n, v, c):
    return K.close('first', n, v, c)


def first_cond(n, v, exitc, c):
    if c is exitc:
        return TRUE
    return subst(c, {v: raw_first(n, v, exitc)})


def first_of(s, default):
    s = K.seq_of(s)
    if s.op == 'one':
        return s.args[0]
    if s.op == 'cat':
        if not s.args:
            return default
        return first_of(s.args[0], first_of(mk_cat(s.args[1:]), default))
    if s.op == 'ite':
        return cond(s.args[0], first_of(s.args[1], default), first_of(s.args[2], default))
    if s.op == 'for':
        v, (b,) = K.open_binder(s)
        c = truth(b)
        val = first_of(b, UNDEF)
        return cond(K.mk_any(s.args[0], v, c), first_match(s.args[0], v, c, val), default)
    return cond(truth(s), index(s, ZERO), default)


def simplify_exits(t):
    """merge exits that are indistinguishable (same exception type)"""
    if isinstance(t, Leaf):
        return t
    a, b = simplify_exits(t.t), simplify_exits(t.f)
    if isinstance(a, Leaf) and isinstance(b, Leaf) and a.kind == b.kind == 'raise' and a.val is b.val:
        return a
    return Node(t.c, a, b)


def strip_prefix(e, lc):
    """e = lc ++ rest -> rest"""
    if e is lc:
        return EMPTY
    if e.op == 'cat' and e.args and e.args[0] is lc:
        r = mk_cat(e.args[1:])
        return r
    if e.op == 'ite':
        a, b = strip_prefix(e.args[1], lc), strip_prefix(e.args[2], lc)
        if a is not None and b is not None:
            return cond(e.args[0], a, b)
    return None


def strip_suffix(e, lc):
    if e is lc:
        return EMPTY
    if e.op == 'cat' and e.args and e.args[-1] is lc:
        return mk_cat(e.args[:-1])
    if e.op == 'ite':
        a, b = strip_suffix(e.args[1], lc), strip_suffix(e.args[2], lc)
        if a is not None and b is not None:
            return cond(e.args[0], a, b)
    return None


def strip_str(e, lc):
    if e is lc:
        return const('')
    if e.op == 'scat' and e.args[0] is lc:
        return K.mk_scat(list(e.args[1:]))
    if e.op == 'ite':
        a, b = strip_str(e.args[1], lc), strip_str(e.args[2], lc)
        if a is not None and b is not None:
            return cond(e.args[0], a, b)
    return None


def numeric_delta(e, lc):
    if e.op in ('cat', 'one', 'for', 'str', 'scat', 'dict', 'set', 'acc', 'upd', 'tuple') or hint(e) in ('seq', 'str', 'dict', 'set'):
        return None
    if not (lc.args[-1] in e.fv):
        return None

    def leaf(x):
        if x is UNDEF:
            return None
        if x is lc:
            return ZERO
        if x.op in ('poly',):
            return sub(x, lc)
        return None
    if e.op == 'ite':
        ls = list(leaf_terms(e))
        if any(leaf(x) is None for x in ls):
            return None
        d = lift(lambda x: leaf(x), [e])
    else:
        d = leaf(e)
    if d is None or lc.args[-1] in d.fv:
        return None
    return d


def numeric_factor(e, lc):
    def leaf(x):
        if x is lc:
            return ONE
        if x.op == 'poly' and len(x.args[0]) == 1:
            (c, m), = x.args[0]
            if any(a is lc and k is ONE for a, k in m):
                return div(x, lc)
        return None
    ls = list(leaf_terms(e))
    if any(leaf(x) is None for x in ls) or not ls:
        return None
    f = lift(lambda x: leaf(x), [e]) if e.op == 'ite' else leaf(e)
    if lc.args[-1] in f.fv:
        return None
    return f


def acc_delta(e, lc):
    if e is lc:
        return ZERO
    if e.op == 'acc' and e.args[0] is lc:
        return e.args[1]
    if e.op == 'ite':
        a, b = acc_delta(e.args[1], lc), acc_delta(e.args[2], lc)
        if a is not None and b is not None:
            return cond(e.args[0], a, b)
    return None


def aug_delta(e, lc):
    if e is lc:
        return ZERO
    if e.op == 'aug':
        r = aug_delta(e.args[0], lc)
        if r is not None:
            return add(r, mul(e.args[2], raw('unit', e.args[1])))
    if e.op == 'augs':
        r = aug_delta(e.args[0], lc)
        if r is not None and lc.args[-1] not in e.args[1].fv:
            return add(r, e.args[1])
    if e.op == 'ite':
        a, b = aug_delta(e.args[1], lc), aug_delta(e.args[2], lc)
        if a is not None and b is not None:
            return cond(e.args[0], a, b)
    return None


def group_delta(e, lc):
    """sequence of (key, element) pairs by which the groups in lc are extended"""
    if e is lc:
        return EMPTY
    if e.op == 'gaug':
        r = group_delta(e.args[0], lc)
        if r is not None:
            return mk_cat([r, flatmap(e.args[2], lambda x: one(raw('pair', e.args[1], x)))])
    if e.op == 'ite':
        a, b = group_delta(e.args[1], lc), group_delta(e.args[2], lc)
        if a is not None and b is not None:
            return cond(e.args[0], a, b)
    return None


def grouped(init, pairs):
    """the dictionary init with the elements of pairs appended to the lists under their keys"""
    if init.op == 'groups':
        return raw('groups', init.args[0], mk_cat([init.args[1], pairs]))
    if init.op != 'dict' or init.args[0] is EMPTY:
        return raw('groups', init, pairs)

    def one_group(p):
        k, x = p.args[0].args
        return one(raw('pair', k, mk_cat([x, of_key(pairs, k)])))
    out = []
    for p in dparts(init):
        if p.op == 'one':
            out.append(one_group(p))
        elif p.op == 'for':
            w, (b,) = K.open_binder(p)
            if b.op != 'one' or b.args[0].op != 'pair' or not is_seq(b.args[0].args[1]):
                return raw('groups', init, pairs)
            out.append(mk_for(p.args[0], w, one_group(b)))
        else:
            return raw('groups', init, pairs)
    return raw('dict', mk_cat(out))


def of_key(pairs, k):
    def pick(x):
        if x.op == 'ite':
            return cond(x.args[0], pick(x.args[1]), pick(x.args[2]))
        if x.op == 'pair':
            return cond(eqv(x.args[0], k), one(x.args[1]), EMPTY)
        return raw('opaque', 'group', x, k)
    return flatmap(pairs, pick)


def upd_delta(e, lc):
    if e is lc:
        return EMPTY
    if e.op == 'upd' and e.args[0] is lc:
        return e.args[1]
    if e.op == 'ite':
        a, b = upd_delta(e.args[1], lc), upd_delta(e.args[2], lc)
        if a is not None and b is not None:
            return cond(e.args[0], a, b)
    return None


def set_delta(e, lc):
    if e is lc:
        return EMPTY
    if e.op == 'set':
        s = e.args[0]
        ps = list(s.args) if s.op == 'cat' else [s]
        if lc in ps:
            return mk_cat([p for p in ps if p is not lc])
    if e.op == 'ite':
        a, b = set_delta(e.args[1], lc), set_delta(e.args[2], lc)
        if a is not None and b is not None:
            return cond(e.args[0], a, b)
    return None


def cond_has(e, lc):
    """does a condition of the decision diagram mention lc"""
    if e.op != 'ite':
        return False
    return lc.args[-1] in e.args[0].fv or cond_has(e.args[1], lc) or cond_has(e.args[2], lc)


def uniq_pattern(e, lc):
    """x in lc ? lc : lc + [x]  (possibly under further conditions) -> sequence of candidates"""
    if e is lc:
        return EMPTY
    if e.op == 'ite':
        c, a, b = e.args
        if c.op == 'in' and c.args[1] is lc:
            x = c.args[0]
            if a is lc and b.op == 'cat' and len(b.args) == 2 and b.args[0] is lc and b.args[1] is one(x):
                return one(x)
            return None
        if lc.args[-1] in c.fv:
            return None
        p, q = uniq_pattern(a, lc), uniq_pattern(b, lc)
        if p is not None and q is not None:
            return cond(c, p, q)
    return None


def whole(a):
    """an array that was filled entry by entry, as the sequence of its entries"""
    if K.ENTRYWISE and a.args[0].op == 'arr' and len(a.args[0].args) == 1:
        w = fresh()
        x = K.units_at(a.args[1], w)
        if x is not None:
            return raw('nda', mk_for(a.args[0].args[0], w, one(x)))
    return a


def same_keys(e, lc, init):
    """adding to entries that exist leaves the keys of a table as they were"""
    def only_adds(x):
        if x is lc:
            return True
        if x.op == 'ite':
            return only_adds(x.args[1]) and only_adds(x.args[2])
        return x.op == 'aug' and only_adds(x.args[0]) and lc.args[-1] not in x.args[1].fv and lc.args[-1] not in x.args[2].fv
    if not only_adds(e):
        return e
    return subst(e, {c: K.contains(c.args[0], init) for c in K.subterms(e) if c.op == 'in' and c.args[1] is lc and lc.args[-1] not in c.args[0].fv})


def close_value(lc, init, e, n, v):
    """value of a loop-carried variable after n iterations, or None"""
    if e is lc:
        return init
    has = lc.args[-1] in e.fv
    if has and K.NAME_SORT is not None:
        e2 = fresh_keys(lc, init, e, n, v)
        if e2 is not None:
            return e2
        e2 = own_keys(lc, init, e, n, v)
        if e2 is not None:
            return e2
    if not has:
        # assigned afresh in every iteration
        last = subst(e, {v: sub(n, ONE)})
        if init is UNDEF:
            return last
        return cond(eq(n, ZERO), init, last)
    if init.op == 'dict' and cond_has(e, lc):
        e = same_keys(e, lc, init)
    if cond_has(e, lc):
        d = first_wins(e, lc, v)
        if d is not None and init.op == 'dict' and init.args[0] is EMPTY:
            return upd(init, mk_for(n, v, d))
        u = uniq_pattern(e, lc)
        if u is not None and init.op in ('cat', 'one', 'for', 'uniq'):
            return raw('uniq', mk_cat([init, mk_for(n, v, u)]))
        # running maximum written with a comparison becomes max() before we get here
        return first_pattern(lc, init, e, n, v)
    d = strip_prefix(e, lc) if hint(e) in ('seq', '') else None
    if d is not None and lc.args[-1] not in d.fv and (e.op != 'lc'):
        if hint(init) in ('str',):
            pass
        return mk_cat([init, mk_for(n, v, d)])
    d = strip_suffix(e, lc)
    if d is not None and lc.args[-1] not in d.fv:
        w = fresh()
        return mk_cat([mk_for(n, w, subst(d, {v: sub(sub(n, ONE), w)})), init])
    d = strip_str(e, lc)
    if d is not None and lc.args[-1] not in d.fv:
        return K.mk_scat([init, K.mk_join(const(''), mk_for(n, v, one(d)))])
    d = acc_delta(e, lc)
    if d is not None and lc.args[-1] not in d.fv:
        if init.op == 'acc':
            return whole(raw('acc', init.args[0], add(init.args[1], K.mk_sum(n, v, d))))
        return raw('acc', init, K.mk_sum(n, v, d))
    d = own_entry(lc, init, e, n, v)
    if d is not None:
        return d
    d = aug_delta(e, lc)
    if d is not None and lc.args[-1] not in d.fv:
        if init.op == 'acc':
            return whole(raw('acc', init.args[0], add(init.args[1], K.mk_sum(n, v, d))))
        u = K.mk_sum(n, v, d)
        if K.ENTRYWISE and init.op == 'for':
            w = fresh()
            x = K.units_at(u, w)
            if x is not None:
                return mk_for(K.length(init), w, one(add(index(init, w), x)))
        return raw('augs', init, u)
    d = group_delta(e, lc)
    if d is not None and lc.args[-1] not in d.fv:
        return grouped(init, mk_for(n, v, d))
    d = upd_delta(e, lc)
    if d is not None and lc.args[-1] not in d.fv:
        return upd(init, mk_for(n, v, d))
    d = set_delta(e, lc)
    if d is not None and lc.args[-1] not in d.fv:
        return K.mk_set(mk_cat([set_seq(init), mk_for(n, v, d)]))
    d = numeric_delta(e, lc)
    if d is not None:
        return add(init, K.mk_sum(n, v, d))
    d = numeric_factor(e, lc)
    if d is not None:
        return mul(init, K.mk_prod(n, v, d))
    # running max / min
    if e.op in ('max', 'min') and lc in e.args and init is not UNDEF:
        rest = [a for a in e.args if a is not lc]
        if all(lc.args[-1] not in a.fv for a in rest):
            return mk(e.op + 'of', mk_cat([one(init), mk_for(n, v, mk_cat([one(a) for a in rest]))]))
    return first_pattern(lc, init, e, n, v)


def own_entry(lc, init, e, n, v):
    """an iteration reads and replaces one entry only"""
    if e.op == 'aug' and e.args[0] is lc and e.args[1] is v and is_seq(init) and length(init) is n and lc.args[-1] not in e.args[2].fv:
        return upd(init, mk_for(n, v, one(raw('pair', v, add(index(init, v), e.args[2])))))
    d = upd_delta(e, lc)
    if d is None:
        return None
    keys = set(p.args[0].args[0] for p in leaf_terms_s(d) if p.op == 'one' and p.args[0].op == 'pair')
    if len(keys) != 1 or any(p.op != 'one' and p is not EMPTY or p.op == 'one' and p.args[0].op != 'pair' for p in leaf_terms_s(d)):
        return None
    k = keys.pop()
    if lc.args[-1] in k.fv:
        return None
    old = raw('idx', lc, k)
    if any(p is EMPTY for p in leaf_terms_s(d)) and not is_seq(init):
        return None
    x = lift(lambda p: p.args[0].args[1] if p.op == 'one' else old, [d])
    if k is v and is_seq(init):
        x = subst(x, {old: index(init, v)})
        return None if lc.args[-1] in x.fv else upd(init, mk_for(n, v, one(raw('pair', v, x))))
    if depends(k, v):
        return None
    first = index(init, k)
    own = fresh('lc', hint(first))
    x = subst(x, {old: own})
    if lc.args[-1] in x.fv:
        return None
    r = close_value(own, first, x, n, v)
    return None if r is None else dict_set(init, k, r)


def region(k, v, s=None):
    """the keys that belong to the v-th iteration alone: one name of a list, or the names of one class of a partition"""
    if k.op != 'idx' or depends(k.args[0], v) and k.args[1] is v:
        return None
    if k.args[1] is v:
        return k if K.DISTINCT is not None and (K.DISTINCT(k.args[0]) or member(k.args[0])) else None
    x = k.args[0]
    if member(x) and x.args[1].op == 'idx' and x.args[1].args[1] is v and not depends(x.args[1].args[0], v) and K.DISTINCT(x.args[1].args[0]):
        return x
    return None


def member(x):
    """one class of a partition of names"""
    return x.op == 'idx' and K.PARTITION is not None and K.PARTITION(x.args[0])


def completed(d, k, old):
    """one value under k in every case"""
    if d is EMPTY:
        return old
    if d.op == 'one' and d.args[0].args[0] is k:
        return d.args[0].args[1]
    if d.op == 'ite':
        a, b = completed(d.args[1], k, old), completed(d.args[2], k, old)
        return cond(d.args[0], a, b) if a is not None and b is not None else None
    if d.op == 'cat':
        return completed(d.args[-1], k, completed(mk_cat(d.args[:-1]), k, old))
    return None


def own_keys(lc, init, e, n, v):
    """a dictionary whose entries are replaced one by one (or class by class), each by something made from the entries it replaces"""
    if K.PARTITION is None or is_seq(init) or init.op in ('num', 'poly', 'str', 'tuple', 'arr'):
        return None
    reg = []

    def same(k):
        r = region(k, v)
        if r is None or reg and reg[0] is not r:
            return False
        reg.append(r)
        return True

    def writes(p):
        if p is EMPTY:
            return True
        if p.op == 'cat':
            return all(writes(x) for x in p.args)
        if p.op == 'ite':
            return writes(p.args[1]) and writes(p.args[2])
        if p.op == 'one':
            return p.args[0].op == 'pair' and same(p.args[0].args[0])
        if p.op == 'for':
            _, (b,) = K.open_binder(p)
            return writes(b)
        return False
    d = upd_delta(e, lc)
    if d is None or not writes(d) or not reg:
        return None
    ok = [True]

    def reads(t):
        if lc.args[-1] not in t.fv and t is not lc:
            return
        if t.op == 'idx' and t.args[0] is lc:
            if not same(t.args[1]):
                ok[0] = False
            reads(t.args[1])
            return
        if t is lc:
            ok[0] = False
            return
        if t.op in K.BINDERS:
            v2, bs = K.open_binder(t)
            for b in bs:
                reads(b)
            reads(t.args[0])
            return
        for a in K.children(t):
            reads(a)
    reads(d)
    if not ok[0]:
        return None
    d = subst(d, {lc: init})
    if reg[0].args[1] is v:
        x = completed(d, reg[0], index(init, reg[0]))
        if x is not None:
            d = one(raw('pair', reg[0], x))
    return upd(init, mk_for(n, v, d))


def number(s):
    try:
        return Fraction(s)
    except (ValueError, ZeroDivisionError, TypeError):
        return None


def first_wins(e, lc, v):
    """entries added only for new keys, where a repeated key would get the same value"""
    if not (e.op == 'ite' and e.args[1] is lc and e.args[0].op == 'in' and e.args[0].args[1] is lc):
        return None
    x = e.args[2]
    if not (x.op == 'upd' and x.args[0] is lc and x.args[1].op == 'one' and x.args[1].args[0].op == 'pair'):
        return None
    k, val = x.args[1].args[0].args
    if k is not e.args[0].args[0] or lc.args[-1] in k.fv or lc.args[-1] in val.fv:
        return None
    h = fresh('h')
    if depends(val, v) and depends(subst(val, {k: h}), v) and not SYM.injective(k, v) and not (k.op == 'idx' and k.args[1] is v and K.DISTINCT(k.args[0]) and not depends(k.args[0], v)):
        return None
    return x.args[1]


def fresh_keys(lc, init, e, n, v):
    """a dictionary filled over a list of distinct names it does not contain yet"""
    if init.op != 'dict':
        return None
    x = e
    if x.op == 'ite' and x.args[1] is lc and x.args[0].op == 'in' and x.args[0].args[1] is lc:
        k0, x = x.args[0].args[0], x.args[2]
    else:
        k0 = None
    if not (x.op == 'upd' and x.args[0] is lc and x.args[1].op == 'one' and x.args[1].args[0].op == 'pair'):
        return None
    k, val = x.args[1].args[0].args
    if k0 is not None and k0 is not k:
        return None
    if not SYM.injective(k, v) and (k.op != 'idx' or k.args[1] is not v or not K.DISTINCT(k.args[0]) or depends(k.args[0], v) or n is not length(k.args[0])):
        return None
    ks = K.NAME_SORT(k)
    for p in dparts(init) if init.args[0] is not EMPTY else []:
        if p.op == 'one':
            q = p.args[0].args[0]
        else:
            _, (b,) = K.open_binder(p) if p.op == 'for' else (None, (None,))
            if b is None or b.op != 'one' or b.args[0].op != 'pair':
                return None
            q = b.args[0].args[0]
        s2 = K.NAME_SORT(q)
        if s2 is None or s2 == ks:
            return None
    val = other_lookups(val, lc, init, ks)
    if val is None or lc.args[-1] in val.fv:
        return None
    return raw('dict', mk_cat([init.args[0], mk_for(n, v, one(raw('pair', k, val)))]))


def other_lookups(t, lc, init, ks):
    """t with lc[x] replaced by init[x] where x cannot be one of the keys being written"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if lc.args[-1] not in x.fv:
            r = x
        elif x.op == 'idx' and x.args[0] is lc:
            q = go(x.args[1])
            s2 = K.NAME_SORT(q)
            r = index(init, q) if s2 is not None and s2 != ks else raw('idx', lc, q)
        elif x.op in K.BINDERS:
            v, bodies = K.open_binder(x)
            r = K.mkb(x.op, go(x.args[0]), v, *[goa(b) for b in bodies])
        else:
            r = K.mk(x.op, *[goa(a) for a in x.args])
        memo[x] = r
        return r

    def goa(a):
        if type(a) is T:
            return go(a)
        if type(a) is tuple:
            return tuple(goa(b) for b in a)
        return a
    return go(t)


def make_fold(n, v, init, e, lc):
    name = 'self%d' % (max(init.bh, e.bh) + 1)
    return K.close('fold', n, v, init, subst(e, {lc: raw('bvlc', name)}), const(name))


def close_loop_value(lc, init, e, n, v):
    r = close_value(lc, init, e, n, v)
    if r is None:
        r = make_fold(n, v, init, e, lc)
    return r


def first_pattern(lc, init, e, n, v):
    """flags:  c ? const : lc ;  general last match"""
    if e.op == 'ite' and not cond_has(e, lc):
        ls = set(leaf_terms(e))
        others = [x for x in ls if x is not lc]
        if lc in ls and len(others) == 1 and lc.args[-1] not in others[0].fv:
            x = others[0]
            c = lift(lambda y: TRUE if y is x else FALSE, [e])
            if not depends(x, v):
                return cond(K.mk_any(n, v, c), x, init)
            i = K.close('lastm', n, v, c)
            return cond(K.mk_any(n, v, c), subst(x, {v: i}), init)
    if K.is_bool_lc(e, lc) if hasattr(K, 'is_bool_lc') else False:
        return None
    return None


K.SETMINUS = minus
