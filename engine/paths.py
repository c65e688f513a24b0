"""Path-sensitive summaries: every path through a function, with the conditions that hold on it.

Expressions, calls and simple loops are lifted by interp.Interp; this module adds
* loops that cannot be summarised: the loop-carried state is replaced by unknowns (constants are told apart, counters and
  variables that always move together keep their relation) and the body is followed once from every such state;
* exceptions: every statement that calls something may fail, with the state from before it; handlers and 'finally' run on
  the states in which they really start;
* helpers with control flow of their own are followed path by path.
"""
import ast
import copy

from . import terms as K
from .terms import T, raw, mk, const, num, ZERO, ONE, NONE, TRUE, FALSE, UNDEF, EMPTY, add, sub, cond, lnot, fresh, subst, length, index
from .interp import Interp, St, Frame, Leaf, Node, leaves, merge_states, exc_names, TRACE, is_generator, cond_atoms
from .repo import Func, dotted

ANY = raw('exc', '*')
UNRESOLVED = {'opaque', 'fold', 'while', 'lc', 'bvlc', 'anyof'}
SUPERS = {'ZeroDivisionError': ('ArithmeticError', 'Exception'), 'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception')}


class TooMany(Exception):
    pass


class Path(object):
    """one path: what is known (pc), the state, and how it ends"""
    __slots__ = ('st', 'pc', 'kind', 'val', 'line')

    def __init__(self, st, pc, kind='fall', val=None, line=0):
        self.st, self.pc, self.kind, self.val, self.line = st, pc, kind, val, line

    def at(self, kind, val=None, st=None, line=0):
        return Path(st if st is not None else self.st, self.pc, kind, val, line or self.line)

    def facts(self):
        return self.pc.items()


class PathInterp(Interp):
    LIMIT = 6000

    def __init__(self, repo, cfg, exceptions=True, follow=(), includes=None, never=()):
        Interp.__init__(self, repo, cfg)
        self.exceptions = exceptions
        self.nloop = 0
        self.loopid = {}
        self.rewritten = {}
        self.count = 0
        self.loops_seen = {}     # loop -> list of (path at the start of an iteration, [paths at its end])
        self.exits = {}          # loop -> paths that leave it
        self.entries = {}        # loop -> paths that reach it
        self.sources = {}        # unknown -> set of values it may stand for
        self.follow = set(follow)
        self.never = set(never)             # calls that do not fail
        self.includes = includes or {}      # function -> function it evaluates with the same arguments

    # ------------------------------------------------------------------ entry
    def paths(self, func, args=None, self_class=None, st=None):
        out = []
        box = {}
        run = self.exec_body

        def capture(fnode, s, frame):
            box['args'] = (fnode, s, frame)
            return Leaf('ret', NONE, s)
        self.exec_body = capture
        try:
            Interp.run_func(self, func, args, self_class, None, st)
        finally:
            self.exec_body = run
        fnode, s, frame = box['args']
        self.frame, self.start = frame, self.cp(s)
        self.params = set(a.arg for a in fnode.args.args)
        self.stack.append(func.node)
        try:
            res = self.body(fnode, Path(s, {}), frame)
        finally:
            self.stack.pop()
        return res

    def value(self, text, p=None, **names):
        """the value of an expression, with the arguments the function was called with"""
        st = self.cp(self.start) if p is None else self.cp(p.st)
        st.env.update({k: v for k, v in self.start.env.items() if k not in st.env or p is not None and k in self.params})
        st.env.update(names)
        e = ast.parse(text, mode='eval').body
        self.keep(('value', text, id(e)), e)
        for x in ast.walk(e):
            x.lineno = x.col_offset = 0
        fr = copy.copy(self.frame)      # closures of the function keep their own variables
        return self.rw(self.D(self.val(e, st, fr), st))

    def trace_of(self, text, *args):
        """the events of a reference function called with these arguments (after self)"""
        node = ast.parse(text).body[0]
        self.keep(('trace', text, id(node)), node)
        st = self.cp(self.start)
        st.heap = {}
        env = dict(self.start.env)
        env.update(zip([a.arg for a in node.args.args][1:], args))
        st.env = env
        tree = self.with_pending(self.block(node.body, st, self.frame))
        out = [subst(l.st.heap.get(TRACE, EMPTY), {TRACE: EMPTY}) for l in leaves(tree) if l.st is not None]
        return out[0] if len(out) == 1 else UNDEF

    def body(self, fnode, p, frame):
        res = []
        if is_generator(fnode):
            p.st.env['@yield'] = EMPTY
        for q in self.stmts(fnode.body, p, frame):
            if q.kind == 'fall':
                q = q.at('ret', NONE)
            res.append(q)
        return res

    def e_Yield(self, e, st, fr):
        v = self.val(e.value, st, fr) if e.value is not None else NONE
        self.emit(st, raw('ev', 'yield', v))
        return NONE

    # ------------------------------------------------------------------ statements
    def stmts(self, body, p, fr):
        live, out = [p], []
        for s in body:
            nxt = []
            for q in live:
                for r in self.one(s, q, fr):
                    (nxt if r.kind == 'fall' else out).append(r)
            live = self.dedupe(nxt)
            if not live:
                break
        return self.dedupe(out + live)

    def dedupe(self, ps):
        self.count += len(ps)
        if self.count > 400000 or len(ps) > self.LIMIT:
            raise TooMany(len(ps))
        """one path for all that lead to the same state (what is known is what holds on all of them)"""
        at, out = {}, []
        for p in ps:
            k = (p.kind, p.val, tuple(sorted((a, b.uid) for a, b in p.st.env.items() if type(b) is T)),
                 tuple(sorted((a.uid, b.uid) for a, b in p.st.heap.items())))
            if p.kind == 'ret':
                k = k + (tuple(sorted((a.uid, b) for a, b in p.pc.items())),)
            i = at.get(k)
            if i is None:
                at[k] = len(out)
                out.append(p)
            else:
                o = out[i]
                pc = {a: b for a, b in o.pc.items() if p.pc.get(a) is b}
                if len(pc) < len(o.pc):
                    out[i] = Path(o.st, pc, o.kind, o.val, o.line)
        return out

    def one(self, s, p, fr):
        f = getattr(self, 'p_' + type(s).__name__, None)
        if f is not None:
            return f(s, p, fr)
        return self.simple(s, p, fr)

    def failing(self, s, p, evaluated=()):
        """the statement fails (a numeric function that was evaluated before with the same arguments does not)"""
        if not self.exceptions or not may_fail(s, self.never):
            return []
        if self.exceptions is not True:
            done = p.st.env.get('@done', EMPTY)
            if not any(t not in done.args for t in evaluated):
                return []
        return [Path(self.cp(p.st), p.pc, 'raise', ANY, getattr(s, 'lineno', 0))]

    def opaque_method(self, b, name, args, kw, st, fr, cands=()):
        r = Interp.opaque_method(self, b, name, args, kw, st, fr, cands)
        if self.exceptions not in (True, False) and name in self.exceptions:
            self.evaluated.append(r)
            if name in self.includes:
                self.evaluated.append(Interp.opaque_method(self, b, self.includes[name], args, kw, st, fr, cands))
        return r

    def note(self, st, evaluated):
        if evaluated:
            st.env['@done'] = raw('cat', *sorted(set(st.env.get('@done', EMPTY).args) | set(evaluated), key=lambda t: t.uid))

    def simple(self, s, p, fr):
        out = []
        for q, t in self.hoisted(s, p, fr):
            if q.kind != 'fall':
                out.append(q)
                continue
            st = self.cp(q.st)
            self.evaluated = ev = []
            tree = self.stmt(t, st, fr)
            out += self.failing(t, q, ev)
            for l in leaves(tree):
                if l.st is not None:
                    self.note(l.st, ev)
            out += self.spread(self.with_pending(tree), q, s)
        return out

    def with_pending(self, tree):
        pend = []
        for l in leaves(tree):
            if l.st is not None and l.st.pend:
                for x in l.st.pend:
                    if not any(x is z for z in pend):
                        pend.append(x)
                l.st.pend = []
        return self.apply_pending(pend, tree) if pend else tree

    def spread(self, tree, p, s):
        """the leaves of a summary as paths"""
        if isinstance(tree, Leaf):
            st = tree.st if tree.st is not None else p.st
            return [Path(st, p.pc, tree.kind, tree.val, getattr(s, 'lineno', 0))]
        out = []
        for v, q in self.fork(tree.c, p):
            out += self.spread(tree.t if v else tree.f, q, s)
        return out

    def fork(self, c, p):
        """[(value, path)] for a condition"""
        memo = {}
        if c.op == 'ite' or p.pc:
            for a, v in p.pc.items():
                c = K.restrict(c, a if v else lnot(a), memo) if c.op == 'ite' else (TRUE if v else FALSE) if c is a else c
        if c is TRUE:
            return [(True, p)]
        if c is FALSE:
            return [(False, p)]
        if c.op != 'ite':
            k = implied(c, p.pc)
            if k is not None:
                return [(k, p)]
            return [(v, self.assume(p, c, v)) for v in (True, False)]
        a = c.args[0]
        out = []
        for v, q in self.fork(a, p):
            out += self.fork(c.args[1] if v else c.args[2], q)
        return out

    def assume(self, p, a, v):
        pc = dict(p.pc)
        pc[a] = v
        return Path(self.under(p.st, a if v else lnot(a)), pc, p.kind, p.val, p.line)

    def straight(self, s, p, fr):
        """a decision that only selects values"""
        if any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Try, ast.While, ast.For, ast.With)) for x in ast.walk(s)):
            return None
        if any(isinstance(x, ast.Call) and self.needs_paths(x, p, fr) for x in ast.walk(s)):
            return None
        st = self.cp(p.st)
        self.evaluated = ev = []
        tree = self.with_pending(self.stmt(s, st, fr))
        if not isinstance(tree, Leaf) or tree.kind != 'fall' or tree.st.heap.get(TRACE) is not p.st.heap.get(TRACE):
            return None
        for d0, d1 in ((p.st.env, tree.st.env), (p.st.heap, tree.st.heap)):
            for k, v in d1.items():
                if type(v) is T and v is not d0.get(k) and any(x.op in UNRESOLVED for x in K.subterms(v)):
                    return None
        out = self.failing(s, p, ev)
        self.note(tree.st, ev)
        return out + [p.at('fall', None, tree.st)]

    def p_If(self, s, p, fr):
        r = self.straight(s, p, fr)
        if r is not None:
            return r
        out = []
        for q, t in self.hoisted_expr(s.test, p, fr):
            if q.kind != 'fall':
                out.append(q)
                continue
            st = self.cp(q.st)
            self.evaluated = ev = []
            c = self.test(t, st, fr)
            out += self.failing(ast.copy_location(ast.Expr(t), s), q, ev)
            self.note(st, ev)
            q = q.at('fall', None, st)
            for r in self.pending_paths(q):
                if r.kind != 'fall':
                    out.append(r)
                    continue
                for v, w in self.fork(c, r):
                    out += self.stmts(s.body if v else s.orelse, w, fr) if (s.body if v else s.orelse) else [w]
        return out

    def pending_paths(self, p):
        pend, p.st.pend = p.st.pend, []
        if not pend:
            return [p]
        return self.spread(self.apply_pending(pend, Leaf('fall', None, p.st)), p, None)

    def p_With(self, s, p, fr):
        out = []
        inner = s.body
        pre = [ast.copy_location(ast.Assign([i.optional_vars], i.context_expr) if i.optional_vars is not None else ast.Expr(i.context_expr), s) for i in s.items]
        for x in pre:
            ast.fix_missing_locations(x)
        return self.stmts(self.keep(('with', id(s)), pre) + inner, p, fr)

    def keep(self, key, value):
        return self.rewritten.setdefault(key, value)

    def p_Try(self, s, p, fr):
        out = []
        for q in self.stmts(s.body, p, fr):
            if q.kind == 'raise' and s.handlers:
                out += self.handled(s, q, fr)
            elif q.kind == 'fall' and s.orelse:
                out += self.stmts(s.orelse, q, fr)
            else:
                out.append(q)
        if not s.finalbody:
            return out
        res = []
        for q in self.dedupe(out):
            for r in self.stmts(s.finalbody, q.at('fall'), fr):
                res.append(Path(r.st, r.pc, q.kind, q.val, q.line) if r.kind == 'fall' else r)
        return res

    def handled(self, s, q, fr):
        out = []
        name = q.val.args[0] if q.val is not None and q.val.op == 'exc' else '*'
        open_ = True
        for h in s.handlers:
            hs = set(exc_names(h.type))
            catches_all = h.type is None or '*' in hs or hs & {'Exception', 'BaseException'}
            if name == '*':
                take, stop = True, bool(catches_all)
            else:
                take = stop = bool(catches_all or name in hs or hs & set(self.supers(name)))
            if take:
                st = self.cp(q.st)
                if h.name:
                    st.env[h.name] = raw('excval', ','.join(sorted(hs)))
                for r in self.stmts(h.body, Path(st, q.pc), fr):
                    if r.kind == 'raise' and r.val is not None and r.val.op == 'exc' and r.val.args[0] == 'reraise':
                        r = r.at('raise', q.val)
                    out.append(r)
            if stop:
                open_ = False
                break
        if open_:
            out.append(q)
        return out

    def supers(self, name):
        out = list(SUPERS.get(name, ('Exception',)))
        cls = self.repo.classes.get(name) if hasattr(self.repo, 'classes') else None
        if cls is not None:
            try:
                out += [c.name for c in self.repo.mro(cls)]
            except Exception:
                pass
        return out

    # ------------------------------------------------------------------ helpers followed path by path
    def hoisted(self, s, p, fr):
        """[(path, statement)]: calls that must be followed path by path are done first"""
        if not isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign, ast.AnnAssign)):
            return [(p, s)]
        if s.value is None:
            return [(p, s)]
        out = []
        for q, e in self.hoisted_expr(s.value, p, fr):
            if e is s.value:
                out.append((q, s))
            else:
                key = ('stmt', id(s), ast.dump(e))
                t = self.rewritten.get(key)
                if t is None:
                    t = copy.copy(s)
                    t.value = e
                    self.rewritten[key] = t
                out.append((q, t))
        return out

    def hoisted_expr(self, e, p, fr):
        todo = [c for c in unconditional_calls(e) if self.needs_paths(c, p, fr)]
        if not todo:
            return [(p, e)]
        c = todo[0]
        out = []
        name = '@h%d_%d' % (c.lineno, c.col_offset)
        key = ('expr', id(e), name)
        t = self.rewritten.get(key)
        if t is None:
            t = self.rewritten[key] = replace_node(e, c, ast.copy_location(ast.Name(name, ast.Load()), c))
        for q in self.follow_call(c, p, fr):
            if q.kind == 'ret':
                q.st.env[name] = q.val
                q = q.at('fall')
                out += self.hoisted_expr(t, q, fr)
            else:
                out.append((q, e))
        return out

    def callee(self, c, p, fr):
        f = c.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            b = p.st.env.get(f.value.id)
            cls = self.class_of(b) if b is not None else None
            if cls is None:
                return None
            fn = self.repo.find_method(cls, f.attr)
            if fn is None or fn.node in self.stack or self.wrappers(fn):
                return None
            return ('method', fn, b)
        if isinstance(f, ast.Name):
            b = self.e_Name(f, p.st, fr)
            if b.op == 'closure':
                return ('closure', b, None)
            if b.op == 'fn':
                fn = self.repo.func(b.args[0])
                return None if fn.node in self.stack else ('method', fn, None)
        return None

    def needs_paths(self, c, p, fr):
        k = self.callee(c, p, fr)
        if k is None:
            return False
        if k[0] == 'closure':
            nodee = self.closures[k[1].args[0]][0]
            return not isinstance(nodee, ast.Lambda) and branching(nodee)
        fn = k[1]
        if fn.name in self.cfg.opaque or fn.name in self.cfg.effects:
            return False
        if fn.name in self.cfg.vocab and fn.name not in self.follow:
            return False
        return branching(fn.node)

    def follow_call(self, c, p, fr):
        k = self.callee(c, p, fr)
        st = self.cp(p.st)
        args, kw = self.args(c, st, fr)
        if k[0] == 'closure':
            nodee, dst, dfr = self.closures[k[1].args[0]]
            outer = st.env if dfr is fr else dst.env
            frame = Frame(dfr.module, dfr.cls, dfr.self_term, dfr.func, (outer, dfr.parent))
            env = self.bind_args(nodee.args, args, kw, st, frame, skip_self=False, dfr=dfr)
        else:
            fn = k[1]
            nodee = fn.node
            frame = Frame(fn.module, fn.cls, k[2], fn)
            env = self.bind_args(nodee.args, args, kw, st, frame, False, self_term=k[2] if 'staticmethod' not in fn.decorators else None)
            self.inlined.add(fn.where)
        if env is None:
            raise TooMany('call of %s' % ast.dump(c.func)[:80])
        if '@done' in st.env:
            env['@done'] = st.env['@done']
        inner = Path(St(env, st.heap), p.pc)
        self.stack.append(nodee)
        try:
            res = self.body(nodee, inner, frame)
        finally:
            self.stack.pop()
        out = []
        for q in res:
            s2 = St(dict(st.env), q.st.heap)
            if '@done' in q.st.env:
                s2.env['@done'] = q.st.env['@done']
            out.append(Path(s2, q.pc, q.kind, q.val, q.line))
        return out

    # ------------------------------------------------------------------ loops
    def loop_name(self, s):
        if id(s) not in self.loopid:
            self.loopid[id(s)] = len(self.loopid)
            self.keep(('loop', id(s)), s)
        return self.loopid[id(s)]

    def p_For(self, s, p, fr):
        out = []
        for q, e in self.hoisted_expr(s.iter, p, fr):
            if q.kind != 'fall':
                out.append(q)
                continue
            r = self.summarised(s, e, q, fr)
            st = self.cp(q.st)
            self.evaluated = ev = []
            seq = self.iter_seq(e, st, fr)
            out += self.failing(ast.copy_location(ast.Expr(e), s), q, ev)
            if r is not None:
                out += r
                continue
            self.note(st, ev)
            q = q.at('fall', None, st)
            out += self.general(s, q, fr, seq)
        return out

    def summarised(self, s, e, p, fr):
        """a loop that the value analysis understands completely"""
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Try, ast.While)) for x in ast.walk(s)):
            return None
        t = copy.copy(s)
        t.iter = e
        self.keep(('for', id(s), id(e)), t)
        st = self.cp(p.st)
        h0, e0 = dict(st.heap), dict(st.env)
        try:
            tree = self.with_pending(self.s_For(t, st, fr))
        except K.Budget:
            return None
        ok = lambda v, w: v is w or not any(x.op in UNRESOLVED for x in K.subterms(v) if x not in set(K.subterms(w) if w is not None else ()))
        for l in leaves(tree):
            if l.st is None:
                continue
            for k, v in l.st.env.items():
                if type(v) is T and not ok(v, e0.get(k)):
                    return None
            for k, v in l.st.heap.items():
                if not ok(v, h0.get(k)):
                    return None
        if tree_unresolved(tree):
            return None
        out = self.spread(tree, p, s)
        if self.exceptions and any(may_fail(b, self.never) for b in s.body):
            # it may fail after any number of complete iterations
            st = self.cp(p.st)
            seq = self.iter_seq(e, st, fr)
            v = fresh()
            k = raw('var', '@done%d' % self.loop_name(s))

            def inner(s2):
                self.bind(s.target, self.rw(index(seq, v)), s2, fr)
                return self.block(s.body, s2, fr)
            try:
                tr = self.loop(k, v, inner, st)
                for q in self.spread(self.with_pending(tr), p, s):
                    if q.kind != 'fall':
                        continue
                    self.bind(s.target, self.rw(index(seq, k)), q.st, fr)
                    out += [r for r in self.stmts(s.body, q, fr) if r.kind == 'raise']
            except K.Budget:
                return None
        return out

    def p_While(self, s, p, fr):
        return self.general(s, p, fr, None)

    def general(self, s, p, fr, seq):
        n = self.loop_name(s)
        it = raw('var', '@i%d' % n)
        out = []
        havoc = set()
        linear, derived = None, {}
        live = live_names(s)
        kept = {k: set(v) for k, v in self.sources.items()}, {k: list(v) for k, v in self.loops_seen.items()}
        for attempt in range(12):
            res = []
            back = []
            self.sources, self.loops_seen = {k: set(v) for k, v in kept[0].items()}, {k: list(v) for k, v in kept[1].items()}
            cases = []
            heads = [(True, self.head(p, {}, havoc, linear or {}, derived, n))]
            if seq is None:
                # the test is taken where it happens: before the first iteration and after each one
                heads = [(False, heads[0][1])] if self.entry(s, p, fr, res) else []
            seen = set()
            again = False
            while heads and not again:
                first, h = heads.pop()
                key = state_key(h)
                if key in seen:
                    continue
                seen.add(key)
                ends = []
                for q in self.iteration(s, h, fr, seq, it, res):
                    ends.append(q)
                cases.append((h, ends))
                for q in ends:
                    grown, consts, bad = self.compare_heads(p, h, q, havoc, linear or {}, derived, n, it, live)
                    if grown:
                        havoc |= grown
                        again = True
                    elif bad:
                        derived = {k: v for k, v in derived.items() if k not in bad}
                        again = True
                    else:
                        h2 = self.head(p, consts, havoc, linear or {}, derived, n)
                        heads.append((False, h2))
                    back.append((h, q))
                if len(seen) > 64:
                    raise TooMany('loop states')
            if again:
                back = []
                continue
            # counters and variables that move together (tried once the set of changing variables is known)
            if linear is None:
                linear = {}
                for k in havoc:
                    init = value_of(p, k)
                    d = set()
                    for h, q in back:
                        a, b = value_of(h, k), value_of(q, k)
                        x = sub(b, a) if numeric(a) and numeric(b) else None
                        d.add(x if x is not None and K.is_num(x) else None)
                    if len(d) == 1 and None not in d and K.is_num(init):
                        linear[k] = d.pop()
                derived = self.relations(p, havoc, linear)
                if linear or derived:
                    continue
            for k in havoc:
                u = self.unknown(k, n)
                self.sources.setdefault(u, set()).update(set(value_of(q, k) for h, q in back) | {value_of(p, k)})
            self.loops_seen.setdefault(n, []).extend(cases)
            self.entries.setdefault(n, []).append(p)
            self.exits.setdefault(n, []).extend(res)
            break
        else:
            raise TooMany('loop does not settle')
        return self.dedupe(res)

    def relations(self, p, havoc, linear):
        """changing variables whose start value is a function of the start value of another changing variable"""
        out = {}
        for a in havoc:
            ia = value_of(p, a)
            if type(ia) is not T or K.is_const(ia) or ia is UNDEF or a in linear or ia.op == 'cat':
                continue
            for b in havoc:
                ib = value_of(p, b)
                if b == a or b in linear or ib is ia or type(ib) is not T:
                    continue
                if any(x is ia for x in K.subterms(ib)) and b not in out and a not in out:
                    out[b] = (a, ia, ib)
        return out

    def unknown(self, k, n):
        return raw('var', '@%s%d' % (k if isinstance(k, str) else 'h%d.' % k.uid, n))

    def head(self, p, consts, havoc, linear, derived, n):
        st = self.cp(p.st)
        it = raw('var', '@i%d' % n)
        vals = {}
        for k in havoc:
            if k in consts:
                vals[k] = consts[k]
            elif k in linear:
                vals[k] = add(value_of(p, k), K.mul(linear[k], it))
            elif k in derived:
                continue
            else:
                vals[k] = self.unknown(k, n)
        for k, v in consts.items():
            vals.setdefault(k, v)
        todo = dict(derived)
        while todo:
            for b, (a, ia, ib) in list(todo.items()):
                if a not in todo:
                    vals[b] = subst(ib, {ia: vals.get(a, value_of(p, a))})
                    del todo[b]
        for k, v in vals.items():
            if isinstance(k, str):
                st.env[k] = v
            else:
                st.heap[k] = v
        return Path(st, dict(p.pc))

    def compare_heads(self, p, h, q, havoc, linear, derived, n, it, live):
        """-> (keys to give up, constants of the next start, broken relations)"""
        grown, consts, bad = set(), {}, set()
        keys = set(k for k in set(q.st.env) | set(h.st.env) if not k.startswith('@') and k in live) | \
            set(k for k in set(q.st.heap) | set(h.st.heap))
        for k in keys:
            b, a = value_of(q, k), value_of(h, k)
            if isinstance(k, T) and k.op == 'loc':
                if k not in h.st.heap:
                    continue
                a, b = self.D(a, h.st), self.D(b, q.st)
            if k in derived:
                x, ia, ib = derived[k]
                if b is not subst(ib, {ia: value_of(q, x)}):
                    bad.add(k)
                continue
            if k in linear:
                if sub(b, a) is not linear[k]:
                    grown.add(k)
                continue
            if k in havoc:
                continue
            if b is a:
                if a is not value_of(p, k):
                    consts[k] = a
                continue
            if is_flag(b) and is_flag(value_of(p, k)):
                if b is not value_of(p, k):
                    consts[k] = b
                continue
            grown.add(k)
        return grown, consts, bad

    def iteration(self, s, h, fr, seq, it, res):
        """paths at the end of the iteration; the paths that leave the loop go to res"""
        ends = []

        def after(q, normal):
            if normal and s.orelse:
                res.extend(self.stmts(s.orelse, q, fr))
            else:
                res.append(q)
        starts = []
        if seq is None:
            # the test has succeeded
            c = self.test(s.test, self.cp(h.st), fr)
            starts = [w for v, w in self.fork(c, h) if v]
        else:
            if not is_plain(seq):
                res.extend(self.failing(ast.copy_location(ast.Expr(ast.Call(ast.Name('next', ast.Load()), [], [])), s), h, [raw('ev', 'next', it)]))
            after(Path(self.cp(h.st), h.pc), True)      # exhausted
            st = self.cp(h.st)
            x = raw('idx', seq, it) if seq.op not in ('for', 'cat', 'one') else self.rw(index(seq, it))
            self.bind(s.target, x, st, fr)
            starts.append(Path(st, h.pc))
        for q in starts:
            for r in self.stmts(s.body, q, fr):
                if r.kind in ('fall', 'continue'):
                    ends.append(r.at('fall'))
                elif r.kind == 'break':
                    after(r.at('fall'), False)
                else:
                    res.append(r)
        ends = self.dedupe([r for q in ends for r in self.flags_apart(q)])
        if seq is None:
            more = []
            for q in ends:
                for v, w in self.tested(s, q, fr, res):
                    if v:
                        more.append(w)
                    else:
                        after(w, True)
            ends = self.dedupe(more)
        return ends

    def flags_apart(self, q):
        for d in (q.st.env, q.st.heap):
            for k, v in d.items():
                if type(v) is T and v.op == 'ite' and not (isinstance(k, str) and k.startswith('@')):
                    from .interp import leaf_terms
                    if all(is_flag(x) for x in leaf_terms(v)):
                        a = v.args[0]
                        return [r for val, w in self.fork(a, q) for r in self.flags_apart(w)]
        return [q]

    def tested(self, s, p, fr, res):
        out = []
        for q, t in self.hoisted_expr(s.test, p, fr):
            if q.kind != 'fall':
                res.append(q)
                continue
            st = self.cp(q.st)
            self.evaluated = ev = []
            c = self.test(t, st, fr)
            res.extend(self.failing(ast.copy_location(ast.Expr(t), s), q, ev))
            self.note(st, ev)
            out += self.fork(c, q.at('fall', None, st))
        return out

    def entry(self, s, p, fr, res):
        """may the loop be entered? (paths that do not enter go to res)"""
        go = False
        for v, w in self.tested(s, p, fr, res):
            if v:
                go = True
            elif s.orelse:
                res.extend(self.stmts(s.orelse, w, fr))
            else:
                res.append(w)
        return go


# ---------------------------------------------------------------------------- helpers
def is_plain(seq):
    """a sequence that exists before it is walked"""
    return seq.op in K.SEQ or seq.op in ('attr', 'for', 'cat', 'one', 'dict', 'set', 'tuple', 'range') or seq.op == 'var' and not seq.args[0].startswith('@')


LOG = ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log')


TOTAL = {'append', 'len', 'isinstance', 'list', 'dict', 'type', 'range', 'enumerate', 'zip', 'hasattr', 'callable', 'reversed', 'tuple', 'set',
         'str', 'bool', 'keys', 'values', 'items', 'get', 'copy', 'extend'}


def may_fail(s, never=()):
    for x in ast.walk(s):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(x, ast.Call):
            d = (dotted(x.func) or '').split('.')
            if len(d) > 1 and any(y.strip('_') in ('logger', 'logging') for y in d[:-1]) and d[-1] in LOG:
                return False
            if d[-1] in TOTAL or d[-1] in never or isinstance(x.func, ast.Attribute) and x.func.attr in never:
                continue
            return True
    return False


def branching(nodee):
    return any(isinstance(x, (ast.For, ast.While, ast.Try, ast.If)) or isinstance(x, ast.Return) and x is not nodee.body[-1]
               for x in ast.walk(nodee) if x is not nodee)


def unconditional_calls(e):
    """calls of an expression that are always evaluated, innermost first"""
    out = []

    def go(x):
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(x, ast.IfExp):
            go(x.test)
            return
        if isinstance(x, ast.BoolOp):
            go(x.values[0])
            return
        for y in ast.iter_child_nodes(x):
            go(y)
        if isinstance(x, ast.Call):
            out.append(x)
    go(e)
    return out


def replace_node(e, old, new):
    class R(ast.NodeTransformer):
        def visit(self, n):
            if n is old:
                return new
            return self.generic_visit(copy.copy(n))
    return ast.fix_missing_locations(R().visit(e))


def live_names(loop):
    """variables whose value from before an iteration may be read in it (or after the loop: all of them that are read first)"""
    names = set()
    body = list(loop.body) + ([ast.Expr(loop.test)] if isinstance(loop, ast.While) else [])
    for x in body:
        for y in ast.walk(x):
            if isinstance(y, ast.Name):
                names.add(y.id)
    if isinstance(loop, ast.For):
        for y in ast.walk(loop.target):
            if isinstance(y, ast.Name):
                names.discard(y.id)
    return names


def value_of(p, k):
    if isinstance(k, str):
        return p.st.env.get(k, UNDEF)
    return p.st.heap.get(k, k if k.op != 'trace' else EMPTY)


def is_flag(t):
    return t in (TRUE, FALSE, NONE) or t.op in ('str',) or t is UNDEF


def numeric(t):
    return t.op in ('num', 'poly') or t.op == 'var' and t.args[0].startswith('@')


def state_key(p):
    return (tuple(sorted((a, b.uid) for a, b in p.st.env.items() if type(b) is T)), tuple(sorted((a.uid, b.uid) for a, b in p.st.heap.items())))


def tree_unresolved(t):
    if isinstance(t, Leaf):
        if t.kind == 'ret' and t.val is not None:
            return any(x.op in UNRESOLVED for x in K.subterms(t.val))
        return t.kind not in ('fall', 'raise')
    return any(x.op in UNRESOLVED for x in K.subterms(t.c)) or tree_unresolved(t.t) or tree_unresolved(t.f)


def implied(c, pc):
    """a bound that follows from another one"""
    if c.op == 'lt0' and mk('lt0', K.neg(c.args[0])).op == 'lt0':
        o = mk('lt0', K.neg(c.args[0]))
        if pc.get(o) is True:
            return False
    return None


def le(pc, a, b):
    """a <= b follows from the facts"""
    x = mk('lt0', sub(a, b))
    y = mk('lt0', sub(b, a))
    return holds(x, pc) is True or holds(y, pc) is False


def holds(c, pc):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in pc:
        return pc[c]
    if c.op == 'ite':
        a = holds(c.args[0], pc)
        if a is not None:
            return holds(c.args[1] if a else c.args[2], pc)
    return None
