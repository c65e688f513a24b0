"""Local names that can be read before anything has bound them."""
import ast


class Flow(object):
    """forward analysis of one function, one name at a time

    a state is a list of classes of paths, each (guard, bound or not) where the guard is a tuple of (condition text, truth);
    classes that differ in the truth of one condition only are merged where paths meet; None is the state after a jump"""
    LIMIT = 96

    def __init__(self, node, names):
        self.node, self.names = node, names
        self.reports = []        # (name node, guard under which it is unbound for sure)
        self.tries = []

    def run(self):
        a = self.node.args
        params = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
        self.params = params - set(n.id for n in ast.walk(self.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
        self.flags = set()
        self.around = []         # loops around the statement
        self.quiet = 0
        self.loops = []
        reads = set(n.id for n in ast.walk(self.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load))
        for n in sorted(self.names):
            if n in params or n not in reads:
                continue
            self.name = n
            self.done = set()
            self.block(self.node.body, [((), False)])
        return self.reports

    def at_read(self, e, st):
        """the guard under which the name is unbound for sure, if there is one"""
        if not st or all(b for _, b in st) or len(st) >= self.LIMIT or e in self.done:
            return
        why = None
        if not any(b for _, b in st):
            if all(self.free(l) for l in self.around):
                why = ()
        else:
            for g, b in st:
                if b:
                    continue
                fl = tuple(x for x in g if x[0] in self.flags)
                if len(fl) == len(g):
                    why = g
                elif fl and all(not b2 or any((c, not t) in g2 for c, t in fl) for g2, b2 in st):
                    why = fl
                if why is not None:
                    break
        if why is not None:
            self.done.add(e)
            self.reports.append((e, why))

    def flag(self, e):
        """a parameter, or an attribute of one"""
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id in self.params

    def free(self, loop):
        """the tests in the body say nothing about the iterations before: a for loop over elements, not over their
        numbers, whose tests read nothing that an earlier iteration leaves behind"""
        if not isinstance(loop, ast.For):
            return False
        it = loop.iter
        if any(isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] in ('enumerate', 'range', 'count', 'xrange', 'next') for x in ast.walk(it)):
            return False
        fresh = set(x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name))
        own = set(x for g in ast.walk(loop) if isinstance(g, ast.comprehension) for x in ast.walk(g.target))
        stored = set(x.id for x in ast.walk(loop) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x not in own)
        attrs = set(x.attr for x in ast.walk(loop) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)))
        touched = set()
        for x in ast.walk(loop):
            # what a store or a method of it can change
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                y = x.value if isinstance(x, ast.Subscript) else x.func.value
                while isinstance(y, (ast.Attribute, ast.Subscript)):
                    y = y.value
                if isinstance(y, ast.Name):
                    touched.add(y.id)
        for s in loop.body:
            # bound at the start of every iteration
            if isinstance(s, ast.Assign):
                if not (set(x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)) & (stored - fresh)):
                    fresh |= set(x.id for t in s.targets if isinstance(t, (ast.Name, ast.Tuple)) for x in ast.walk(t) if isinstance(x, ast.Name))
        for t in ast.walk(loop):
            if isinstance(t, (ast.If, ast.IfExp, ast.While)):
                for x in ast.walk(t.test):
                    if isinstance(x, ast.Name) and (x.id in stored - fresh or x.id in touched - fresh):
                        return False
                    if isinstance(x, ast.Attribute) and x.attr in attrs:
                        return False
        return True

    def copy(self, st):
        return None if st is None else list(st)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = list(dict.fromkeys(a + b))
        again = True
        while again and len(out) > 1:
            again = False
            have = {(frozenset(g), v): (g, v) for g, v in out}
            for (g, v) in out:
                fs = frozenset(g)
                for c, t in g:
                    other = fs - {(c, t)} | {(c, not t)}
                    if (other, v) in have:
                        new = (tuple(x for x in g if x != (c, t)), v)
                        out = [x for x in out if x not in ((g, v), have[(other, v)])]
                        if new not in out:
                            out.append(new)
                        again = True
                        break
                if again:
                    break
        return out[:self.LIMIT]

    def under(self, st, cond, truth):
        """the state in a branch: paths that contradict the condition are gone"""
        if st is None:
            return None
        if isinstance(cond, ast.Constant):
            return self.copy(st) if bool(cond.value) == truth else None
        if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
            return self.under(st, cond.operand, not truth)
        if isinstance(cond, ast.BoolOp) and isinstance(cond.op, ast.And) == truth:
            for v in cond.values:
                st = self.under(st, v, truth)
            return st
        text = ast.dump(cond)
        if isinstance(cond, (ast.Name, ast.Attribute)) and self.flag(cond):
            self.flags.add(text)
        return [(g if (text, truth) in g else g + ((text, truth),), b) for g, b in st if (text, not truth) not in g]

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def use(self, e, st):
        """evaluate an expression"""
        if e is None or st is None:
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.use(e.generators[0].iter, st)
            inner = set(n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name))
            st2 = [(g, True) for g, b in st] if self.name in inner else st
            for i, g in enumerate(e.generators):
                if i:
                    self.use(g.iter, st2)
                for x in g.ifs:
                    self.use(x, st2)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.use(x, st2)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id == self.name and not self.quiet:
                self.at_read(e, st)
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, st)
            self.bound(e.target.id, st)
            return
        if isinstance(e, ast.BoolOp):
            st2 = st
            for i, v in enumerate(e.values):
                self.use(v, st2)
                if i + 1 < len(e.values):
                    st2 = self.under(st2, v, isinstance(e.op, ast.And))
            return
        if isinstance(e, ast.IfExp):
            self.use(e.test, st)
            self.use(e.body, self.under(st, e.test, True))
            self.use(e.orelse, self.under(st, e.test, False))
            return
        for x in ast.iter_child_nodes(e):
            self.use(x, st)

    def bind(self, t, st):
        if isinstance(t, ast.Name):
            self.bound(t.id, st)
            self.forget(t.id, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, st)
        else:
            self.use(t, st)
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute):
                    self.forget(n.attr, st)
                    break

    def forget(self, name, st):
        """a condition on something that changes says nothing afterwards"""
        st[:] = [(tuple(x for x in g if "'%s'" % name not in x[0]), b) for g, b in st]

    def bound(self, name, st, to=True):
        if name == self.name:
            st[:] = list(dict.fromkeys((g, to) for g, b in st))

    def stmt(self, s, st):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            self.use(s.value, st)
            if isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name):
                    self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return st
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.bind(t, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.use(x, st)
            if isinstance(s, ast.Raise) and self.tries:
                self.tries[-1].append(self.copy(st))
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][0 if isinstance(s, ast.Break) else 1].append(self.copy(st))
            return None
        if isinstance(s, ast.If):
            self.use(s.test, st)
            a = self.block(s.body, self.under(st, s.test, True))
            b = self.block(s.orelse, self.under(st, s.test, False))
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.While)):
            head = s.iter if isinstance(s, ast.For) else s.test
            self.use(head, st)
            entry = self.copy(st)
            # what the body binds can be bound when it starts again
            mark = (ast.dump(head), True)
            body = self.copy(st) if isinstance(s, ast.For) else self.under(st, head, True)
            if body is not None:
                if isinstance(s, ast.For):
                    self.bind(s.target, body)
                self.loops.append(([], []))
                self.around.append(s)
                after = self.block(s.body, body)
                self.around.pop()
                brk, cont = self.loops.pop()
                for x in cont:
                    after = self.join(after, x)
            else:
                after, brk = None, []
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            if forever:
                out = None
            else:
                # zero iterations: only a guard of its own
                zero = [(g + (('loop ' + mark[0], False),), b) for g, b in entry]
                if after is not None:
                    after = [(g + (('loop ' + mark[0], True),), b) for g, b in after]
                if isinstance(s, ast.While) and after is not None:
                    after = self.under(after, s.test, False) or after
                out = self.join(zero, after)
                if s.orelse:
                    out = self.block(s.orelse, out)
            for x in brk:
                out = self.join(out, x)
            return out
        if isinstance(s, ast.Try):
            self.tries.append([])
            before = self.copy(st)
            body = self.block(s.body, self.copy(st))
            self.tries.pop()
            ok = self.block(s.orelse, body) if body is not None else None
            # a handler starts from any point of the body
            if s.handlers:
                hs = None
                start = [(g + (('try %d' % s.lineno, False),), b) for g, b in before]
                if any(isinstance(x, ast.Name) and x.id == self.name and not isinstance(x.ctx, ast.Load) for y in s.body for x in ast.walk(y)):
                    start += [(g + (('try %d' % s.lineno, True),), True) for g, b in before]
                for h in s.handlers:
                    h0 = self.copy(start)
                    if h.name:
                        self.bound(h.name, h0)
                    hs = self.join(hs, self.block(h.body, h0))
                out = self.join(ok, hs)
            else:
                out = ok
            if s.finalbody:
                # also runs when the body failed
                self.quiet += 1
                self.block(s.finalbody, self.copy(before))
                self.quiet -= 1
                out = self.block(s.finalbody, out) if out is not None else None
            return out
        if isinstance(s, ast.With):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.use(d, st)
            if isinstance(s, ast.FunctionDef):
                for d in s.args.defaults:
                    self.use(d, st)
            self.bound(s.name, st)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                n = a.asname or a.name.split('.')[0]
                self.bound(n, st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    self.bound(t.id, st, False)
                else:
                    self.use(t, st)
            return st
        if isinstance(s, ast.Assert):
            self.use(s.test, st)
            return self.under(st, s.test, True)
        if isinstance(s, ast.Expr):
            self.use(s.value, st)
            return st
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        # match and the like: not followed
        return [(g, True) for g, b in st]
