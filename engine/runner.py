"""Obligations, verdicts, evidence, known findings."""
import ast
import json
import os
import re
import sys
import time
import traceback

from . import terms as K
from . import interp as I
from .caches import stale
from .graph import Graph
from .compare import compare, Verdict, show_diff
from .domain import Domain, install
from . import domain as DOM
from .repo import Repo, Missing, Func, Module, Class

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VOCAB = json.load(open(os.path.join(HERE, 'engine', 'vocab.json')))
VOCAB_SET = frozenset(VOCAB['methods']) | frozenset(VOCAB['functions'])
VOCAB = {k: set(v) for k, v in VOCAB.items()}


class SpecModule(object):
    """Reference functions, read in the name space of the module they specify."""

    def __init__(self, path, target, repo):
        self.path, self.name = target.path, target.name
        self.rel = 'spec/%s#%s' % (os.path.basename(path), target.rel)
        self.source = open(path).read()
        self.tree = target.tree
        self.spec_tree = ast.parse(self.source, path)
        self.functions = dict(target.functions)
        self.classes = target.classes
        self.imports = dict(target.imports)
        self.consts = target.consts
        self.spec_functions = {}
        for s in self.spec_tree.body:
            if isinstance(s, ast.FunctionDef):
                f = Func(s, self)
                self.functions[s.name] = f
                self.spec_functions[s.name] = f
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name] = a.name
        repo.by_rel[self.rel] = self


class Ctx(object):
    def __init__(self, prop, tier, repo=None):
        self.prop, self.tier = prop, tier
        self.repo = repo or Repo()
        self.results = []          # (status, obligation, where, detail)
        self.functions = set()
        self.notes = []
        self.rules = []
        self.assumptions = []
        self.stats = {}
        self._specs = {}
        self._reads = {}
        self._searched, self._graph = set(), None
        self.minimum = 0

    # -------------------------------------------------------------- results
    def hold(self, ob, where, detail=''):
        self.results.append(('HOLDS', ob, where, detail))

    def violated(self, ob, where, detail):
        if ('VIOLATED', ob, where, detail) not in self.results:
            self.results.append(('VIOLATED', ob, where, detail))

    def undecided(self, ob, where, why):
        self.results.append(('UNDECIDED', ob, where, why))

    def decide(self, ok, ob, where, detail=''):
        if ok:
            self.hold(ob, where, detail and 'decided: ' + detail)
        else:
            self.violated(ob, where, detail)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    # -------------------------------------------------------------- value-flow equivalence
    def spec(self, name, target):
        key = (name, target.rel)
        if key not in self._specs:
            self._specs[key] = SpecModule(os.path.join(HERE, 'spec', name + '.py'), target, self.repo)
        return self._specs[key]

    def changed_in_place(self, f, name):
        n = name[2:] if name.startswith('__') else name
        text = ast.unparse(f.module.tree)
        return bool(re.search(r'\.(_\w+)?_*%s(\.(append|extend|insert|pop|remove|clear|sort|reverse|update|setdefault|add)\(|\[[^\n]*\] ([-+*/]?=) |(\s[-+*/]?\+= ))' % re.escape(n), text))

    def read_somewhere(self, name, module):
        """is the attribute ever read (a value nobody reads is not observable; neither are loggers)"""
        if name in I.LOGNAMES:
            return False
        key = (name, module.rel if name.startswith('__') else None)
        if key not in self._reads:
            mods = [module] if name.startswith('__') else [m for m in self.repo.modules.values()]
            n = 0
            for m in mods:
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load):
                        n += 1
                    elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith(name.lstrip('_')):
                        n += 1
            if name.startswith('__') and not n:
                # may be reached under its mangled name from elsewhere
                for m in self.repo.modules.values():
                    if any(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value == name.lstrip('_') for x in ast.walk(m.tree)):
                        n += 1
            self._reads[key] = n > 0
        return self._reads[key]

    def config(self, **kw):
        kw.setdefault('vocab', VOCAB_SET)
        dom = kw.pop('domain', None) or Domain()
        kw['rewrite'] = dom.rewrite
        kw['domain'] = dom
        install(dom)
        for k in ('opaque', 'inline', 'construct', 'effects', 'watch', 'watch_store'):
            if k in kw:
                kw[k] = set(kw[k])
        return I.Config(**kw)

    def summary(self, func, cfg, args=None, self_class=None, self_attrs=None):
        it = I.Interp(self.repo, cfg)
        st = I.St()
        tree = it.run_func(func, args, self_class=self_class, st=st)
        return it, tree

    def equiv(self, target, specfile, specname, observe=('ret',), self_class=None, ob=None, args=None, allowed=(), limit=400000, wrap=None, zips=True, **cfgkw):
        """The value-flow summary of target equals the one of the reference function."""
        f = self.repo.func(target)
        sc = self.repo.cls(self_class) if self_class else f.cls
        sm = self.spec(specfile, f.module)
        node = sm.spec_functions[specname].node
        first = node.args.args[0].arg if node.args.args else None
        sf = Func(node, sm, f.cls if first in ('self', 'cls') else None)
        needs = cfgkw.pop('needs', ())
        if 'rejected' in observe:
            cfgkw['raise_state'] = True
        self.needs = set(needs)
        if 'contracts' in cfgkw:
            cfgkw['contracts'] = {k: Func(sm.spec_functions[v].node, sm, None) for k, v in cfgkw['contracts'].items()}
        try:
            return self._equiv(f, sf, sc, ob or specname, f.where, observe, args, allowed, limit, wrap, cfgkw, zips)
        finally:
            self.needs = set()

    needs = frozenset()

    def driver(self, rel, specfile, drivername, specname, where=None, observe=('ret',), ob=None, allowed=(), limit=400000, wrap=None, **cfgkw):
        """A driver (a use of the public interface, written with the specification) equals the reference."""
        m = self.repo.by_rel[rel]
        sm = self.spec(specfile, m)
        f = Func(sm.spec_functions[drivername].node, sm, None)
        sf = Func(sm.spec_functions[specname].node, sm, None)
        return self._equiv(f, sf, None, ob or specname, where or rel, observe, None, allowed, limit, wrap, cfgkw)

    def _equiv(self, f, sf, sc, ob, where, *a, **k):
        r = self._compare(f, sf, sc, ob, where, *a, **k)
        if r == 'UNDECIDED' and where not in self._searched:
            # of what cannot be compared: is something kept from an earlier evaluation?
            self._searched.add(where)
            g = self._graph = self._graph or Graph(self.repo)
            try:
                start = f if f.module.rel.startswith('scaks') else self.repo.func(where.split(' (line')[0])
            except Exception:
                return r
            for h, node, _, why in stale(g, list(g.reach([start]).values())):
                if why:
                    self.violated('tables', '%s:%s (line %d)' % (h.module.rel, h.qual, node.lineno), why)
                    r = 'VIOLATED'
        return r

    def _compare(self, f, sf, sc, ob, where, observe, args, allowed, limit, wrap, cfgkw, zips=True):
        cfg = self.config(**dict(cfgkw))
        K.LIMIT[0] = K._counter[0] + limit
        speckw = dict(cfgkw)
        spec_over = speckw.pop('spec_cfg', {})
        cfgkw.pop('spec_cfg', None)
        cfg = self.config(**dict(cfgkw))
        DOM.SELF_SORT[0] = {v: k for k, v in DOM.CLASS.items()}.get(sc.name if sc is not None else None)
        del K.ZIPPED[:]
        try:
            cfg.own_names = named(f) - named(sf) if sf.node.args.kwarg else frozenset()
            it, tree = self.summary(f, cfg, args, sc)
            self.functions.add(where)
            self.functions |= it.inlined
            speckw.update(spec_over)
            cfg2 = self.config(**speckw)
            it2, tree2 = self.summary(sf, cfg2, args, sc)
            install(cfg.domain)
            obs = []
            if 'heap' in observe:
                known = sharing(tree2)
                for k, l in sharing(tree):
                    if (k, l) not in known and k.args[0] is l.args[0] and (self.changed_in_place(f, k.args[1]) or self.changed_in_place(f, l.args[1])):
                        self.violated(ob, where, '%s and %s are one object, which is changed in place' % (K.show(k), K.show(l)))
            if 'ret' in observe:
                obs.append(('result', K.canon(it.outcome(tree)), K.canon(it2.outcome(tree2))))
            if 'heap' in observe or 'trace' in observe:
                h1, h2 = it.final_heap(tree), it2.final_heap(tree2)
                keys = set(h1) | set(h2)
                r1, r2 = it.outcome(tree), it2.outcome(tree2)
                for k in sorted(keys, key=lambda t: t.uid):
                    if k is I.TRACE and 'trace' not in observe:
                        continue
                    if k.op == 'attr' and not self.read_somewhere(k.args[1], f.module):
                        continue
                    if k is not I.TRACE and 'heap' not in observe:
                        continue
                    if k is I.TRACE:
                        a, b = [ctx_guard(r, K.trace_canon(h.get(k, K.EMPTY))) for r, h in ((r1, h1), (r2, h2))]
                    else:
                        a, b = ctx_guard(r1, h1.get(k, k)), ctx_guard(r2, h2.get(k, k))
                    obs.append(('state of %s' % K.show(k), a, b))
            if 'rejected' in observe:
                # what a rejected call leaves behind
                h1, h2 = it.final_heap(tree, ('ret', 'raise')), it2.final_heap(tree2, ('ret', 'raise'))
                r1, r2 = it.outcome(tree), it2.outcome(tree2)
                for k in sorted(set(h1) | set(h2), key=lambda t: t.uid):
                    if k is I.TRACE or k.op == 'attr' and not self.read_somewhere(k.args[1], f.module):
                        continue
                    a, b = [K.canon(K.lift(lambda o, v: v if o.op == 'raise' else K.NONE, [r, h.get(k, k)])) for r, h in ((r1, h1), (r2, h2))]
                    obs.append(('state of %s after a rejection' % K.show(k), a, b))
        except K.Budget as e:
            self.undecided(ob, where, 'summary too large: %s' % e)
            return 'UNDECIDED'
        except Missing:
            raise
        except RecursionError:
            self.undecided(ob, where, 'recursion limit while lifting')
            return 'UNDECIDED'
        if it.lost:
            self.undecided(ob, where, 'a store into an element of %s is not followed' % it.lost[0][:200])
            return 'UNDECIDED'
        worst = 'HOLDS'
        vocab = VOCAB
        if f.module is sf.module:
            # the functions a driver leaves open are its vocabulary
            vocab = dict(VOCAB, functions=set(VOCAB['functions']) | set(cfgkw.get('opaque', ())))
        extra = getattr(cfg.domain, 'vocabulary', None)
        if extra:
            vocab = dict(vocab, functions=set(vocab['functions']) | set(extra))
        for name, a, b in obs:
            if wrap:
                a, b = wrap(a), wrap(b)
            if zips and K.ZIPPED and a is not b:
                try:
                    a, b = [K.canon(t) for t in K.equal_lengths([a, b])]
                except K.Budget:
                    pass
            v = compare(a, b, vocab, allowed)
            if v.status != 'HOLDS' and any(x.op in ('max', 'min') for t in (a, b) for x in K.subterms(t)):
                try:
                    if K.canon(K.shifted_minmax(a)) is K.canon(K.shifted_minmax(b)):
                        v = Verdict('HOLDS')
                except K.Budget:
                    pass
            if v.status == 'VIOLATED' and any(calls(b, n) and not calls(a, n) for n in self.needs):
                v.status, v.why = 'UNDECIDED', 'the function no longer uses %s, in terms of which the reference is written' % ', '.join(sorted(self.needs))
            self.count('summaries_compared')
            if v.status == 'HOLDS':
                self.hold(ob, where, name)
            elif v.status == 'VIOLATED':
                worst = 'VIOLATED'
                self.violated(ob, where, '%s differs from the reference: %s' % (name, show_diff(v.diffs)))
            else:
                if worst == 'HOLDS':
                    worst = 'UNDECIDED'
                self.undecided(ob, where, '%s: %s; %s' % (name, v.why, show_diff(v.diffs)))
            if os.environ.get('VERIF_DEBUG'):
                print('   ', ob, '|', name, v.status, v.why)
                if v.status != 'HOLDS' or os.environ['VERIF_DEBUG'] == '3':
                    if os.environ['VERIF_DEBUG'] in '23':
                        print('     impl:', K.show(a, int(os.environ.get("VERIF_DEPTH", "12")))[:20000])
                        print('     spec:', K.show(b, int(os.environ.get("VERIF_DEPTH", "12")))[:20000])
                    print('     diff:', show_diff(v.diffs, 5))
        if not obs:
            self.hold(ob, where, 'no observable')
        return worst


def sharing(tree):
    """pairs of attributes that hold one collection made in the function"""
    out = set()
    for x in I.leaves(tree):
        if x.kind not in ('ret', 'fall'):
            continue
        held = {}
        for k, v in x.st.heap.items():
            n = 0
            while v.op == 'loc' and v in x.st.heap and x.st.heap[v].op == 'loc' and n < 20:
                v, n = x.st.heap[v], n + 1
            if k.op == 'attr' and v.op == 'loc' and v in x.st.heap and x.st.heap[v].op in ('cat', 'one', 'for', 'dict', 'set'):
                held.setdefault(v, []).append(k)
        for ks in held.values():
            ks.sort(key=lambda t: t.uid)
            out |= {(k, l) for i, k in enumerate(ks) for l in ks[i + 1:]}
    return out


def named(f):
    a = f.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


def calls(t, name):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('call', 'attr', 'ref', 'name', 'global') and any(a == name for a in x.args if isinstance(a, str)):
            return True
        todo.extend(K.children(x))
    return False


def ctx_guard(outcome, value):
    """value, where the function returns; the exception, where it raises"""
    r = K.lift(lambda o, v: o if o.op == 'raise' else v, [outcome, value])
    return K.canon(r)
