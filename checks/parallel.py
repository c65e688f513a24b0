"""Parallel runs: C26-C28."""
import ast
import re

from engine import terms as K
from engine import interp as I
from engine.domain import Domain
from engine.terms import raw
from . import check
from .rxn import VF

MP = 'scaks/mpicommons.py:MPIUtil.'


def is_call(t, name):
    return t.op == 'call' and isinstance(t.args[0], str) and t.args[0].split('.')[-1] == name


def is_rank(t):
    return is_call(t, 'Get_rank') or t.op == 'attr' and t.args[1] == 'rank'


def is_size(t):
    return is_call(t, 'Get_size') or t.op == 'attr' and t.args[1] == 'size'


def counts():
    d = Domain()
    d.integer = lambda t: is_rank(t) or is_size(t) or t.op == 'var' and t.args[0] == 'p0'
    d.nonneg = lambda t: is_rank(t) or K.is_num(t) and t.args[0] >= 0 and t.args[0].denominator == 1
    return d


def piece(c, t, ob, where):
    """slice(seq, f(rank), f(rank + 1)) with f(0) = 0 and f(size) = len(seq)"""
    b = t.args[0] if t.op == 'ret' else None
    if b is None or not (b.op == 'slice' and b.args[0].op == 'var'):
        if b is not None and b.op == 'var':          # everything: right for a single process only
            b = raw('slice', b, K.ZERO, raw('len', b), K.const(None))
        else:
            return c.undecided(ob, where, 'not a slice of the sequence: %s' % K.show(t)[:300])
    lo, hi, n = b.args[1], b.args[2], raw('len', b.args[0])
    lo = K.ZERO if lo is K.const(None) else lo
    hi = n if hi is K.const(None) else hi
    ranks = set(x for x in list(K.subterms(lo)) + list(K.subterms(hi)) if is_rank(x))
    sizes = set(x for x in list(K.subterms(lo)) + list(K.subterms(hi)) if is_size(x))
    if len(ranks) > 1 or len(sizes) > 1 or b.args[3] is not K.const(None):
        return c.undecided(ob, where, 'several ranks or a stride: %s' % K.show(b)[:300])
    r = ranks.pop() if ranks else raw('var', 'no rank')
    s = sizes.pop() if sizes else K.ONE
    if s is K.ONE and lo is K.ZERO and hi is n:
        return c.hold(ob, where, 'a single process gets everything')
    a = K.canon(K.subst(lo, {r: K.add(r, K.ONE)}))
    first, last = K.canon(K.subst(lo, {r: K.ZERO})), K.canon(K.subst(lo, {r: s}))
    c.decide(a is K.canon(hi), ob, where, 'the end of a piece, %s, is the begin of the next one, %s' % (K.show(hi), K.show(a)))
    c.decide(first is K.ZERO, ob, where, 'the first piece begins at %s' % K.show(first))
    c.decide(last is n, ob, where, 'the last piece ends at %s' % K.show(last))


@check('C26')
def partition(c):
    c.rule(VF)
    c.rule('telescoping: the piece of process r is sequence[f(r):f(r+1)], f(0) = 0 and f(number of processes) = len(sequence), decided on the polynomial/floor-division normal form of the two bounds; together the pieces are then the whole sequence in order')
    c.assumptions.append('MPI ranks are 0..size-1, allgather returns the contributions in rank order (MPI standard)')
    for m, obs in (('bcast', ('ret', 'trace')), ('barrier', ('ret', 'trace')), ('rank', ('ret',)), ('size', ('ret',)), ('is_master', ('ret',)), ('merge_seq', ('ret', 'trace'))):
        c.equiv(MP + m, 'parallel', m, observe=obs, effects=['mpi4py.MPI.COMM_WORLD.bcast', 'mpi4py.MPI.COMM_WORLD.barrier'], ob=m, domain=counts())
    f = c.repo.func(MP + 'split_seq')
    cfg = c.config(domain=counts())
    K.LIMIT[0] = K._counter[0] + 400000
    it, tree = c.summary(f, cfg, None, f.cls)
    c.functions.add(f.where)
    r = it.outcome(tree)
    atoms = [x for x in K.subterms(r) if x.op == 'truthy' and 'MPI_INSTALLED' in K.show(x)]
    for val in ((True, False) if atoms else (True,)):
        piece(c, K.canon(K.subst(r, {atoms[0]: K.const(val)}) if atoms else r), 'pieces of a sequence' + ('' if val else ' (no MPI)'), f.where)
    # the same sizes, with and without a case of its own for too few items: either will do
    kept, found = c.results, []
    for s in ('split_size', 'split_size_2'):
        c.results = []
        verdict = c.equiv(MP + 'split_size', 'parallel', s, domain=counts(), ob='sizes of the pieces')
        found.append((verdict, c.results))
        if verdict == 'HOLDS':
            break
    verdicts = [v for v, _ in found]
    if 'HOLDS' in verdicts or 'UNDECIDED' not in verdicts:
        kept.extend(found[-1 if 'HOLDS' in verdicts else 0][1])
    else:
        kept.extend(r for v, rs in found for r in rs if r[0] == 'UNDECIDED')
    c.results = kept


# -------------------------------------------------------------- traces
COLLECTIVE = ('barrier', 'Barrier', 'bcast', 'Bcast', 'allgather', 'Allgather', 'gather', 'Gather', 'scatter', 'reduce', 'allreduce', 'merge_seq', 'Scatter', 'alltoall')
MAKE = ('mkdir', 'makedirs')
USES = ('FileHandler', 'RotatingFileHandler', 'create', 'write', 'append')
REMOVE = ('remove', 'unlink', 'rename', 'rmtree', 'truncate', 'replace', 'rmdir', 'move', 'copy', 'copyfile')
EFFECTS = list(COLLECTIVE + MAKE + USES[:2] + REMOVE) + ['script_lattice_model']


def last(ev):
    return str(ev.args[0]).split('.')[-1]


def events(t, guards=()):
    """(guards, event) pairs of a trace, in program order"""
    if t.op == 'cat':
        for a in t.args:
            for x in events(a, guards):
                yield x
    elif t.op == 'ite':
        for x in events(t.args[1], guards + ((t.args[0], True),)):
            yield x
        for x in events(t.args[2], guards + ((t.args[0], False),)):
            yield x
    elif t.op == 'one':
        yield guards, t.args[0]
    elif t.op == 'for':
        v, (b,) = K.open_binder(t)
        for x in events(b, guards + ((raw('lt0', K.sub(K.ZERO, t.args[0])), True),)):
            yield x
    elif t.op == 'ret' or t is K.EMPTY:
        pass
    else:
        yield guards, raw('ev', '?', t)


def paths(t, cap=4000):
    """event sequences of a trace, with the decisions leading to them"""
    if t.op == 'cat':
        out = [((), ())]
        for a in t.args:
            pa = paths(a, cap)
            new = []
            for g, e in out:
                for g2, e2 in pa:
                    if any((c, not v) in g for c, v in g2):
                        continue
                    new.append((g + tuple(x for x in g2 if x not in g), e + e2))
            out = new
            if len(out) > cap:
                raise K.Budget('too many paths')
        return out
    if t.op == 'ite':
        return [(((t.args[0], val),) + g, e) for val, b in ((True, t.args[1]), (False, t.args[2])) for g, e in paths(b, cap)
                if (t.args[0], not val) not in g]
    if t.op == 'one':
        return [((), (t.args[0],))]
    if t.op == 'for':
        v, (b,) = K.open_binder(t)
        return [((), ())] + [p for p in paths(b, cap) if p[1]]
    if t is K.EMPTY:
        return [((), ())]
    return [((), (raw('ev', '?', t),))]


def mentions(t, pred):
    return any(pred(x) for x in K.subterms(t))


def is_local(t):
    """differs between processes: their rank, and what each of them sees of the file system"""
    return is_rank(t) or t.op == 'attr' and t.args[1] in ('is_master',) or \
        t.op == 'call' and isinstance(t.args[0], str) and (t.args[0].startswith('os.path.') and t.args[0] != 'os.path.join' or t.args[0] in ('os.listdir', 'os.stat', 'glob.glob', 'os.getpid', 'random.random', 'time.time'))


def is_master(t):
    return is_rank(t) or t.op == 'attr' and t.args[1] == 'is_master'


def is_exists(t):
    return t.op == 'call' and isinstance(t.args[0], str) and t.args[0].startswith('os.path.')


def prefix(t):
    """the constant begin of a path"""
    if t.op == 'str':
        return t.args[0]
    if t.op == 'scat':
        return prefix(t.args[0]) if t.args[0].op != 'str' or len(t.args) == 1 else t.args[0].args[0]
    if t.op == 'call' and t.args[0] == 'os.path.join' and len(t.args) > 1:
        return prefix(t.args[1]).rstrip('/') + '/'
    return ''


def norm(p):
    p = p.rstrip('/')
    return p[2:] if p.startswith('./') else p


def leaves(t, guards=()):
    if t.op == 'ite':
        for b, v in ((t.args[1], True), (t.args[2], False)):
            for x in leaves(b, guards + ((t.args[0], v),)):
                yield x
    elif t.op == 'scat':
        out = [(guards, ())]
        for a in t.args:
            new = []
            for g, acc in out:
                for g2, y in leaves(a, ()):
                    if not any((c, not v) in g for c, v in g2):
                        new.append((g + tuple(z for z in g2 if z not in g), acc + (y,)))
            out = new[:64]
        for g, acc in out:
            yield g, K.mk_scat(list(acc))
    else:
        yield guards, t


def single(guards):
    """True: one process, False: several, None: not decided"""
    for c, v in guards:
        if c.op == 'eq' and any(is_size(x) for x in c.args) and K.ONE in c.args:
            return v
        if c.op == 'lt0' and mentions(c, is_size):
            p = K.to_poly(c.args[0])
            s = [m for m in p if m]
            if len(s) == 1 and len(s[0]) == 1:
                k, c0 = p[s[0]], p.get((), 0)
                if k < 0 and c0 == 1:         # 1 - size < 0: several
                    return not v
                if k > 0 and c0 == -2:        # size - 2 < 0: one
                    return v
    return None


def summary(c, target, self_class=None, inline=('barrier', 'bcast', 'merge_seq', 'rank', 'size', 'is_master'), **kw):
    f = c.repo.func(target)
    cfg = c.config(inline=list(inline), effects=EFFECTS, domain=Domain(extra=canonical), **kw)
    K.LIMIT[0] = K._counter[0] + 900000
    it, tree = c.summary(f, cfg, None, c.repo.cls(self_class) if self_class else f.cls)
    c.functions.add(f.where)
    c.functions |= it.inlined
    h = it.final_heap(tree)
    return f, it, tree, h, with_mpi(K.trace_canon(h.get(I.TRACE, K.EMPTY)))


def with_mpi(t):
    return K.subst(t, {x: K.TRUE for x in K.subterms(t) if x.op == 'truthy' and 'MPI_INSTALLED' in K.show(x)})


def canonical(t):
    if t.op == 'attr' and t.args[1] == 'is_master' and t.args[0].op == 'new' and t.args[0].args[0] == 'MPIUtil':
        return K.eq(raw('attr', t.args[0], 'rank'), K.ZERO)
    return None


def parallel_functions(c):
    """functions that reach a collective operation or create a directory, by their own text"""
    out = []
    for m in c.repo.modules.values():
        if '/tests/' in m.rel or not m.rel.startswith('scaks/') or 'mpi' not in m.imports:
            continue
        for owner, fs in [(None, m.functions)] + [(k, k.methods) for k in m.classes.values()]:
            for f in fs.values():
                names = set(x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(f.node) if isinstance(x, (ast.Attribute, ast.Name)))
                if names & set(COLLECTIVE[:2] + COLLECTIVE[2:9] + MAKE) - {'reduce'}:
                    out.append((m, owner, f))
    return out


@check('C27')
def setup(c):
    c.rule('collective agreement: on the event trace of a function (callees in place), no barrier, broadcast or gather is guarded by the rank or by the state of the file system')
    c.rule('create-before-use: on every path of a parallel run, a directory only the master creates is created before a barrier that precedes every use of a path below it')
    c.rule('own files: in a parallel run, the log and data file names contain the rank')
    c.assumptions.append('all processes run the same program with the same parameters; a barrier returns only when every process has reached it')
    targets = [('scaks/models/kinetic_model.py:KineticModel._set_logger', None),
               ('scaks/models/micro_kinetic_model.py:MicroKineticModel.__init__', None),
               ('scaks/models/kmc_model.py:KMCModel.__init__', 'KMCModel')]
    seen = set(t for t, _ in targets)
    for m, owner, f in parallel_functions(c):
        if m.rel == 'scaks/mpicommons.py' or f.where.split(' ')[0] in seen:
            continue
        targets.append((f.where.split(' ')[0], None))
    made = set()
    for target, sc in targets:
        try:
            f, it, tree, heap, tr = summary(c, target, sc)
        except K.Budget as e:
            c.undecided('event trace', target, str(e))
            continue
        masters = set()
        for g, e in events(tr):
            name = last(e)
            if name == '?' and (mentions(e, lambda x: x.op == 'ev') or mentions(e, lambda x: x.op in ('fold', 'while'))):
                c.undecided('event trace', f.where, 'part of the trace is unresolved: %s' % K.show(e)[:200])
            if name in COLLECTIVE:
                bad = [k for k, _ in g if mentions(k, is_local)]
                c.decide(not bad, 'collective operation reached by all processes', f.where,
                         '%s under %s' % (name, ', '.join(K.show(k)[:200] for k in bad) or 'no local decision'))
                c.count('collectives')
            if name in MAKE:
                d = e.args[1]
                made.add(norm(prefix(d)))
                if any(mentions(k, is_master) for k, _ in g):
                    masters.add(e)
                safe = any(mentions(k, is_master) for k, _ in g) or K.raw('kw', 'exist_ok', K.TRUE) in e.args or single(g) is True
                c.decide(safe, 'directory created by one process', f.where, '%s of %s' % (name, K.show(d)[:100]))
        try:
            ps = paths(tr)
        except K.Budget as e:
            c.undecided('create before use', f.where, str(e))
            continue
        owned = set(norm(prefix(e.args[1])) for g, es in ps for e in es if last(e) in MAKE)
        for g, es in ps:
            if single(g) is True:
                continue
            for d in owned:
                waited = False
                for i, e in enumerate(es):
                    n = last(e)
                    if n in COLLECTIVE:
                        waited = True
                    elif n in MAKE and norm(prefix(e.args[1])) == d:
                        if e not in masters and K.raw('kw', 'exist_ok', K.TRUE) in e.args:
                            waited = True
                            continue
                        waited = False
                        if not any(last(x) in COLLECTIVE for x in es[i + 1:]):
                            c.violated('directory exists for every process', f.where, 'no barrier after the creation of %r' % d)
                    elif n in USES:
                        for lg, leaf in leaves(e.args[1] if len(e.args) > 1 else K.const('')):
                            if any((k, not v) in g for k, v in lg):
                                continue
                            if norm(prefix(leaf)).startswith(d + '/') or norm(prefix(leaf)) == d and prefix(leaf).endswith('/'):
                                c.decide(waited, 'directory exists before it is used', f.where, '%s below %r on the path %s' % (n, d, '; '.join(('' if v else 'not ') + K.show(k)[:80] for k, v in g)))
        # log files
        for g, e in events(tr):
            if last(e) == 'FileHandler':
                own_files(c, 'log file of its own', f.where, e.args[1], g, made)
    f, it, tree, heap, tr = summary(c, 'scaks/models/micro_kinetic_model.py:MicroKineticModel.data_file')
    own_files(c, 'data file of its own', f.where, with_mpi(it.outcome(tree)), (), made)


def distinct_names(x):
    """is the name another one for every rank (None: not known)"""
    ps = [p for p in (x.args if x.op == 'scat' else (x,)) if mentions(p, is_rank)]
    if x.op == 'scat' and len(ps) == 1:
        p = ps[0]
        if p.op == 'fmt' and re.fullmatch(r'[<>=^]?0?\d*d?', p.args[0]):
            p = p.args[1]
        if is_rank(p):
            return True
    ranks = set(y for y in K.subterms(x) if is_rank(y))
    seen = {}
    for r in range(130):
        t = folded(K.canon(K.subst(x, {y: K.num(r) for y in ranks})))
        if t is None:
            return None
        if t in seen:
            return False
        seen[t] = r
    return True


def folded(t):
    """the text a term without unknowns stands for"""
    if t.op == 'str':
        return t.args[0]
    if K.is_num(t) and t.args[0].denominator == 1:
        return int(t.args[0])
    if t.op == 'scat':
        ps = [folded(p) for p in t.args]
        return None if None in ps else ''.join(str(p) for p in ps)
    if t.op == 'fmt':
        v = folded(t.args[1])
        try:
            return None if v is None else format(v, t.args[0])
        except ValueError:
            return None
    return None


def own_files(c, ob, where, name, guards, made):
    n = 0
    for g, leaf in leaves(name, guards):
        if leaf.op == 'ret':
            leaf = leaf.args[0]
        for g2, x in leaves(leaf, g):
            if single(g2) is True or any(mentions(k, lambda y: y.op == 'isnone') and not v for k, v in g2):
                continue                       # one process, or a name the caller chose
            if any('MPI_INSTALLED' in K.show(k) and not v for k, v in g2):
                continue
            n += 1
            own = mentions(x, is_rank)
            if not own and mentions(x, lambda y: y.op == 'attr' and not is_size(y) or y.op in ('var', 'opaque', 'name')):
                c.undecided(ob, where, 'name %s' % K.show(x)[:200])
                continue
            one = distinct_names(x) if own else False
            if one is None:
                c.undecided(ob, where, 'name %s: whether it differs for every two ranks' % K.show(x)[:200])
            else:
                c.decide(one, ob, where, 'name %s in a parallel run' % K.show(x)[:200])
            p = prefix(x)
            if '/' in norm(p):
                d = norm(p[:p.rindex('/')])
                c.decide(d in made, 'directory of the file is created', where, '%r among %s' % (d, sorted(made)))
    if not n:
        c.violated(ob, where, 'no name for a parallel run: %s' % K.show(name)[:300])


PLUG = [('coverages_analysis.py', 'CoveragesAnalysis'), ('frequency_analysis.py', 'FrequencyAnalysis'), ('tof_analysis.py', 'TOFAnalysis'), ('event_analysis.py', 'EventAnalysis')]


def others(t):
    """the term as seen by a process that is not the master"""
    m, m0 = {}, {}
    for x in K.subterms(t):
        if x.op == 'eq' and any(is_rank(y) for y in x.args) and K.ZERO in x.args:
            m[x], m0[x] = K.FALSE, K.TRUE
        elif x.op == 'truthy' and is_rank(x.args[0]):
            m[x], m0[x] = K.TRUE, K.FALSE
        elif x.op == 'lt0':
            p = K.to_poly(x.args[0])
            s = [k for k in p if k]
            if not all(len(k) == 1 and (is_rank(k[0][0]) or is_size(k[0][0])) for k in s) or not any(is_rank(k[0][0]) for k in s):
                continue
            k, k0 = sum(p[y] for y in s if is_rank(y[0][0])), p.get((), 0)
            n = sum(p[y] for y in s if is_size(y[0][0]))
            # rank >= 1, size >= rank + 1 for the others; rank = 0, size >= 1 for the master
            if n:
                if n < 0 and k + n <= 0 and k0 + n < 0 and k + 2*n + k0 < 0:
                    m[x] = K.TRUE
                    if n + k0 < 0:
                        m0[x] = K.TRUE
                continue
            m0[x] = K.TRUE if k0 < 0 else K.FALSE
            if k > 0 and k + k0 >= 0:
                m[x] = K.FALSE
            elif k < 0 and k + k0 < 0:
                m[x] = K.TRUE
    return K.subst(t, m), K.subst(t, m0)


def writers_counter(k, name):
    """the attribute is only looked at by the method that writes the file (numbering its pieces) and by what only that one calls"""
    ALL = {'__init__', 'setup', 'registerStep', 'finalize'}
    uses = {n: [x for x in ast.walk(f.node) if isinstance(x, ast.Attribute)] for n, f in k.methods.items()}
    writers = {n for n, f in k.methods.items() if any(isinstance(x, ast.Name) and x.id == 'open' for x in ast.walk(f.node))}
    while True:
        more = set()
        for n in set(k.methods) - writers - ALL:
            callers = {m for m, xs in uses.items() for x in xs if x.attr == n}
            if callers and callers <= writers | {n}:
                more.add(n)
        if not more:
            break
        writers |= more
    return not any(x.attr == name and isinstance(x.ctx, ast.Load) for n in set(k.methods) - writers for x in uses[n])


@check('C28')
def master_only(c):
    c.rule('for a process whose rank is not 0, the event trace of every analysis method (callees in place) contains no creation, write or removal of a file')
    c.rule('the attributes an analysis keeps have the same value on every process, apart from buffers the master empties when it writes them')
    ALL = {'__init__', 'setup', 'registerStep', 'finalize'}
    classes = []
    for m in c.repo.modules.values():
        if m.rel.startswith('scaks/solvers/kmc_plugins/'):
            for k in m.classes.values():
                if ALL & set(k.methods):
                    classes.append((m, k))
    for m, k in classes:
        for name in sorted(ALL & set(k.methods)):
            target = '%s:%s.%s' % (m.rel, k.name, name)
            try:
                f, it, tree, heap, tr = summary(c, target, inline=('barrier', 'size', 'is_master'), opaque=['get_list_string', 'get_dict_string', 'collect_coverages'])
            except K.Budget as e:
                c.undecided('files of the master', target, str(e))
                continue
            tr2, _ = others(tr)
            bad = [(g, e) for g, e in events(tr2)]
            files = [(g, e) for g, e in bad if last(e) in USES + REMOVE + MAKE]
            odd = [(g, e) for g, e in bad if last(e) == '?']
            unsure = [k2 for g, e in files for k2, v in g if mentions(k2, is_rank)]
            if files and not unsure:
                for g, e in files:
                    c.violated('files are written by the master only', f.where, '%s of %s by every process' % (last(e), K.show(e.args[1])[:120]))
            elif files or odd:
                c.undecided('files are written by the master only', f.where, 'undecided guard or event: %s' % '; '.join(K.show(x)[:200] for x in unsure + [e for g, e in odd]))
            else:
                c.hold('files are written by the master only', f.where, '%d events of the master' % sum(1 for _ in events(tr)))
            for a, v in heap.items():
                if a.op != 'attr' or a is I.TRACE or not c.read_somewhere(a.args[1], f.module):
                    continue
                w, u = others(K.canon(v))
                if w is u:
                    c.hold('statistics do not depend on the rank', f.where, a.args[1])
                    continue
                w, u = K.expanded(w), K.expanded(u)
                ok = all(y in (K.EMPTY, K.ZERO) or y.op == 'str' or x is a and y is K.add(a, K.ONE) and writers_counter(k, a.args[1]) for x, y in differ(w, u))
                if mentions(w, is_rank) or not ok and mentions(v, lambda x: x.op in ('opaque', 'fold', 'while')):
                    c.undecided('statistics do not depend on the rank', f.where, '%s = %s' % (a.args[1], K.show(v)[:300]))
                else:
                    c.decide(ok, 'statistics do not depend on the rank', f.where, '%s: %s on the master, %s elsewhere' % (a.args[1], K.show(u)[:200], K.show(w)[:200]))
    # model script
    f, it, tree, heap, tr = summary(c, 'scaks/models/kmc_model.py:KMCModel.log_allowed', inline=('barrier', 'size', 'is_master'))
    w, u = others(K.canon(it.outcome(tree)))
    falsy = w.op == 'ret' and w.args[0] in (K.FALSE, K.ZERO, K.const(None))
    if falsy or w.op == 'ret' and w.args[0] is K.TRUE:
        c.decide(falsy, 'only the master logs and writes the model script', f.where, 'log_allowed is %s elsewhere' % K.show(w))
    else:
        c.undecided('only the master logs and writes the model script', f.where, K.show(w)[:200])
    f, it, tree, heap, tr = summary(c, 'scaks/solvers/kmc_solver.py:KMCSolver.run', opaque=['get_control_parameters', 'script_lattice_model', 'log_allowed', 'processes', 'configuration', 'sitesmap'], inline=('barrier',))
    tr = K.subst(tr, {x: K.FALSE for x in K.subterms(tr) if x.op == 'truthy' and x.args[0].op == 'attr' and x.args[0].args[1] == 'log_allowed'})
    files = [(g, e) for g, e in events(tr) if last(e) in USES + REMOVE + MAKE + ('script_lattice_model',)]
    c.decide(not files, 'only the master writes the model script', f.where, '; '.join(K.show(e)[:100] for g, e in files) or 'no file is written when logging is not allowed')


def differ(a, b):
    """pairs of alternatives of a and b that differ under the same decisions"""
    if a is b:
        return []
    for x in (a, b):
        if x.op == 'ite':
            k = x.args[0]
            return differ(K.cofactor(a, k, True), K.cofactor(b, k, True)) + differ(K.cofactor(a, k, False), K.cofactor(b, k, False))
    return [(a, b)]
