#!/usr/bin/env python3
"""mutate.py N SEED [FILE-SUBSTRING...]: random one-token mutants of the package that keep the test suite passing, each
given to the checks that analyse the mutated function; prints the ones no check reports (for reading: many change nothing observable)."""
import ast, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import plant
SKIP = ('/tests/', 'thermo_data',  'plotters', 'images2gif', 'profiling', '__init__', 'elements_data', 'setup', 'examples', 'docs')
OPS = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
TXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Pow: ('**', '*')}


def offset(lines, l, c):
    return sum(len(x) for x in lines[:l - 1]) + len(lines[l - 1].encode()[:c].decode())


def muts(path):
    s = open(path, newline='').read()
    t = ast.parse(s)
    lines = s.splitlines(True)
    seg = lambda n: (offset(lines, n.lineno, n.col_offset), offset(lines, n.end_lineno, n.end_col_offset))
    out = []

    def put(fn, a, b, new, n):
        out.append((fn, n.lineno, a, b, new, s[a:b]))

    def between(fn, l, r, old, new, n):
        a, b = seg(l)[1], seg(r)[0]
        i = s.find(old, a, b)
        if i >= 0:
            put(fn, i, i + len(old), new, n)

    def stmt(fn, n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        txt = s[slice(*seg(n))]
        if re.match(r'(self\.)?_*logger|print|self\._*log_|logging\.|warnings', txt):
            return
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr)) or isinstance(n, (ast.AugAssign, ast.Break, ast.Continue)) or \
           (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            put(fn, *seg(n), 'pass', n)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value in (True, False) and type(n.value.value) is bool:
            put(fn, *seg(n.value), str(not n.value.value), n)
        for c in ast.iter_child_nodes(n):
            visit(fn, c)

    def visit(fn, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            name = fn + '.' + n.name if fn else n.name
            for b in n.body:
                visit(name, b)
            return
        if isinstance(n, ast.stmt):
            return stmt(fn, n)
        if isinstance(n, ast.Call):
            txt = s[slice(*seg(n.func))]
            if 'logger' in txt or txt.endswith('Error'):
                return
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and txt != 'isinstance':
                (a, b), (d, e) = seg(n.args[0]), seg(n.args[1])
                put(fn, a, e, s[d:e] + s[b:d] + s[a:b], n)
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Constant) and type(k.value.value) is bool:
                    put(fn, *seg(k.value), str(not k.value.value), n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OPS:
            between(fn, n.left, n.comparators[0], TXT[type(n.ops[0])], OPS[type(n.ops[0])], n)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
            between(fn, n.left, n.right, *BIN[type(n.op)], n)
        if isinstance(n, ast.BoolOp):
            between(fn, n.values[0], n.values[1], 'and' if isinstance(n.op, ast.And) else 'or', 'or' if isinstance(n.op, ast.And) else 'and', n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = seg(n)
            d, e = seg(n.operand)
            put(fn, a, b, s[d:e], n)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            put(fn, *seg(n), repr(n.value + 1), n)
        if isinstance(n, (ast.IfExp, )):
            a, b = seg(n.test)
            put(fn, a, b, 'not (%s)' % s[a:b], n)
        for c in ast.iter_child_nodes(n):
            visit(fn, c)
    for b in t.body:
        visit('', b)
    return s, out


def anal():
    m = {}
    for f in glob.glob(os.path.join(V, 'evidence', 'C*.json')):
        d = json.load(open(f))
        for x in d['coverage'].get('functions_analysed', []):
            m.setdefault(re.sub(r' \(line \d+\)', '', x), set()).add(d['property'])
    return m


GENERAL = ['C36', 'C21', 'C10', 'C24', 'C41']


def one(m):
    f, fn, ln, a, b, new, old = m
    tmp = tempfile.mkdtemp(prefix='mut_')
    try:
        root = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', root, ignore=shutil.ignore_patterns('.git', 'docs'))
        p = os.path.join(root, f)
        s = open(p, newline='').read()
        s = s[:a] + new + s[b:]
        try:
            compile(s, p, 'exec')
        except SyntaxError:
            return m, 'syntax', None
        open(p, 'w', newline='').write(s)
        try:
            ok, r = plant.tests(root)
        except Exception as e:
            return m, 'tests', None
        if plant.BASE - ok:
            return m, 'tests', None
        key = f + ':' + fn
        ps = M.get(key) or M.get(key.rpartition('.')[0], set())
        if not ps:
            return m, 'unanalysed', None
        order = sorted(p for p in ps if p not in GENERAL) + [g for g in GENERAL if g in ps]
        und = []
        for p in order:
            if p not in CLAIMED:
                continue
            r = plant.run([sys.executable, '-W', 'ignore', os.path.join(V, 'check.py'), p], V, {'SCAKS_ROOT': root, 'VERIF_EVIDENCE': os.path.join(tmp, 'ev')}, 600)
            if r.returncode == 1:
                return m, 'caught', p
            e = os.path.join(tmp, 'ev', p + '.json')
            if os.path.exists(e) and json.load(open(e))['coverage'].get('undecided'):
                und.append(p)
        return m, 'QUIET', 'undecided: %s; of %s' % (','.join(und), ','.join(order))
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    ms = []
    for p in sorted(glob.glob('/repo/scaks/**/*.py', recursive=True)):
        f = os.path.relpath(p, '/repo')
        if any(k in p for k in SKIP) or (sys.argv[3:] and not any(k in f for k in sys.argv[3:])):
            continue
        try:
            ms += [(f,) + m for m in muts(p)[1]]
        except SyntaxError:
            pass
    print(len(ms), 'mutants')
    random.Random(seed).shuffle(ms)
    M = anal()
    CLAIMED = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
    plant.BASE = plant.baseline()
    tally = {}
    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_J', '7'))) as ex:
        for m, st, info in ex.map(one, ms[:n]):
            tally[st] = tally.get(st, 0) + 1
            if st in ('QUIET', 'unanalysed'):
                f, fn, ln, a, b, new, old = m
                src = open('/repo/' + f).read().splitlines()[ln - 1].strip()
                print('%s %s:%s:%d  [%s -> %s]  %s   (%s)' % (st, f, fn, ln, old[:60].replace('\n', ' '), new[:60].replace('\n', ' '), src[:100], info), flush=True)
    print(tally)
