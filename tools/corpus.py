#!/usr/bin/env python3
"""corpus.py [-v] [PROP ...]: run the checks on edited copies of the tree (corpus/*.py).

Each corpus file defines EDITS = [(prop, kind, name, [(file, old, new), ...]), ...]; kind 'break' must be reported,
kind 'keep' (behaviour preserved) must stay quiet.  Development aid; no registered check reads this folder."""
import concurrent.futures as cf
import warnings, glob, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '-v']
verbose = '-v' in sys.argv
edits = []
for f in sorted(glob.glob(os.path.join(V, 'corpus', '*.py'))):
    edits += runpy.run_path(f)['EDITS']


def one(e):
    prop, kind, name, reps = e
    t = tempfile.mkdtemp(prefix='corp_')
    try:
        shutil.copytree('/repo', t + '/repo', ignore=shutil.ignore_patterns('.git', 'examples', 'docs'))
        for f, old, new in reps:
            p = os.path.join(t, 'repo', f)
            s = open(p).read()
            if s.count(old) < 1:
                return e, 'NOMATCH', f
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
            if p.endswith('.py'):
                warnings.simplefilter('ignore'); compile(s, p, 'exec')
        env = dict(os.environ, SCAKS_ROOT=t + '/repo', VERIF_EVIDENCE=t + '/ev')
        if verbose:
            env['VERIF_DEBUG'] = '1'
        r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(V, 'check.py'), prop], capture_output=True, text=True, env=env, timeout=900)
        und = sum(l.startswith('  undecided') for l in r.stdout.splitlines())
        ok = (r.returncode == 1) == (kind == 'break') and r.returncode in (0, 1)
        tag = ('ok' if ok else 'MISSED' if kind == 'break' else 'FALSE ALARM' if r.returncode == 1 else 'CRASH %d' % r.returncode)
        return e, tag + (' (%d undecided)' % und if und else ''), r.stdout + r.stderr
    finally:
        shutil.rmtree(t)


with cf.ThreadPoolExecutor(7) as ex:
    bad = 0
    for e, tag, out in ex.map(one, [e for e in edits if not args or e[0] in args or e[2] in args]):
        print('%-4s %-6s %-45s %s' % (e[0], e[1], e[2], tag))
        if not tag.startswith('ok') or verbose:
            bad += 1
            print('      ' + '\n      '.join(l[:900] for l in out.splitlines()[-14 if verbose else -6:]))
print('not as expected: %d' % bad)
