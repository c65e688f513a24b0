#!/usr/bin/env python3
"""cross.py N SEED [NAME...]: behaviour-preserving edits of the corpus, each given to every claimed check; prints what is not quiet."""
import concurrent.futures as cf
import glob, json, os, random, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n, seed = int(sys.argv[1]), int(sys.argv[2])
edits = []
for f in sorted(glob.glob(os.path.join(V, 'corpus', '*.py'))):
    edits += [(os.path.basename(f),) + tuple(e) for e in runpy.run_path(f)['EDITS'] if e[1] == 'keep']
random.Random(seed).shuffle(edits)
if sys.argv[3:]:
    edits = [e for e in edits if e[3] in sys.argv[3:]]
props = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]


def one(e):
    t = tempfile.mkdtemp(prefix='cross_')
    out = []
    try:
        shutil.copytree('/repo', t + '/repo', ignore=shutil.ignore_patterns('.git', 'examples', 'docs'))
        for f, old, new in e[4]:
            p = os.path.join(t, 'repo', f)
            s = open(p).read().replace(old, new, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, SCAKS_ROOT=t + '/repo', VERIF_EVIDENCE=t + '/ev')
        for p in props:
            r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(V, 'check.py'), p], capture_output=True, text=True, env=env, timeout=1800)
            if r.returncode != 0:
                out.append('%s: %s | %s | %s\n    %s' % (p, r.returncode, e[:2], e[3], '\n    '.join(l[:400] for l in (r.stdout + r.stderr[-300:]).splitlines() if 'violated' in l or r.returncode != 1)))
        return e, out
    finally:
        shutil.rmtree(t)


with cf.ThreadPoolExecutor(7) as ex:
    for e, out in ex.map(one, edits[:n]):
        print('%s %s: %s' % (e[0], e[3], 'quiet' if not out else ''), flush=True)
        for o in out:
            print('  ' + o, flush=True)
