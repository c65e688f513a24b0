#!/usr/bin/env python3
"""seeded.py [ID ...]: the check of its property against each planted bug (on scratch copies); writes a table."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
def one(i):
    d = tempfile.mkdtemp(prefix='seed')
    try:
        p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        subprocess.run(f'git -C /repo archive HEAD scaks c++ | tar x -C {d} && cd {d} && git init -q && git apply {V}/seeded/{i}/patch.diff',
                       shell=True, check=True, capture_output=True)
        r = subprocess.run([sys.executable, V + '/check.py', p], env=dict(os.environ, SCAKS_ROOT=d, VERIF_EVIDENCE=d + '/ev'),
                           capture_output=True, text=True)
        return i, p, r.returncode
    except subprocess.CalledProcessError as e:
        return i, '?', str(e.stderr)[:200]
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(int(os.environ.get('J', 4))) as ex:
    for i, p, rc in ex.map(one, ids):
        print(p, i, {0: 'MISSED', 1: 'caught'}.get(rc, rc), flush=True)
