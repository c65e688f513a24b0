#!/usr/bin/env python3
"""plant.py DEFS.py [id ...]: make /verif/seeded/<id> from definitions and confirm each in a scratch copy.

DEFS.py defines PLANTS = [dict(id, prop, edits=[(file, old, new), ...], needs, breaks, demo, files={})]."""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run with cwd = the tree under test
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
cp "$d"/*.py "$t"/ 2>/dev/null
cd "$t" && timeout 250 /opt/venv/bin/python demo.py
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()


def run(cmd, cwd, env=None, t=300):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = ''; stderr = 'timeout'
        return R()


def tests(root):
    x = os.path.join(root, '..', 'junit.xml')
    r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
             '--ignore=scaks/tests/test_all.py', 'scaks/tests', '-o', 'junit_family=xunit2', '--junitxml=' + x], root, {'PYTHONPATH': root})
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(x).getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    return ok, r


BASE = None


def one(p):
    sd = os.path.join(VERIF, 'seeded', p['id'])
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        root = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        for f, old, new in p['edits']:
            fp = os.path.join(root, f)
            s = open(fp, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return p['id'], 'EDIT does not match once (%d): %s %r' % (s.count(old), f, old[:80])
            open(fp, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=root, capture_output=True).stdout
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(sd, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
        open(os.path.join(sd, 'demo.py'), 'w').write(p['demo'].lstrip('\n'))
        for n, t in p.get('files', {}).items():
            open(os.path.join(sd, n), 'w').write(t)
        json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                  open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
        d0 = run(['bash', os.path.join(sd, 'demo.sh')], '/repo')
        if d0.returncode != 0:
            return p['id'], 'DEMO FAILS ON CLEAN: ' + (d0.stdout + d0.stderr)[-600:]
        d1 = run(['bash', os.path.join(sd, 'demo.sh')], root)
        if d1.returncode == 0:
            return p['id'], 'DEMO PASSES WITH PATCH'
        ok, r = tests(root)
        lost = BASE - ok
        if lost:
            return p['id'], 'TESTS LOST: %s' % sorted(lost)[:3]
        c = run([sys.executable, os.path.join(VERIF, 'check.py'), p['prop']], VERIF,
                {'SCAKS_ROOT': root, 'VERIF_EVIDENCE': os.path.join(tmp, 'ev')}, 900)
        m = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        return p['id'], 'good; check %s rc=%s %s' % ('CAUGHT' if c.returncode == 1 and m else 'MISSED', c.returncode, (m or c.stdout.splitlines()[-1:])[0][:200]) + '   [demo: %s]' % (d1.stdout + d1.stderr).strip().splitlines()[-1][:120]
    finally:
        shutil.rmtree(tmp)


def baseline():
    tmp = tempfile.mkdtemp(prefix='plant_')
    root = os.path.join(tmp, 'repo')
    subprocess.run(['cp', '-a', '/repo', root], check=True)
    ok, r = tests(root)
    shutil.rmtree(tmp)
    return ok


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    todo = [p for p in ns['PLANTS'] if not want or p['id'] in want]
    BASE = baseline()
    print('baseline', len(BASE))
    with cf.ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(one, todo):
            print(i, '|', m, flush=True)
