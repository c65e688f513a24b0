#!/usr/bin/env python3
"""one.py NAME [cmd...]: apply the corpus edit NAME to a copy and run cmd (default: its check) there with SCAKS_ROOT set."""
import glob, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(os.path.join(V, 'corpus', '*.py'))):
    for prop, kind, name, reps in runpy.run_path(f)['EDITS']:
        if name == sys.argv[1]:
            t = tempfile.mkdtemp(prefix='corp_')
            try:
                shutil.copytree('/repo', t + '/repo', ignore=shutil.ignore_patterns('.git', 'examples', 'docs'))
                for g, old, new in reps:
                    p = os.path.join(t, 'repo', g)
                    s = open(p).read()
                    assert old in s, g
                    open(p, 'w').write(s.replace(old, new, 1))
                cmd = sys.argv[2:] or [sys.executable, os.path.join(V, 'check.py'), prop]
                cmd = [a.replace('%P', prop) for a in cmd]
                subprocess.run(cmd, env=dict(os.environ, SCAKS_ROOT=t + '/repo', VERIF_EVIDENCE=t + '/ev'))
            finally:
                shutil.rmtree(t)
