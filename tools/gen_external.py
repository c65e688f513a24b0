#!/opt/venv/bin/python
"""names of the libraries the package uses -> engine/external.json (run with the interpreter that has them)"""
import builtins
import importlib
import inspect
import json
import os
MODS = ['numpy', 'numpy.linalg', 'numpy.random', 'sympy', 'mpmath', 'scipy', 'scipy.optimize', 'scipy.integrate', 'scipy.linalg', 'scipy.interpolate',
        'math', 'copy', 'os', 'os.path', 're', 'time', 'functools', 'operator', 'itertools', 'logging', 'logging.handlers', 'pickle', 'sys', 'collections',
        'string', 'random', 'importlib', 'cProfile', 'pstats', 'warnings', 'subprocess', 'json', 'xml.etree.ElementTree', 'traceback', 'tempfile', 'shutil',
        'contextlib', 'types', 'inspect', 'fractions', 'decimal', 'glob', 'io', 'datetime', 'threading', 'multiprocessing', 'concurrent.futures', 'pathlib', 'argparse', 'unittest']
mods, vocab = {}, set()
for n in MODS:
    try:
        m = importlib.import_module(n)
    except ImportError:
        continue
    mods[n] = sorted(k for k in dir(m))
    for k in dir(m):
        vocab.add(k)
        x = getattr(m, k, None)
        if inspect.isclass(x):
            vocab.update(dir(x))
for k in dir(builtins):
    x = getattr(builtins, k)
    vocab.add(k)
    if inspect.isclass(x):
        vocab.update(dir(x))
import mpmath, sympy, scipy.integrate, numpy, logging, re, pstats, cProfile
x = sympy.Symbol('x')
for o in (mpmath.mp, mpmath.mpf(1), mpmath.matrix(1), mpmath.mpc(1), x, x + 1, x * 2, x ** 2, sympy.Matrix([x]), sympy.exp(x), sympy.Integer(2), sympy.Float(2.5), numpy.zeros(2), numpy.matrix([1]),
          numpy.float64(1), scipy.integrate.ode(lambda t, y: y), logging.getLogger(), logging.StreamHandler(), logging.FileHandler('/dev/null'), logging.Formatter(), re.compile('x'), re.match('x', 'x'), open('/dev/null'),
          open('/dev/null', 'rb'), cProfile.Profile(), iter([]), iter(''), (x for x in []), __import__('xml.etree.ElementTree', fromlist=['x']).Element('x')):
    vocab.update(dir(o))
    vocab.update(getattr(o, '__dict__', {}))
out = {'modules': mods, 'vocabulary': sorted(vocab - set(x for v in mods.values() for x in v))}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine', 'external.json')
with open(p, 'w') as f:
    json.dump(out, f, separators=(',', ':'), sort_keys=True)
    f.write('\n')
print(len(mods), len(vocab))
