"""Iterates of the root finders."""
RI = 'scaks/solvers/rootfinding_iterators.py'

EDITS = [
    ('C46', 'keep', 'newton inline', [
        (RI, '            fxn = -fx\n            Jx = J(x0)\n            s = mp.lu_solve(Jx, fxn)',
         '            Jx = J(x0)\n            s = mp.lu_solve(Jx, -fx)'),
    ]),
    ('C46', 'keep', 'newton negated', [
        (RI, '            s = mp.lu_solve(Jx, fxn)',
         '            s = -mp.lu_solve(Jx, fx)'),
    ]),
    ('C46', 'keep', 'newton helper', [
        (RI, '            s = mp.lu_solve(Jx, fxn)',
         '            s = self.direction(J, x0, fx)'),
        (RI, '    def __init__(self, f, x0, **kwargs):\n        self.f = f\n        if isin',
         '    def direction(self, J, x, fx):\n        return mp.lu_solve(J(x), -fx)\n\n    def __init__(self, f, x0, **kwargs):\n        self.f = f\n        if isin'),
    ]),
    ('C46', 'keep', 'newton for', [
        (RI, '            while True:\n                if x1 == x0:',
         '            l = l\n            while 1:\n                if x0 == x1:'),
    ]),
    ('C46', 'keep', 'newton half', [
        (RI, '                l /= 2\n',
         "                l *= mp.mpf('0.5')\n"),
    ]),
    ('C46', 'keep', 'newton cancel', [
        (RI, '        cancel = False\n        while not cancel:\n            # get direction',
         '        while True:\n            cancel = False\n            # get direction'),
        (RI, '            yield (tuple(x0), fxnorm, fx)',
         '            yield (tuple(x0), fxnorm, fx)\n            if cancel:\n                return'),
    ]),
    ('C46', 'keep', 'newton quarter', [
        (RI, '                l /= 2\n',
         '                l = l/4\n'),
    ]),
    ('C46', 'keep', 'newton less', [
        (RI, '                if newnorm < fxnorm:\n                    # new x accepted\n                    fxnorm = newnorm\n                    x0 = x1\n                    break\n                l /= 2\n                x1 = x0 + l*s',
         '                if fxnorm <= newnorm:\n                    l = 0.5*l\n                    x1 = x0 + l*s\n                    continue\n                fxnorm = newnorm\n                x0 = x1\n                break'),
    ]),
    ('C46', 'keep', 'newton fl', [
        (RI, '                x1 = self._matrix(x0) + self._mpfloat(l)*s\n                fx = self._matrix(f(tuple(x1)))\n                return norm(fx)',
         '                trial = self._matrix(x0) + self._mpfloat(l)*s\n                return norm(self._matrix(f(tuple(trial))))'),
    ]),
    ('C46', 'keep', 'newton lambda', [
        (RI, '            l = golden(fl)',
         '            l = golden(lambda l: norm(self._matrix(f(tuple(self._matrix(x0) + self._mpfloat(l)*s)))))'),
    ]),
    ('C46', 'keep', 'newton cmove', [
        (RI, '            if x1 == x0:\n                self.logger.info("Solver: Found stationary point.")\n                cancel = True\n',
         '            moved = x1 != x0\n            if not moved:\n                self.logger.info("Solver: Found stationary point.")\n            cancel = not moved\n'),
    ]),
    ('C46', 'keep', 'newton czd', [
        (RI, '            fx = self._matrix(f(x0))\n            fxn = -fx\n            Jx = J(x0)',
         '            fxn = -fx\n            Jx = J(x0)'),
    ]),
    ('C46', 'keep', 'newton crow', [
        (RI, '            x1 = self._matrix(x0) + self._mpfloat(l)*s  # matrix',
         '            step = self._mpfloat(l)*s\n            x1 = self._matrix(x0) + step'),
    ]),
    ('C46', 'keep', 'newton clocal', [
        (RI, '            x1 = self.constraint(tuple(x1))',
         '            limit = self.pseudo_constraint if iter_counter <= 5 else self.real_constraint\n            x1 = limit(tuple(x1))'),
    ]),
    ('C46', 'break', 'newton cancel', [
        (RI, '                    self.logger.info("Found stationary point.")\n                    cancel = True',
         '                    self.logger.info("Found stationary point.")\n                    cancel = False'),
    ]),
    ('C46', 'break', 'newton swap', [
        (RI, 'self._Axb_solver(Jx, fxn)',
         'self._Axb_solver(fxn, Jx)'),
    ]),
    ('C46', 'break', 'newton sign', [
        (RI, '            s = mp.lu_solve(Jx, fxn)',
         '            s = mp.lu_solve(Jx, fx)'),
    ]),
    ('C46', 'break', 'newton le', [
        (RI, 'if newnorm < fxnorm:',
         'if newnorm <= fxnorm:'),
    ]),
    ('C46', 'break', 'newton always', [
        (RI, 'if newnorm < fxnorm:',
         'if True:'),
    ]),
    ('C46', 'break', 'newton grow', [
        (RI, '                l /= 2\n',
         '                l *= 2\n'),
    ]),
    ('C46', 'break', 'newton from', [
        (RI, '                x1 = x0 + l*s\n\n            yield',
         '                x1 = x1 + l*s\n\n            yield'),
    ]),
    ('C46', 'break', 'newton start', [
        (RI, '            Jx = J(x0)\n            s = mp',
         '            Jx = J(self.x0)\n            s = mp'),
    ]),
    ('C46', 'break', 'newton first', [
        (RI, '            x1 = x0 + s\n',
         '            x1 = x0 + 2*s\n'),
    ]),
    ('C46', 'break', 'newton csign', [
        (RI, '            x1 = self._matrix(x0) + self._mpfloat(l)*s  # matrix',
         '            x1 = self._matrix(x0) - self._mpfloat(l)*s  # matrix'),
    ]),
    ('C46', 'break', 'newton cl', [
        (RI, '                fx = self._matrix(f(tuple(x1)))\n                return norm(fx)',
         '                fx = self._matrix(f(tuple(x1)))\n                return -norm(fx)'),
    ]),
    ('C46', 'break', 'newton cend', [
        (RI, '                self.logger.info("Solver: Found stationary point.")\n                cancel = True',
         '                self.logger.info("Solver: Found stationary point.")'),
    ]),
    ('C46', 'break', 'newton cend2', [
        (RI, '            if x1 == x0:\n                self.logger.info("Solver',
         '            if norm(fx) < 1e-8:\n                self.logger.info("Solver'),
    ]),
    ('C46', 'break', 'newton fixed', [
        (RI, '            Jx = J(x0)\n            try',
         '            Jx = J(self.x0)\n            try'),
    ]),
    ('C46', 'break', 'newton fixed2', [
        (RI, '            fx = self._matrix(f(x0))\n            fxn = -fx\n            Jx = J(x0)',
         '            Jx = J(x0)'),
        (RI, '            try:\n                s = self._Axb',
         '            if iter_counter == 1:\n                fxn = -fx\n            try:\n                s = self._Axb'),
    ]),
    ('C46', 'break', 'newton stale', [
        (RI, '                    x0 = x1\n                    break\n                l /= 2',
         '                    break\n                l /= 2'),
    ]),
    ('C46', 'break', 'newton fxn', [
        (RI, '            fx = self._matrix(f(x1))\n            x0, fxnorm = x1, norm(fx)\n\n            yield (x0, fxnorm, fx)',
         '            fx = self._matrix(f(x1))\n            fxnorm = norm(fx)\n\n            yield (x1, fxnorm, fx)'),
    ]),
]
