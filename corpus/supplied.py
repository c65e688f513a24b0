S = 'scaks/solvers/steady_state_solver.py'
M = 'scaks/solvers/mean_field_solver.py'
R = 'scaks/models/micro_kinetic_model.py'
K = '        kf, kr = self.get_rate_constants(relative_energies=relative_energies)\n'
RATES = '        # Rate constants(kf, kr).\n' + K + '''
        # Pressure.
        p = self._p

        # Concentration.
        c = self._c

        # Rate list.
'''
DT = '        # Rate constants(kf, kr).\n' + K + '''
        # Pressure.
        p = self._p

        # Concentration.
        c = self._c

        # Rate of coverage change(dtheta_dt).
'''
JK = '        # Rate constants(kf, kr).\n' + K + '''
        # Pressure.
        p = self._p

        # Concentration.
        c = self._c

        # Generate Jacobian matrix.
'''
ALONE = K.replace('relative_energies=relative_energies', '')
OWN = K.replace('relative_energies=relative_energies', 'relative_energies=self._owner.relative_energies')
OPT = '        if not relative_energies:\n            if self._owner.has_relative_energy:\n                relative_energies = self._owner.relative_energies\n'
NET = '        rfs, rrs = self.get_rates(cvgs_tuple, relative_energies)\n'
TOF = '        net_rates = self.get_net_rates(cvgs, relative_energies)\n'
RES = '        dtheta_dts = self.steady_state_function(cvgs_tuple, relative_energies)\n'
FS = '''        converged_cvgs = fsolve(self.steady_state_function, c0,
                                (relative_energies, ),
                                fprime=get_jacobian)
'''
GJ = '            jm = self.analytical_jacobian(c0, relative_energies).tolist()\n'
F = '        f = lambda x: self.steady_state_function(x, relative_energies=relative_energies)\n'
FR = '        f_resid = lambda x: self.get_residual(x, relative_energies=relative_energies)\n'
J = '        J = lambda x: self.analytical_jacobian(x, relative_energies=relative_energies)\n'
ODE = '            return list(self.steady_state_function(cvgs_tuple, relative_energies))\n'
GRC = '''        solver.get_rate_constants(relative_energies=relative_energies, log=True)
'''
GR = '''        rf, rr = solver.get_rates(cvgs_tuple=self.__ss_cvgs,
                                  relative_energies=relative_energies,
                                  log=True)
'''
GT = '''        self.__tofs = solver.get_tof(cvgs=self.__ss_cvgs,
                                     relative_energies=relative_energies)
'''
SS = '''            self.__ss_cvgs = solver.get_steady_state_cvgs(c0=init_cvgs,
                                                          relative_energies=relative_energies)
'''
FSS = '''            self.__ss_cvgs = solver.fsolve_steady_state_cvgs(c0=init_cvgs,
                                                             relative_energies=relative_energies)
'''
COARSE = '''                init_cvgs = solver.coarse_steady_state_cvgs(c0=init_cvgs,
                                                            relative_energies=relative_energies)
'''
POP = '        relative_energies = kwargs.pop("relative_energies", None)\n'
ERR = '        self._error = self.get_residual(self._coverages, relative_energies)\n'
FX = '                    fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts\n'
RS = '                    resid = self.get_residual(c0, relative_energies)\n'


def drop(old):
    for x in (', relative_energies=relative_energies', 'relative_energies=relative_energies, ', ', relative_energies'):
        if x in old:
            return old.replace(x, '')
    import re
    return re.sub(r',\s*relative_energies=relative_energies', '', old)


EDITS = [('C20', 'break', 'dropped: ' + old.strip()[:40], [(f, old, drop(old))])
         for f, old in [(M, NET), (M, TOF), (S, RES), (S, GJ), (S, F), (S, FR), (S, J), (S, ODE), (R, GRC), (R, GR), (R, GT), (R, SS), (R, FSS), (R, COARSE), (S, ERR), (S, FX), (S, RS)]] + [
    ('C20', 'break', 'rates of the model', [(M, RATES, RATES.replace(K, ALONE))]),
    ('C20', 'break', 'rates of the model by name', [(M, RATES, RATES.replace(K, OWN))]),
    ('C20', 'break', 'derivatives of the model', [(S, DT, DT.replace(K, ALONE))]),
    ('C20', 'break', 'jacobian of the model', [(S, JK, JK.replace(K, ALONE))]),
    ('C20', 'break', 'model first', [(M, OPT, '        if self._owner.has_relative_energy:\n            relative_energies = self._owner.relative_energies\n        if not relative_energies:\n            if False:\n                pass\n')]),
    ('C20', 'break', 'inverted default', [(M, OPT, OPT.replace('if not rel', 'if rel', 1))]),
    ('C20', 'break', 'model in the loop', [(M, '            kf, kr = rate_func(rxn_expression, relative_energies)\n', '            kf, kr = rate_func(rxn_expression, self._owner.relative_energies)\n')]),
    ('C20', 'break', 'fsolve without arguments', [(S, FS, FS.replace('                                (relative_energies, ),\n', ''))]),
    ('C20', 'break', 'fsolve with nothing', [(S, FS, FS.replace('(relative_energies, )', '(None, )'))]),
    ('C20', 'break', 'never popped', [(R, POP, '        relative_energies = None\n')]),
    ('C20', 'break', 'popped under another name', [(R, POP, POP.replace('"relative_energies"', '"energies"'))]),
    ('C20', 'break', 'popped and reset', [(R, SS, SS + '            relative_energies = None\n')]),
    ('C20', 'break', 'only for fsolve', [(R, POP, POP + '        energies = relative_energies if kwargs.get("fsolve") else None\n'), (R, GT, GT.replace('=relative_energies', '=energies'))]),
    ('C20', 'break', 'symbolic tof', [(R, GT, '        self.__tofs = solver.get_tof_by_sym(self.__ss_cvgs)\n')]),
    ('C20', 'break', 'helper without', [(S, RES, '        dtheta_dts = self._derivatives(cvgs_tuple)\n'), (S, '    def get_residual(', '    def _derivatives(self, cvgs_tuple):\n        return self.steady_state_function(cvgs_tuple)\n\n    def get_residual(')]),
    ('C20', 'break', 'kept constants', [(M, RATES, RATES.replace(K, '        if not hasattr(self, "_ks"):\n            self._ks = self.get_rate_constants(relative_energies=relative_energies)\n        kf, kr = self._ks\n'))]),
    ('C20', 'break', 'last constants', [(M, NET, NET + '        self._last = rfs, rrs\n'), (M, TOF, '        if hasattr(self, "_last"):\n            net_rates = [f - r for f, r in zip(*self._last)]\n        else:\n            net_rates = self.get_net_rates(cvgs, relative_energies)\n')]),
    ('C20', 'break', 'kept by coverages', [(M, NET, '        table = self.__dict__.setdefault("_known", {})\n        if tuple(cvgs_tuple) not in table:\n            table[tuple(cvgs_tuple)] = self.get_rates(cvgs_tuple, relative_energies)\n        rfs, rrs = table[tuple(cvgs_tuple)]\n')]),
    ('C20', 'break', 'barriers of the model mixed in', [(M, '        kfs, krs = [], []\n', '        relative_energies = dict(Gaf=relative_energies["Gaf"], Gar=relative_energies["Gar"],\n                                 dG=self._owner.relative_energies["dG"])\n        kfs, krs = [], []\n')]),
    ('C20', 'break', 'completed from the model', [(M, '        kfs, krs = [], []\n', '        relative_energies = dict(relative_energies, **self._owner.relative_energies)\n        kfs, krs = [], []\n')]),
    ('C20', 'break', 'no default', [(M, OPT, OPT.replace('if self._owner.has_relative_energy', 'if False').replace('relative_energies = self._owner.relative_energies', 'pass'))]),
    ('C20', 'break', 'nothing for xrc', [(R, '                                  epsilon=epsilon,\n                                  relative_energies=relative_energies)', '                                  epsilon=epsilon)')]),
    ('C20', 'break', 'model for xrc', [(S, '        if relative_energies is None:\n            relative_energies = self._owner.relative_energies\n\n        if self._owner.log_allowed:\n            self.__logger.info("Calculating Degree', '        relative_energies = self._owner.relative_energies\n\n        if self._owner.log_allowed:\n            self.__logger.info("Calculating Degree')]),
    ('C20', 'break', 'parameter removed', [(S, '    def get_residual(self, cvgs_tuple, relative_energies=None):', '    def get_residual(self, cvgs_tuple, **kwargs):'), (S, RES, RES.replace(', relative_energies', ''))]),
    ('C20', 'keep', 'helper', [(S, RES, '        dtheta_dts = self._derivatives(cvgs_tuple, relative_energies)\n'), (S, '    def get_residual(', '    def _derivatives(self, cvgs_tuple, energies):\n        return self.steady_state_function(cvgs_tuple, energies)\n\n    def get_residual(')]),
    ('C20', 'keep', 'default helper', [(M, OPT, '        if not relative_energies:\n            if self._owner.has_relative_energy:\n                relative_energies = self._model_energies()\n'), (M, '    @Memoized\n    def get_rate_constants', '    def _model_energies(self):\n        return self._owner.relative_energies\n\n    @Memoized\n    def get_rate_constants')]),
    ('C20', 'keep', 'energies helper', [(M, OPT, '        relative_energies = self._energies(relative_energies)\n        if not relative_energies:\n            if False:\n                pass\n'), (M, '    @Memoized\n    def get_rate_constants', '    def _energies(self, relative_energies=None):\n        if relative_energies:\n            return relative_energies\n        if self._owner.has_relative_energy:\n            return self._owner.relative_energies\n        return None\n\n    @Memoized\n    def get_rate_constants')]),
    ('C20', 'keep', 'or', [(M, OPT, '        relative_energies = relative_energies or self._owner.relative_energies\n        if not relative_energies:\n            if False:\n                pass\n')]),
    ('C20', 'keep', 'keyword dictionary', [(R, GT, '        options = dict(relative_energies=relative_energies)\n        self.__tofs = solver.get_tof(cvgs=self.__ss_cvgs, **options)\n')]),
    ('C20', 'keep', 'one dictionary throughout', [(R, GRC, '        options = {"relative_energies": relative_energies, "log": True}\n        solver.get_rate_constants(**options)\n'), (R, GR, '        rf, rr = solver.get_rates(cvgs_tuple=self.__ss_cvgs, **options)\n')]),
    ('C20', 'keep', 'partial', [(S, F, '        f = functools.partial(self.steady_state_function, relative_energies=relative_energies)\n'), (S, 'import copy\n', 'import copy\nimport functools\n')]),
    ('C20', 'keep', 'nested functions', [(S, F, '        def f(x):\n            return self.steady_state_function(x, relative_energies)\n')]),
    ('C20', 'keep', 'pop when given', [(R, POP, '        relative_energies = None\n        if "relative_energies" in kwargs:\n            relative_energies = kwargs.pop("relative_energies")\n')]),
    ('C20', 'keep', 'get and delete', [(R, POP, '        relative_energies = kwargs.get("relative_energies")\n        kwargs.pop("relative_energies", None)\n')]),
    ('C20', 'keep', 'explicit parameter', [(R, POP, ''), (R, '    def run(self, **kwargs):', '    def run(self, relative_energies=None, **kwargs):')]),
    ('C20', 'keep', 'renamed local', [(R, POP, POP.replace('relative_energies =', 'energies =')), (R, GRC, GRC.replace('=relative_energies', '=energies')), (R, GR, GR.replace('=relative_energies', '=energies')), (R, GT, GT.replace('=relative_energies', '=energies')),
                                     (R, SS, SS.replace('=relative_energies', '=energies')), (R, FSS, FSS.replace('=relative_energies', '=energies')), (R, COARSE, COARSE.replace('=relative_energies', '=energies')),
                                     (R, '                                  epsilon=epsilon,\n                                  relative_energies=relative_energies)', '                                  epsilon=epsilon,\n                                  relative_energies=energies)'),
                                     (R, 'solver.solve_ode(relative_energies=relative_energies)', 'solver.solve_ode(relative_energies=energies)')]),
    ('C20', 'keep', 'copied', [(R, POP, POP + '        if relative_energies is not None:\n            relative_energies = {key: list(value) for key, value in relative_energies.items()}\n')]),
    ('C20', 'keep', 'positional', [(M, TOF, '        args = (cvgs, relative_energies)\n        net_rates = self.get_net_rates(*args)\n')]),
    ('C20', 'keep', 'solve chosen', [(R, SS, '            solve = solver.get_steady_state_cvgs\n            self.__ss_cvgs = solve(c0=init_cvgs, relative_energies=relative_energies)\n')]),
    ('C20', 'keep', 'unpacked later', [(M, RATES, RATES.replace(K, '        constants = self.get_rate_constants(relative_energies=relative_energies)\n        kf, kr = constants\n'))]),
    ('C20', 'keep', 'shared helper', [(M, RATES, RATES.replace(K, '        kf, kr = self._constants(relative_energies)\n')), (S, DT, DT.replace(K, '        kf, kr = self._constants(relative_energies)\n')), (M, '    @Memoized\n    def get_rate_constants', '    def _constants(self, relative_energies):\n        return self.get_rate_constants(relative_energies=relative_energies)\n\n    @Memoized\n    def get_rate_constants')]),
    ('C20', 'keep', 'fsolve keyword', [(S, FS, FS.replace('(relative_energies, )', 'args=(relative_energies, )'))]),
    ('C20', 'keep', 'fsolve lambda', [(S, FS, '        converged_cvgs = fsolve(lambda x: self.steady_state_function(x, relative_energies), c0,\n                                fprime=lambda x: get_jacobian(x, relative_energies))\n')]),
    ('C20', 'keep', 'ode parameters', [(S, ODE, ODE.replace('relative_energies', 'energies')), (S, '        def f(t, cvgs_tuple):\n', '        def f(t, cvgs_tuple, energies):\n'), (S, '        r.set_initial_value(', '        r.set_f_params(relative_energies)\n        r.set_initial_value(')]),
    ('C20', 'keep', 'log', [(R, POP, POP + '        if relative_energies is not None and relative_energies is not self.relative_energies:\n            self._logger.info("energies supplied")\n')]),
    ('C20', 'keep', 'comparison in the log', [(M, TOF, TOF + '        self.__logger.debug("%s", self._owner.relative_energies)\n')]),
    ('C20', 'keep', 'kept by energies', [(M, NET, '        table = self.__dict__.setdefault("_known", {})\n        key = (tuple(cvgs_tuple), repr(relative_energies or self._owner.relative_energies))\n        if key not in table:\n            table[key] = self.get_rates(cvgs_tuple, relative_energies)\n        rfs, rrs = table[key]\n')]),
]
