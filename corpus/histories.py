S = 'scaks/solvers/steady_state_solver.py'
R = 'scaks/solvers/rootfinding_iterators.py'
NEG = """                            for cvg in x:
                                if cvg < 0.0:
                                    lt_zero = True  # less than 0
                                    break
                                else:
                                    lt_zero = False
"""
NEWG = """                    if not self._owner.hybrid_method:
                        msg = 'No hybrid method registered for hybrid iteration'
                        self.__logger.warning(msg)
                        break
                    else:
                        c0 = self._owner.hybrid_method(self._owner, icvg_counter)
                        c0 = self.__constrain_coverages(c0)
                        icvg_counter += 1
"""
NEWX = """                if not self._owner.hybrid_method:
                    msg = 'No hybrid method registered for hybrid iteration'
                    self.__logger.warning(msg)
                    break
                else:
                    c0 = self._owner.hybrid_method(self._owner, icvg_counter)
                    c0 = self.__constrain_coverages(c0)
                    icvg_counter += 1
            finally:
"""
DEF = "    def get_steady_state_cvgs(self, c0=None"
SETUP = """                for ap in self._owner.analysis:
                    ap.setup(self._owner, icvg_counter)
                    started_analysis.append(ap)
"""
STEP = """                    for ap in self._owner.analysis:
                        if nt_counter % ap.interval == 0:
                            ap.register_step(self._owner,
                                             nt_counter,
                                             icvg_counter)
"""
ARCH = """            # Archive converged root and error.
            self.archive_data('steady_state_coverages', self._coverages)
            self.archive_data('steady_state_error', self._error)
"""
EDITS = [
    ('C18', 'break', 'residual not checked', [(S, "                        if resid < self._owner.tolerance:\n", "                        if resid < 1.0:\n")]),
    ('C18', 'break', 'small negative allowed', [(S, "if cvg < 0.0:\n                                    lt_zero", "if cvg < -1e-10:\n                                    lt_zero")]),
    ('C18', 'break', 'last coverage only', [(S, "                                    lt_zero = True  # less than 0\n                                    break\n", "                                    lt_zero = True  # less than 0\n")]),
    ('C18', 'break', 'first coverage only', [(S, "                                else:\n                                    lt_zero = False\n", "                                else:\n                                    lt_zero = False\n                                    break\n")]),
    ('C18', 'break', 'negative root converged', [(S, "                                cancel = False\n                                break\n                        else:\n", "                                cancel = converged = True\n                                self._coverages = x\n                                break\n                        else:\n")]),
    ('C18', 'break', 'limit counts as convergence', [(S, "                        # Jump out of loop for this c0\n                        cancel = False\n", "                        # Jump out of loop for this c0\n                        cancel = converged = bool(error < 1e-6)\n")]),
    ('C18', 'break', 'no hybrid counts as convergence', [(S, "                        self.__logger.warning(msg)\n                        break\n                    else:\n                        c0 = ", "                        self.__logger.warning(msg)\n                        converged = self._error < self._owner.tolerance\n                        break\n                    else:\n                        c0 = ")]),
    ('C18', 'break', 'error of old iterate', [(S, "                                self._error = error\n                                if self._owner.log_allowed:\n", "                                self._error = old_error\n                                if self._owner.log_allowed:\n")]),
    ('C18', 'break', 'own energies for residual', [(S, "f_resid = lambda x: self.get_residual(x, relative_energies=relative_energies)", "f_resid = lambda x: self.get_residual(x)")]),
    ('C18', 'break', 'guess unconstrained', [(S, "        c0 = self.__constrain_coverages(c0)\n        self.__initial_guess = c0\n", "        self.__initial_guess = self.__constrain_coverages(c0)\n")]),
    ('C18', 'break', 'hybrid unconstrained after failure', [(S, NEWX, NEWX.replace("                    c0 = self.__constrain_coverages(c0)\n", ""))]),
    ('C18', 'break', 'signed residual', [(S, "residual = max([abs(dtheta_dt) for dtheta_dt in dtheta_dts])", "residual = abs(sum(dtheta_dts))")]),
    ('C18', 'break', 'limit ignored', [(S, "if ((not reach_max_iter) and (error < self._owner.tolerance)):", "if error < self._owner.tolerance:")]),
    ('C18', 'break', 'guess accepted by norm', [(S, "if f_resid(c0) <= self._owner.tolerance and not single_pt:", "if not single_pt and self._norm(f(c0)) <= self._owner.tolerance*len(c0):")]),
    ('C18', 'break', 'converged kept from failure', [(S, "                    converged = True\n                    self._coverages = c0\n", "                    converged = True\n"), (S, "                    self._error = error\n                    if self._owner.log_allowed:\n                        self.__logger.info('error = %e', error)\n                    break\n", "                    self._error = error\n                    break\n")]),
    ('C18', 'break', 'yielded before update', [(R, "            fx = self._matrix(f(x1))\n            x0, fxnorm = x1, norm(fx)\n\n            yield", "            x0, fxnorm = x1, norm(fx)\n            fx = self._matrix(f(x1))\n\n            yield")]),
    ('C18', 'break', 'MD norm of last trial', [(R, "                    fxnorm = newnorm\n                    x0 = x1\n                    break\n                l /= 2\n", "                    fxnorm = newnorm\n                    x0 = x1\n                    break\n                fxnorm = newnorm\n                l /= 2\n")]),
    ('C18', 'break', 'archived error', [(S, "self.archive_data('steady_state_error', self._error)", "self.archive_data('steady_state_error', old_error if not converged else self._owner.tolerance)")]),
    ('C18', 'keep', 'any', [(S, NEG, "                            lt_zero = any(cvg < 0.0 for cvg in x)\n")]),
    ('C18', 'keep', 'min', [(S, NEG, "                            lt_zero = min(x) < 0.0\n")]),
    ('C18', 'keep', 'helper for negative', [(S, NEG, "                            lt_zero = self.__negative(x)\n"), (S, DEF, "    @staticmethod\n    def __negative(coverages):\n        for theta in coverages:\n            if theta < 0.0:\n                return True\n        return False\n\n" + DEF)]),
    ('C18', 'keep', 'next guess helper', [(S, NEWG, NEWG.replace("                        c0 = self._owner.hybrid_method(self._owner, icvg_counter)\n                        c0 = self.__constrain_coverages(c0)\n", "                        c0 = self.__next_guess(icvg_counter)\n")), (S, NEWX, NEWX.replace("                    c0 = self._owner.hybrid_method(self._owner, icvg_counter)\n                    c0 = self.__constrain_coverages(c0)\n", "                    c0 = self.__next_guess(icvg_counter)\n")), (S, DEF, "    def __next_guess(self, n):\n        guess = self._owner.hybrid_method(self._owner, n)\n        return self.__constrain_coverages(guess)\n\n" + DEF)]),
    ('C18', 'keep', 'while True', [(S, "        while not cancel:  # outer loop", "        while True:  # outer loop"), (S, "                if not cancel:\n                    # get a new", "                if cancel:\n                    break\n                else:\n                    # get a new")]),
    ('C18', 'keep', 'enumerate', [(S, "                for x, error, fx in newton_iterator:  # inner loop\n                    nt_counter += 1\n", "                for nt_counter, (x, error, fx) in enumerate(newton_iterator, 1):\n")]),
    ('C18', 'keep', 'archive helper', [(S, ARCH, "            self.__archive_solution()\n"), (S, DEF, "    def __archive_solution(self):\n        self.archive_data('steady_state_coverages', self._coverages)\n        self.archive_data('steady_state_error', self._error)\n\n" + DEF)]),
    ('C18', 'keep', 'residual before', [(S, "if f_resid(c0) <= self._owner.tolerance and not single_pt:", "good = f_resid(c0) <= self._owner.tolerance\n                if good and not single_pt:")]),
    ('C18', 'keep', 'order of conditions', [(S, "if ((not reach_max_iter) and (error < self._owner.tolerance)):", "if error < self._owner.tolerance and not reach_max_iter:")]),
    ('C18', 'keep', 'nested functions', [(S, "        f_resid = lambda x: self.get_residual(x, relative_energies=relative_energies)\n", "        def f_resid(x):\n            return self.get_residual(x, relative_energies)\n")]),
    ('C18', 'keep', 'not converged early', [(S, "        if converged:\n            # Archive converged root and error.", "        if not converged:\n            return None\n        else:\n            # Archive converged root and error.")]),
    ('C18', 'keep', 'success method', [(S, "                                self._coverages = x\n                                self._error = error\n                                if self._owner.log_allowed:\n                                    self.__logger.info('error = %e', min(error, resid))\n", "                                self.__accept(x, error)\n"), (S, DEF, "    def __accept(self, coverages, error):\n        self._coverages, self._error = coverages, error\n        if self._owner.log_allowed:\n            self.__logger.info('error = %e', error)\n\n" + DEF)]),
    ('C18', 'keep', 'yield locals', [(R, "            fx = self._matrix(f(x1))\n            x0, fxnorm = x1, norm(fx)\n\n            yield (x0, fxnorm, fx)", "            x0 = x1\n            fx = self._matrix(f(x0))\n            fxnorm = norm(fx)\n\n            yield x0, fxnorm, fx")]),
    ('C18', 'keep', 'residual expression', [(S, "residual = max([abs(dtheta_dt) for dtheta_dt in dtheta_dts])", "residual = 0.0\n        for rate in dtheta_dts:\n            residual = max(residual, abs(rate))")]),
    ('C35', 'break', 'finalised before setup', [(S, SETUP, SETUP.replace("                    ap.setup(self._owner, icvg_counter)\n                    started_analysis.append(ap)\n", "                    started_analysis.append(ap)\n                    ap.setup(self._owner, icvg_counter)\n"))]),
    ('C35', 'break', 'finalize all', [(S, "                for ap in started_analysis:\n", "                for ap in self._owner.analysis:\n")]),
    ('C35', 'break', 'next attempt number', [(S, "ap.finalize(self._owner, attempt)", "ap.finalize(self._owner, icvg_counter)")]),
    ('C35', 'break', 'list kept', [(S, "            attempt, started_analysis = icvg_counter, []\n", "            attempt = icvg_counter\n"), (S, "        converged = False  # Flag for convergence.\n", "        converged = False  # Flag for convergence.\n        started_analysis = []\n")]),
    ('C35', 'break', 'not finally', [(S, "            finally:\n                for ap in started_analysis:\n                    ap.finalize(self._owner, attempt)\n", "            for ap in started_analysis:\n                ap.finalize(self._owner, attempt)\n")]),
    ('C35', 'break', 'interval off by one', [(S, "if nt_counter % ap.interval == 0:", "if (nt_counter - 1) % ap.interval == 0:")]),
    ('C35', 'break', 'step before acceptance', [(S, STEP, ""), (S, "                    # Reach the max iteraction time or not.\n", STEP + "                    # Reach the max iteraction time or not.\n")]),
    ('C35', 'break', 'counter not reset', [(S, "                nt_counter = 0    # newton loop counter, inner\n", ""), (S, "        cancel = False\n\n        converged", "        cancel = False\n        nt_counter = 0\n\n        converged")]),
    ('C35', 'break', 'residual branch skips', [(S, "                            error = f_resid(x)  # use residual as error and continue\n", "                            error = f_resid(x)  # use residual as error and continue\n                            continue\n")]),
    ('C35', 'break', 'break after first', [(S, STEP, STEP + "                            break\n")]),
    ('C35', 'keep', 'helpers', [(S, SETUP, "                self.__set_up(started_analysis, icvg_counter)\n"), (S, STEP, "                    self.__register(nt_counter, attempt)\n"), (S, DEF, "    def __set_up(self, started, n):\n        for ap in self._owner.analysis:\n            ap.setup(self._owner, n)\n            started.append(ap)\n\n    def __register(self, step, n):\n        for ap in self._owner.analysis:\n            if step % ap.interval:\n                continue\n            ap.register_step(self._owner, step, n)\n\n" + DEF)]),
    ('C35', 'keep', 'local plugins', [(S, "        converged = False  # Flag for convergence.\n", "        converged = False  # Flag for convergence.\n        plugins = self._owner.analysis\n"), (S, SETUP, SETUP.replace("self._owner.analysis", "plugins")), (S, STEP, STEP.replace("self._owner.analysis", "plugins"))]),
    ('C35', 'keep', 'selected first', [(S, STEP, "                    due = [a for a in self._owner.analysis if nt_counter % a.interval == 0]\n                    for ap in due:\n                        ap.register_step(self._owner, nt_counter, icvg_counter)\n")]),
    ('C35', 'keep', 'reversed finalisation', [(S, "                for ap in started_analysis:\n", "                for ap in reversed(started_analysis):\n")]),
    ('C35', 'keep', 'enumerate', [(S, "                for x, error, fx in newton_iterator:  # inner loop\n                    nt_counter += 1\n", "                for nt_counter, (x, error, fx) in enumerate(newton_iterator, 1):\n")]),
    ('C44', 'break', 'failure ignored', [(S, "                    self.__logger.warning('ODE integration failed at t = %e', r.t)\n                    break\n", "                    self.__logger.warning('ODE integration failed at t = %e', r.t)\n")]),
    ('C44', 'break', 'absolute steps', [(S, "r.integrate(r.t + t_step)", "r.integrate(nstep*t_step)")]),
    ('C44', 'break', 'start at zero', [(S, "r.set_initial_value(initial_cvgs, t_start)", "r.set_initial_value(initial_cvgs)")]),
    ('C44', 'break', 'own energies', [(S, "return list(self.steady_state_function(cvgs_tuple, relative_energies))", "return list(self.steady_state_function(cvgs_tuple))")]),
    ('C44', 'break', 'last output', [(S, "            last_time = r.t\n            last_coverages = r.y.tolist()\n", "            last_time = r.t\n            last_coverages = ys[-1] if ys else r.y.tolist()\n")]),
    ('C44', 'break', 'fallback order', [(S, "                initial_cvgs = [0.0]*nads\n", "                initial_cvgs = [1.0/nads]*nads\n")]),
    ('C44', 'break', 'half span', [(S, "        t_end = time_end\n", "        t_end = min(time_end, 100.0)\n")]),
    ('C44', 'keep', 'while true', [(S, "            while r.t < t_end:\n                nstep += 1\n", "            while True:\n                if r.t >= t_end:\n                    break\n                nstep += 1\n")]),
    ('C44', 'keep', 'successful in condition', [(S, "            while r.t < t_end:\n                nstep += 1\n", "            ok = True\n            while ok and r.t < t_end:\n                nstep += 1\n"), (S, "                    self.__logger.warning('ODE integration failed at t = %e', r.t)\n                    break\n", "                    self.__logger.warning('ODE integration failed at t = %e', r.t)\n                    ok = False\n                    continue\n")]),
    ('C44', 'keep', 'lambda', [(S, "        r = ode(f)\n", "        r = ode(lambda t, y: [v for v in f(t, y)])\n")]),
    ('C44', 'keep', 'start helper', [(S, "        if not initial_cvgs:\n            try:\n                initial_cvgs = self.boltzmann_coverages()\n            except IOError:\n                initial_cvgs = [0.0]*nads\n", "        initial_cvgs = initial_cvgs or self.__start(nads)\n"), (S, "    def solve_ode(self", "    def __start(self, n):\n        try:\n            return self.boltzmann_coverages()\n        except IOError:\n            return [0.0 for _ in range(n)]\n\n    def solve_ode(self")]),
    ('C44', 'keep', 'return in finally free', [(S, "        return last_time, last_coverages\n", "        result = (last_time, last_coverages)\n        return result\n")]),
]
