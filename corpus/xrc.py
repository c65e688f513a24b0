S = 'scaks/solvers/steady_state_solver.py'
GAF = '            relative_energies_copy["Gaf"][idx] += epsilon\n'
GAR = '            relative_energies_copy["Gar"][idx] += epsilon\n'
CP = '            relative_energies_copy = copy.deepcopy(relative_energies)\n'
REST = '''            # Restore the solution.
            self.__dict__.update(solution)
            for data_name, data in archived_data.items():
                self.archive_data(data_name, data)
'''
SAVE = '''        solution = {name: self.__dict__[name]
                    for name in ("_coverages", "_error", "_good_guess")
                    if name in self.__dict__}
        archived_data = dict(self._archived_data_dict)
'''
R = '''        r = self.get_tof(cvgs=init_guess,
                         gas_name=gas_name,
                         relative_energies=relative_energies)
'''
SOLVE = '''            steady_cvgs = self.get_steady_state_cvgs(c0=init_guess,
                                                     relative_energies=relative_energies_copy)
            r_prime = self.get_tof(cvgs=steady_cvgs,
                                   relative_energies=relative_energies_copy,
                                   gas_name=gas_name)
'''
TRY = '''            try:
                XRCi = k/r*(dr/dk)
            except ZeroDivisionError:
                self.__logger.error("ZeroDivisionError exception detected when" +
                                    "calculating XRC, the XRC is set to inf")
                XRCi = 'inf'

            return XRCi
'''
EDITS = [
    ('C21', 'break', 'forward barrier only', [(S, GAR, '')]),
    ('C21', 'break', 'reverse barrier only', [(S, GAF, '')]),
    ('C21', 'break', 'reverse lowered', [(S, GAR, GAR.replace('+=', '-='))]),
    ('C21', 'break', 'all forward barriers', [(S, GAF, '            relative_energies_copy["Gaf"] = [g + epsilon for g in relative_energies_copy["Gaf"]]\n')]),
    ('C21', 'break', 'reaction energy shifted', [(S, GAR, '            relative_energies_copy["dG"][idx] += epsilon\n' + GAR)]),
    ('C21', 'break', 'not solved again', [(S, SOLVE.split('            r_prime')[0], '            steady_cvgs = init_guess\n')]),
    ('C21', 'break', 'solved with the old energies', [(S, 'c0=init_guess,\n                                                     relative_energies=relative_energies_copy', 'c0=init_guess,\n                                                     relative_energies=relative_energies')]),
    ('C21', 'break', 'rates with the old energies', [(S, '                                   relative_energies=relative_energies_copy,\n                                   gas_name', '                                   relative_energies=relative_energies,\n                                   gas_name')]),
    ('C21', 'break', 'rates of the model', [(S, '                                   relative_energies=relative_energies_copy,\n                                   gas_name', '                                   gas_name')]),
    ('C21', 'break', 'reverse constants', [(S, '        kfs, _ = self.get_rate_constants(relative_energies=relative_energies)', '        _, kfs = self.get_rate_constants(relative_energies=relative_energies)')]),
    ('C21', 'break', 'constants of the model', [(S, '        kfs, _ = self.get_rate_constants(relative_energies=relative_energies)', '        kfs, _ = self.get_rate_constants()')]),
    ('C21', 'break', 'new constant in front', [(S, 'XRCi = k/r*(dr/dk)', 'XRCi = k_prime/r*(dr/dk)')]),
    ('C21', 'break', 'new rate below', [(S, 'XRCi = k/r*(dr/dk)', 'XRCi = k/r_prime*(dr/dk)')]),
    ('C21', 'break', 'log derivative', [(S, 'XRCi = k/r*(dr/dk)', 'XRCi = mp.log(r_prime/r)/mp.log(k_prime/k)')]),
    ('C21', 'break', 'default perturbation', [(S, 'epsilon = self._mpf(self._owner.perturbation_size)', 'epsilon = self._mpf(self._owner.tolerance)')]),
    ('C21', 'break', 'reversed order', [(S, '            XRCs[i] = XRC\n', '            XRCs[-i - 1] = XRC\n')]),
    ('C21', 'break', 'nothing restored', [(S, REST, '')]),
    ('C21', 'break', 'archive not restored', [(S, REST, REST.split('            for data')[0])]),
    ('C21', 'break', 'attributes not restored', [(S, '            self.__dict__.update(solution)\n', '')]),
    ('C21', 'break', 'error not restored', [(S, '("_coverages", "_error", "_good_guess")', '("_coverages", "_good_guess")')]),
    ('C21', 'break', 'guess not restored', [(S, '("_coverages", "_error", "_good_guess")', '("_coverages", "_error")')]),
    ('C21', 'break', 'saved late', [(S, SAVE, ''), (S, '            # Restore the solution.\n', SAVE.replace('\n        ', '\n            ').replace('        solution', '            solution', 1) + '            # Restore the solution.\n')]),
    ('C21', 'break', 'archive saved by reference', [(S, 'archived_data = dict(self._archived_data_dict)', 'archived_data = self._archived_data_dict')]),
    ('C21', 'break', 'keeps going with new coverages', [(S, 'c0=init_guess,\n', 'c0=self._coverages,\n'), (S, REST, '')]),
    ('C21', 'keep', 'restored once', [(S, REST, ''), (S, '        # Ouput log info.\n        self.__log_single_XRC', REST.replace('            self', '        self', 1).replace('            #', '        #').replace('            for', '        for').replace('                self.arch', '            self.arch') + '        # Ouput log info.\n        self.__log_single_XRC')]),
    ('C21', 'keep', 'list built up', [(S, '        XRCs = [None]*n_rxns\n', '        XRCs = []\n'), (S, '            XRCs[i] = XRC\n', '            XRCs.append(XRC)\n')]),
    ('C21', 'keep', 'loop over barriers', [(S, GAF + GAR, '            for name in ("Gaf", "Gar"):\n                relative_energies_copy[name][idx] += epsilon\n')]),
    ('C21', 'keep', 'barriers by name', [(S, GAF, '            forward = relative_energies_copy["Gaf"]\n            forward[idx] += epsilon\n')]),
    ('C21', 'keep', 'written out', [(S, GAF, '            relative_energies_copy["Gaf"][idx] = relative_energies_copy["Gaf"][idx] + epsilon\n')]),
    ('C21', 'keep', 'new lists', [(S, CP + GAF + GAR, '            relative_energies_copy = dict(relative_energies)\n            for name in ("Gaf", "Gar"):\n                relative_energies_copy[name] = [G + epsilon if j == idx else G\n                                                for j, G in enumerate(relative_energies[name])]\n')]),
    ('C21', 'keep', 'copied lists', [(S, CP, '            relative_energies_copy = dict(relative_energies)\n            relative_energies_copy["Gaf"] = list(relative_energies["Gaf"])\n            relative_energies_copy["Gar"] = list(relative_energies["Gar"])\n')]),
    ('C24', 'keep', 'copied lists again', [(S, CP, '            relative_energies_copy = dict(relative_energies)\n            relative_energies_copy["Gaf"] = list(relative_energies["Gaf"])\n            relative_energies_copy["Gar"] = list(relative_energies["Gar"])\n')]),
    ('C24', 'break', 'one list copied', [(S, CP, '            relative_energies_copy = dict(relative_energies)\n            relative_energies_copy["Gaf"] = list(relative_energies["Gaf"])\n')]),
    ('C24', 'break', 'lists copied too late', [(S, CP, '            relative_energies_copy = dict(relative_energies)\n            relative_energies_copy["Gar"][0] += 0.0\n            relative_energies_copy["Gaf"] = list(relative_energies["Gaf"])\n            relative_energies_copy["Gar"] = list(relative_energies["Gar"])\n')]),
    ('C21', 'keep', 'copied dict of lists', [(S, CP, '            relative_energies_copy = {name: list(energies) for name, energies in relative_energies.items()}\n')]),
    ('C21', 'keep', 'one quotient', [(S, 'XRCi = k/r*(dr/dk)', 'XRCi = (k*dr)/(r*dk)')]),
    ('C21', 'keep', 'returned early', [(S, TRY, TRY.replace('XRCi = k/r', 'return k/r').replace("XRCi = 'inf'", "return 'inf'").replace('\n            return XRCi\n', ''))]),
    ('C21', 'keep', 'method instead of nested', [(S, '        self.__logger.info("Calculating Degree', '        self.__logger.info("Calculating Degree')]),
    ('C21', 'keep', 'attributes one by one', [(S, SAVE, '        coverages, error = self._coverages, getattr(self, "_error", None)\n        guess = getattr(self, "_good_guess", None)\n        archived_data = dict(self._archived_data_dict)\n'),
        (S, '            self.__dict__.update(solution)\n', '            self._coverages = coverages\n            self._error = error\n            self._good_guess = guess\n')]),
    ('C21', 'keep', 'whole dictionary', [(S, SAVE, SAVE.replace('{name: self.__dict__[name]\n                    for name in ("_coverages", "_error", "_good_guess")\n                    if name in self.__dict__}', 'dict(self.__dict__)'))]),
    ('C21', 'keep', 'setattr', [(S, '            self.__dict__.update(solution)\n', '            for name, value in solution.items():\n                setattr(self, name, value)\n')]),
    ('C21', 'keep', 'finally', [(S, '            XRC = get_XRCi(i)\n            XRCs[i] = XRC\n', '            try:\n                XRC = get_XRCi(i)\n            finally:\n                self.__dict__.update(solution)\n            XRCs[i] = XRC\n')]),
    ('C21', 'keep', 'enumerate', [(S, '        for i in range(n_rxns):\n            if self._owner.log_allowed:\n                self.__logger.info("Calculating XRC for {} ...".format(rxn_expressions[i]))', '        for i, expression in enumerate(rxn_expressions):\n            if self._owner.log_allowed:\n                self.__logger.info("Calculating XRC for {} ...".format(expression))')]),
    ('C21', 'keep', 'guard first', [(S, '''        # Get correct relative energies.
        if relative_energies is None:
            relative_energies = self._owner.relative_energies

        if self._owner.log_allowed:
            self.__logger.info("Calculating Degree of Rate Control(XRC)...")''', '''        if not hasattr(self, "_coverages"):
            raise AttributeError("no coverages")
        # Get correct relative energies.
        if relative_energies is None:
            relative_energies = self._owner.relative_energies

        if self._owner.log_allowed:
            self.__logger.info("Calculating Degree of Rate Control(XRC)...")''')]),
]
