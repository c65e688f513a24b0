P = 'scaks/parsers/parser_base.py'
M = 'scaks/models/micro_kinetic_model.py'
T = 'scaks/correctors/thermodynamic_corrector.py'
F = 'scaks/solvers/mean_field_solver.py'
B = 'scaks/solvers/solver_base.py'
EDITS = [
    ('C41', 'break', 'absolute mass misspelt', [(P, 'return amu*molecular_mass', 'return AMU*molecular_mass')]),
    ('C41', 'break', 'absolute mass of unknown local', [(P, 'return amu*molecular_mass', 'return amu*mass')]),
    ('C41', 'break', 'method misspelt', [(P, 'site = formula.site()\n\n            # Adsorbate.', 'site = formula.get_site()\n\n            # Adsorbate.')]),
    ('C41', 'break', 'method of state on formula', [(P, '            n = formula.stoichiometry()\n            species_site = formula.species_site()\n            site', '            n = formula.stoichiometry()\n            species_site = formula.species_sites()\n            site')]),
    ('C41', 'break', 'too many arguments', [(M, 'solver.get_reversibilities(rf, rr)', 'solver.get_reversibilities(rf, rr, self.__ss_cvgs)')]),
    ('C41', 'break', 'unknown keyword', [(M, 'init_cvgs = solver.coarse_steady_state_cvgs(c0=init_cvgs,', 'init_cvgs = solver.coarse_steady_state_cvgs(init=init_cvgs,')]),
    ('C41', 'break', 'positional for memoized', [(M, 'solver.get_rate_constants(relative_energies=relative_energies, log=True)', 'solver.get_rate_constants(relative_energies, log=True)')]),
    ('C41', 'break', 'missing import of exception', [(M, 'from ..errors.error import ParameterError\n', '')]),
    ('C41', 'break', 'missing import of module', [(M, 'import os\n', '')]),
    ('C41', 'break', 'import of missing name', [(M, 'from functools import wraps\n', 'from functools import wraps\nfrom ..compatutil import pickles\n')]),
    ('C41', 'break', 'error read of misspelt attribute', [(M, 'return self.__error\n', 'return self.__errors\n')]),
    ('C41', 'break', 'query without result gives None', [(M, '        solver = self.solver\n', '        solver = self.solver\n        self.__error = None\n')]),
    ('C41', 'break', 'tof logged only in one branch', [(M, "        # Get residual error.\n        self.__error = solver.error\n", "        # Get residual error.\n        if self.log_allowed:\n            note = 'error'\n        self._logger.debug(note)\n        self.__error = solver.error\n")]),
    ('C41', 'break', 'product only when asked', [(M, '        product_name = kwargs.pop("product_name", None)\n', '        if "product_name" in kwargs:\n            product_name = kwargs.pop("product_name")\n')]) if 0 else
    ('C41', 'break', 'unbound in else branch', [(P, "        if absolute:\n            return amu*molecular_mass\n", "        if absolute:\n            total = amu*molecular_mass\n            return total\n"), (P, "        else:\n            return molecular_mass\n        # }}}", "        else:\n            return total/amu\n        # }}}")]),
    ('C41', 'break', 'module attribute misspelt', [(P, 'null_space = np.compress(', 'null_space = np.compres(')]),
    ('C41', 'break', 'string method misspelt', [(P, "reactants_expr = ' + '.join(reactants_list)", "reactants_expr = ' + '.joined(reactants_list)")]),
    ('C41', 'keep', 'mass in one expression', [(P, '''        if absolute:
            return amu*molecular_mass
        else:
            return molecular_mass
''', '''        factor = amu if absolute else 1
        return molecular_mass*factor
''')]),
    ('C41', 'keep', 'mass helper', [(P, '''        molecular_mass = 0.0
        for element in elements:
            if not element in chem_elements:
                msg = 'Element [ %s ] not in database' % element
                raise ElementSearchingError(msg)
            element_mass = chem_elements[element]['mass']
            molecular_mass += element_mass
''', '''        def mass(element):
            try:
                return chem_elements[element]['mass']
            except KeyError:
                raise ElementSearchingError('Element [ %s ] not in database' % element)

        molecular_mass = sum(map(mass, elements), 0.0)
''')]),
    ('C41', 'keep', 'flag set and tested', [(M, "        # Get residual error.\n        self.__error = solver.error\n", "        # Get residual error.\n        if self.log_allowed:\n            msg = 'error'\n        self.__error = solver.error\n        if self.log_allowed:\n            self._logger.debug(msg)\n")]),
    ('C41', 'keep', 'first of a loop', [(P, "        abs_energies = self._owner.absolute_energies\n        energy = 0.0\n", "        abs_energies = self._owner.absolute_energies\n        energy = 0.0\n\n        first = True\n        for formula in formula_list:\n            if first:\n                names = [formula.species_site()]\n                first = False\n            else:\n                names.append(formula.species_site())\n")]),
    ('C41', 'keep', 'bound before return', [(P, "            if not element in chem_elements:\n                msg = 'Element [ %s ] not in database' % element\n                raise ElementSearchingError(msg)\n            element_mass = chem_elements[element]['mass']\n            molecular_mass += element_mass\n", "            if element in chem_elements:\n                element_mass = chem_elements[element]['mass']\n            else:\n                raise ElementSearchingError('Element [ %s ] not in database' % element)\n            molecular_mass += element_mass\n")]),
    ('C41', 'keep', 'query by hasattr', [(M, '''        try:
            return self.__error
        except AttributeError:
            raise AttributeError("Unsolved model has no error.")
''', '''        if not hasattr(self, "_MicroKineticModel__error"):
            raise AttributeError("Unsolved model has no error.")
        return self.__error
''')]),
    ('C41', 'keep', 'query by getattr', [(M, '''        try:
            return self.__error
        except AttributeError:
            raise AttributeError("Unsolved model has no error.")
''', '''        error = self.__dict__.get("_MicroKineticModel__error")
        if error is None:
            raise AttributeError("Unsolved model has no error.")
        return error
''')]),
    ('C41', 'keep', 'names of a new helper', [(M, '''        if kwargs:
            for key in kwargs:
                msg = "Found redundant keyword argument: {}".format(key)
                self._logger.warning(msg)
''', '''        self._warn_redundant(*kwargs)
'''), (M, '''    def hybrid_method_register(self, fn):
''', '''    def _warn_redundant(self, *keys):
        for key in keys:
            self._logger.warning("Found redundant keyword argument: {}".format(key))

    def hybrid_method_register(self, fn):
''')]),
    ('C41', 'break', 'method as operand', [('scaks/parsers/rxn_parser.py', "self.formula() + ' + '", "self.formula + ' + '")]),
    ('C41', 'break', 'type compared as method', [('scaks/correctors/thermodynamic_corrector.py', 'if formula.type() != "gas":', 'if formula.species_site != "gas":')]),
    ('C41', 'keep', 'method passed', [('scaks/parsers/rxn_parser.py', 'formula_str_list = self.split()', 'splitter = self.split\n        formula_str_list = splitter()')]),
    ('C02', 'break', 'sum loses the second', [('scaks/parsers/rxn_parser.py', "+ formula_inst.formula()", "+ formula_inst.species_site()")]),
    ('C02', 'keep', 'sum formatted', [('scaks/parsers/rxn_parser.py', "self.formula() + ' + ' + formula_inst.formula()", "'{} + {}'.format(self.formula(), formula_inst.formula())")]),
]
