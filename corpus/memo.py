F = 'scaks/descriptors/descriptors.py'
M = 'scaks/solvers/mean_field_solver.py'
S = 'scaks/solvers/steady_state_solver.py'
RES = '''        results = instance.__dict__.setdefault("_memoized_results", {})
        results = results.setdefault(self.func.__name__, {})
'''
KEY = '''        key = make_hashable(copy.deepcopy(kwargs))
'''
MOD = '''        if not key.get("relative_energies"):
            key["relative_energies"] = make_hashable(copy.deepcopy(instance._owner.relative_energies))
'''
END = '''        if key not in results:
            results[key] = self.func(instance, **kwargs)

        return copy.deepcopy(results[key])
'''
EDITS = [
    ('C19', 'break', 'memo without model energies', [(F, MOD, '')]),
    ('C19', 'break', 'memo model energies only when absent', [(F, 'if not key.get("relative_energies"):', 'if "relative_energies" not in key:')]),
    ('C19', 'break', 'memo in descriptor', [(F, RES, '        results = self.__dict__.setdefault("_results", {})\n')]),
    ('C19', 'break', 'memo in class', [(F, RES, '        cls = type(instance)\n        if not hasattr(cls, "_kept"):\n            cls._kept = {}\n        results = cls._kept.setdefault(self.func.__name__, {})\n')]),
    ('C19', 'break', 'memo without function name', [(F, '        results = results.setdefault(self.func.__name__, {})\n', '')]),
    ('C19', 'break', 'memo result shared', [(F, 'return copy.deepcopy(results[key])', 'return results[key]')]),
    ('C19', 'break', 'memo key shared', [(F, KEY, '        key = make_hashable(kwargs)\n')]) if 0 else
    ('C19', 'break', 'memo of energies only', [(F, KEY, '        key = make_hashable({"relative_energies": copy.deepcopy(kwargs.get("relative_energies"))})\n')]),
    ('C19', 'break', 'memo first result kept', [(F, 'if key not in results:', 'if not results:'), (F, 'return copy.deepcopy(results[key])', 'return copy.deepcopy(list(results.values())[0])')]),
    ('C19', 'break', 'memo order lost', [(F, '        return HashableList(var)', '        return HashableList(sorted(var))')]),
    ('C19', 'break', 'memo reads coverages', [(S, '''        poly_list = poly_expression.split()
''', '''        if self._coverages is None:
            return '0'
        poly_list = poly_expression.split()
''')]),
    ('C19', 'break', 'memo reads pressures', [(M, '''        kfs, krs = [], []
        for rxn_expression in self._owner.rxn_expressions:
            kf, kr''', '''        kfs, krs = [], []
        p = self._p
        for rxn_expression in self._owner.rxn_expressions:
            kf, kr''')]),
    ('C19', 'break', 'memo stores state', [(M, '''        return kfs, krs
        # }}}

    def __log_rates''', '''        self._last_rate_constants = kfs, krs
        return kfs, krs
        # }}}

    def __log_rates''')]),
    ('C19', 'break', 'memoized query of stateful function', [(S, '    def correct_relative_energies(', '    @Memoized\n    def correct_relative_energies(')]) if 0 else
    ('C19', 'break', 'memoized rates', [(M, '    def get_rates(self,', '    @Memoized\n    def get_rates(self,')]) if 0 else
    ('C19', 'keep', 'memo early return', [(F, END, '''        if key in results:
            return copy.deepcopy(results[key])

        result = self.func(instance, **kwargs)
        results[key] = copy.deepcopy(result)
        return result
''')]),
    ('C19', 'keep', 'memo try', [(F, END, '''        try:
            result = results[key]
        except KeyError:
            result = self.func(instance, **kwargs)
            results[key] = result
        return copy.deepcopy(result)
''')]),
    ('C19', 'keep', 'memo name in key', [(F, RES, '        results = instance.__dict__.setdefault("_memoized_results", {})\n'), (F, MOD, MOD + '        key["function"] = self.func.__name__\n')]),
    ('C19', 'keep', 'memo key rebuilt', [(F, KEY + '''
        # NOTE: if no relative energies are given, then we should
        #       search the model's relative energies.
''' + MOD, '''        args = dict(kwargs)
        energies = args.get("relative_energies")
        if not energies:
            energies = instance._owner.relative_energies
        args["relative_energies"] = energies
        key = make_hashable(copy.deepcopy(args))
''')]),
    ('C19', 'keep', 'memo helper', [(F, RES, '        results = self._results(instance)\n'), (F, '    def query(self, instance, **kwargs):\n', '''    def _results(self, instance):
        if "_memoized_results" not in instance.__dict__:
            instance.__dict__["_memoized_results"] = {}
        return instance.__dict__["_memoized_results"].setdefault(self.func.__name__, {})

    def query(self, instance, **kwargs):
''')]),
    ('C19', 'keep', 'memo reads parameters', [(M, '''        if self._owner.rate_algo == "TST":
            rate_func = self.get_rxn_rates_TST
        elif self._owner.rate_algo == "CT":
''', '''        owner = self._owner
        if owner.temperature < 0.0:
            raise ValueError("negative temperature")
        if owner.rate_algo == "TST":
            rate_func = self.get_rxn_rates_TST
        elif owner.rate_algo == "CT":
''')]),
    ('C19', 'break', 'table by term only', [(S, "        poly_list = poly_expression.split()\n", """        kept = self.__dict__.setdefault("_derived", {})
        if poly_expression in kept:
            return kept[poly_expression]
        poly_list = poly_expression.split()
"""), (S, "        # Join and return.\n        return ' '.join(derived_poly_list)", "        kept[poly_expression] = ' '.join(derived_poly_list)\n        return kept[poly_expression]")]),
    ('C19', 'keep', 'table by both', [(S, "        poly_list = poly_expression.split()\n", """        kept = self.__dict__.setdefault("_derived", {})
        key = (adsorbate_name, poly_expression)
        if key in kept:
            return kept[key]
        poly_list = poly_expression.split()
"""), (S, "        # Join and return.\n        return ' '.join(derived_poly_list)", "        kept[key] = ' '.join(derived_poly_list)\n        return kept[key]")]),
    ('C19', 'break', 'equal by hash', [(F, """class HashableList(list):
    def __hash__(self):""", """class HashableList(list):
    def __eq__(self, other):
        return hash(self) == hash(other)

    def __hash__(self):""")]),
    ('C19', 'break', 'rounded keys', [(F, "        return HashableDict(var)\n    else:\n", "        return HashableDict(var)\n    elif type(var) is float:\n        return round(var, 8)\n    else:\n")]),
]
K = 'scaks/solvers/kmc_solver.py'
EDITS += [
    ('C19', 'break', 'processes without energies', [(K, " or energies != self.__energies:", ":")]),
    ('C19', 'break', 'processes once', [(K, "if process_dicts is not self.__process_dicts or energies != self.__energies:", "if not self.__processes:")]),
    ('C19', 'keep', 'processes always', [(K, "        if process_dicts is not self.__process_dicts or energies != self.__energies:\n            self.__processes", "        if True:\n            self.__processes")]) if 0 else
    ('C19', 'keep', 'processes unless known', [(K, """        if process_dicts is not self.__process_dicts or energies != self.__energies:
            self.__processes = self.get_processes()
            self.__process_dicts = process_dicts
            self.__energies = copy.deepcopy(energies)

        return""", """        known = process_dicts is self.__process_dicts and energies == self.__energies
        if not known:
            self.__processes = self.get_processes()
            self.__process_dicts, self.__energies = process_dicts, copy.deepcopy(energies)

        return""")]),
    ('C19', 'keep', 'processes not kept', [(K, """        if process_dicts is not self.__process_dicts or energies != self.__energies:
            self.__processes = self.get_processes()
            self.__process_dicts = process_dicts
            self.__energies = copy.deepcopy(energies)

        return self.__processes""", """        return self.get_processes()""")]),
]
