"""Refactorings and changes of functions that other files leave alone."""
TC = 'scaks/correctors/thermodynamic_corrector.py'
FQ = 'scaks/solvers/kmc_plugins/frequency_analysis.py'
EV = 'scaks/solvers/kmc_plugins/event_analysis.py'
SS = 'scaks/solvers/steady_state_solver.py'
AB = 'scaks/parsers/absolute_energy_parser.py'
RE = 'scaks/parsers/relative_energy_parser.py'
RP = 'scaks/parsers/rxn_parser.py'
HM = 'scaks/plugins/hybrid_methods.py'
FN = 'scaks/functions.py'
PB = 'scaks/parsers/parser_base.py'
BODY = '''        Gaf = relative_energies["Gaf"][rxn_idx]
        Gar = relative_energies["Gar"][rxn_idx]
        dG = relative_energies["dG"][rxn_idx]

        # We have to treat adsorption and desorption particularly.
        if len(deltas) == 2:
            E_IS = 0.0
            E_FS = E_IS + dG
            delta_is, delta_fs = deltas
            E_IS += delta_is
            E_FS += delta_fs
            E_TS = max(E_IS, E_FS)
            # Calculate relative energies again.
            Gaf = E_TS - E_IS
            Gar = E_TS - E_FS
            dG = E_FS - E_IS
        elif len(deltas) == 3:
            # Correct relative energies.
            d_is, d_ts, d_fs = deltas
            d_Gaf = d_ts - d_is
            d_Gar = d_ts - d_fs
            d_dG = d_fs - d_is
            Gaf += d_Gaf
            Gar += d_Gar
            dG += d_dG

        # Update relative energies.
        relative_energies["Gaf"][rxn_idx] = Gaf
        relative_energies["Gar"][rxn_idx] = Gar
        relative_energies["dG"][rxn_idx] = dG
'''
STEP = '''        picked_index = interactions.pickedIndex()

        # Add to collection list.
        self.__process_occurencies[picked_index] += 1

        # Collect steady frequency info.
        if step >= self.__kmc_model.tof_start:
            self.__steady_process_occurencies[picked_index] += 1

            if not self.__tof_start_time:
                self.__tof_start_time = time
                if mpi.is_master:
                    self.__logger.info("TOF analysis start at time = {:e}".format(time))

        self.__tof_end_time = time
'''
ODE = '''        var_name = "times_{}".format(flush_counter)
        list_str = get_list_string(var_name, times)
        extend_str = "times.extend({})\\n\\n".format(var_name)
        times_str = list_str + extend_str

        # Get coverages extesnion strings.
        var_name = "coverages_{}".format(flush_counter)
        list_str = get_list_string(var_name, coverages)
        extend_str = "coverages.extend({})\\n\\n".format(var_name)
        coverages_str = list_str + extend_str

        # Get all content to be flushed.
        comment = ("\\n# -------------------- flush {} " +
                   "---------------------\\n").format(flush_counter)
        content = comment + times_str + coverages_str
'''
TABLE = '''        total_rates = [n*r for n, r in zip(process_available_sites, process_rates)]
        probabilities = [r/sum(total_rates) for r in total_rates]

        table = []
        for i, (rxn, n, r, p) in enumerate(zip(reactions,
                                               process_available_sites,
                                               total_rates,
                                               probabilities)):
            table.append([i, rxn, n, r, p])

        return table
'''
READ = '''        globs, locs = {}, {}
        exec(open(filename, "rb").read(), globs, locs)

        self._owner._absolute_energies = locs["absolute_energies"]

        # Set flag.
        self._owner._has_absolute_energy = True

        # Get relative energies from absolute energies.
        relative_energies = self._get_relative_from_absolute()
        self._owner._relative_energies = relative_energies
'''
FORMS = '''        state_list = []

        for state in self.tolist():
            formula_list = []
            for formula in state.tolist():
                formula_list.append(formula)
            state_list.append(formula_list)

        return state_list
'''
TOT = '''            if coefficient < 0:  # for products
                coefficient = abs(int(coefficient))
                if coefficient == 1:
                    coefficient = ''
                else:
                    coefficient = str(coefficient)
                products_list.append(coefficient + sp_name)
            else:  # for reactants
                coefficient = int(coefficient)
                if coefficient == 1:
                    coefficient = ''
                else:
                    coefficient = str(coefficient)
                reactants_list.append(coefficient + sp_name)
'''
EDITS = [
    ('C38', 'keep', 'shift by state energies', [(TC, BODY, '''        Gs = [relative_energies[k][rxn_idx] for k in ("Gaf", "Gar", "dG")]
        if len(deltas) == 3:
            d_is, d_ts, d_fs = deltas
            Gs = [G + d for G, d in zip(Gs, (d_ts - d_is, d_ts - d_fs, d_fs - d_is))]
        elif len(deltas) == 2:
            e_is, e_fs = deltas[0], Gs[2] + deltas[1]
            top = e_fs if e_fs > e_is else e_is
            Gs = [top - e_is, top - e_fs, e_fs - e_is]
        for k, G in zip(("Gaf", "Gar", "dG"), Gs):
            relative_energies[k][rxn_idx] = G
''')]),
    ('C38', 'keep', 'shift in place', [(TC, BODY, '''        barrier = relative_energies["Gaf"]
        back = relative_energies["Gar"]
        change = relative_energies["dG"]
        if len(deltas) == 2:
            new = change[rxn_idx] + (deltas[1] - deltas[0])
            change[rxn_idx] = new
            barrier[rxn_idx] = max(new, 0.0)
            back[rxn_idx] = max(0.0, -new)
        elif len(deltas) == 3:
            barrier[rxn_idx] += deltas[1] - deltas[0]
            back[rxn_idx] += deltas[1] - deltas[2]
            change[rxn_idx] += deltas[2] - deltas[0]
''')]),
    ('C38', 'break', 'reverse barrier not floored', [(TC, BODY, BODY.replace("Gar = E_TS - E_FS", "Gar = Gaf - dG"))]),
    ('C38', 'break', 'old transition state', [(TC, BODY, BODY.replace("E_TS = max(E_IS, E_FS)", "E_TS = max(Gaf, E_FS)"))]),
    ('C33', 'keep', 'steady counts by flag', [(FQ, STEP, '''        picked = interactions.pickedIndex()
        steady = not step < self.__kmc_model.tof_start
        self.__process_occurencies[picked] = self.__process_occurencies[picked] + 1
        self.__tof_end_time = time
        if not steady:
            return
        self.__steady_process_occurencies[picked] += 1
        if not self.__tof_start_time:
            self.__tof_start_time = time
            if mpi.is_master:
                self.__logger.info("TOF analysis start at time = {:e}".format(time))
''')]),
    ('C33', 'keep', 'counts by loop', [(FQ, STEP, STEP.replace('''        self.__process_occurencies[picked_index] += 1

        # Collect steady frequency info.
        if step >= self.__kmc_model.tof_start:
            self.__steady_process_occurencies[picked_index] += 1

''', '''        counted = [self.__process_occurencies]
        if step >= self.__kmc_model.tof_start:
            counted.append(self.__steady_process_occurencies)
        for occurencies in counted:
            occurencies[picked_index] += 1

        # Collect steady frequency info.
        if len(counted) > 1:
'''))]),
    ('C33', 'break', 'steady counts of later steps', [(FQ, STEP, STEP.replace("step >= ", "step > "))]),
    ('C33', 'break', 'window only while steady', [(FQ, STEP, STEP.replace("        self.__tof_end_time = time\n", "        else:\n            self.__tof_end_time = time\n"))]),
    ('C33', 'break', 'same list', [(FQ, "        self.__process_occurencies = [0]*nprocess\n        self.__steady_process_occurencies = [0]*nprocess", "        self.__process_occurencies = self.__steady_process_occurencies = [0]*nprocess")]),
    ('C29', 'keep', 'chunks by loop', [(SS, ODE, '''        content = "\\n# -------------------- flush {} ---------------------\\n".format(flush_counter)
        for name, values in (("times", times), ("coverages", coverages)):
            chunk = "{}_{}".format(name, flush_counter)
            content += get_list_string(chunk, values)
            content += "{}.extend({})\\n\\n".format(name, chunk)
''')]),
    ('C29', 'keep', 'chunks by helper', [(SS, ODE, '''        def chunk(name, values):
            var_name = "%s_%d" % (name, flush_counter)
            return get_list_string(var_name, values) + name + ".extend(" + var_name + ")\\n\\n"
        comment = "\\n# -------------------- flush {} ---------------------\\n".format(flush_counter)
        content = comment + chunk("times", times) + chunk("coverages", coverages)
''')]),
    ('C29', 'break', 'chunks of one name', [(SS, ODE, ODE.replace('"coverages_{}".format(flush_counter)', '"coverages_0"'))]),
    ('C29', 'break', 'series exchanged', [(SS, ODE, ODE.replace('"coverages.extend({})', '"times.extend({})'))]),
    ('C29', 'keep', 'table by comprehension', [(EV, TABLE, '''        total_rates = [n*r for n, r in zip(process_available_sites, process_rates)]
        total = sum(total_rates)
        return [[i, reactions[i], process_available_sites[i], r, r/total] for i, r in enumerate(total_rates)]
''')]),
    ('C28', 'break', 'buffer reset by all', [(EV, "        if mpi.is_master and self.__flush_counter >= self.__buffer_size:\n            self.__flush()", "        if self.__flush_counter >= self.__buffer_size:\n            self.__flush()")]),
    ('C29', 'break', 'last events lost', [(EV, "        if mpi.is_master:\n            self.__flush()\n            msg", "        if mpi.is_master:\n            if self.__flush_counter >= self.__buffer_size:\n                self.__flush()\n            msg")]),
    ('C29', 'break', 'table of the same step', [(EV, "        current_table = self.__get_interactions_table(interactions)\n        picked_index = interactions.pickedIndex()\n", "        current_table = self.__get_interactions_table(interactions)\n        picked_index = interactions.pickedIndex()\n        self.__previous_table = self.__previous_table or current_table\n")]),
    ('C07', 'keep', 'absolute energies by helper', [(AB, READ, '''        owner = self._owner
        globs, locs = {}, {}
        with open(filename, "rb") as f:
            exec(f.read(), globs, locs)
        owner._absolute_energies = locs["absolute_energies"]
        owner._has_absolute_energy = True
        owner._relative_energies = self._get_relative_from_absolute()
''')]),
    ('C07', 'break', 'relative energies kept', [(AB, READ, READ.replace('''        relative_energies = self._get_relative_from_absolute()
        self._owner._relative_energies = relative_energies
''', '''        if not self._owner._has_relative_energy:
            self._owner._relative_energies = self._get_relative_from_absolute()
'''))]),
    ('C02', 'keep', 'formulas by comprehension', [(RP, FORMS, "        return [list(state.tolist()) for state in self.tolist()]\n")]),
    ('C02', 'keep', 'formulas of states', [(RP, FORMS, "        return [state.tolist() for state in self.tolist()]\n")]),
    ('C02', 'break', 'distinct formulas', [(RP, FORMS, FORMS.replace("                formula_list.append(formula)", "                if formula.formula() not in [f.formula() for f in formula_list]:\n                    formula_list.append(formula)"))]),
    ('C44', 'keep', 'ode guess in one line', [(HM, '''    new_cvgs = model.solver.solve_ode(time_end=end,
                                      time_span=span,
                                      initial_cvgs=init_cvgs)[-1]
''', '''    ode_output = model.solver.solve_ode(initial_cvgs=init_cvgs, time_span=span, time_end=end)
    new_cvgs = ode_output[1]
''')]),
    ('C01', 'keep', 'overall reaction by helper', [(PB, TOT, '''            number = '' if abs(int(coefficient)) == 1 else str(abs(int(coefficient)))
            (products_list if coefficient < 0 else reactants_list).append(number + sp_name)
''')]),
    ('C01', 'break', 'overall reaction not checked', [(PB, "        RxnEquation(total_rxn_equation).check_conservation()\n", "        if len(products_list) > 1:\n            RxnEquation(total_rxn_equation).check_conservation()\n")]),
    ('C42', 'keep', 'atoms counted by helper', [(FN, '''        j = i
        while j < n and s[j].isdigit():
            j += 1
        if j > i:
            m = int(s[i:j])
        else:
            m = 1
        return m * [s[:i]] + string2symbols(s[j:])
''', '''        j = i
        while j < n and s[j].isdigit():
            j += 1
        m = int(s[i:j]) if j > i else 1
        symbols = [s[:i]]*m
        return symbols + string2symbols(s[j:])
''')]),
    ('C42', 'break', 'one digit per group', [(FN, '''        j = i + 1
        while j < n and s[j].isdigit():
            j += 1
        if j > i + 1:''', '''        j = i + 1
        if j < n and s[j].isdigit():
            j += 1
        if j > i + 1:''')]),
]
