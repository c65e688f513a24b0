"""Refactorings and changes of functions with few variants elsewhere: rates as symbols, substituted values, lattices, samples of processes."""
MF = 'scaks/solvers/mean_field_solver.py'
KP = 'scaks/parsers/kmc_parser.py'
RP = 'scaks/parsers/rxn_parser.py'
CU = 'scaks/utilities/check_utilities.py'
TF = 'scaks/solvers/kmc_plugins/tof_analysis.py'
TC = 'scaks/correctors/thermodynamic_corrector.py'
EV = 'scaks/solvers/kmc_plugins/event_analysis.py'
RE = 'scaks/parsers/relative_energy_parser.py'

TYPES = '''                if sp_type == 'gas':
                    symbol_type = 'pressure'
                elif sp_type == 'liquid':
                    symbol_type = 'concentration'
                elif sp_type == 'site':
                    symbol_type = 'free_site_cvg'
                else:
                    symbol_type = 'ads_cvg'

                sp_data_sym = self._extract_symbol(species_name, symbol_type)
                rate_sym *= sp_data_sym**stoichiometry
            rate_syms.append(rate_sym)
'''
SUBS = '''        # Get dicts list.
        if coverages:
            dicts_list = [G_subs_dict, theta_subs_dict, constants_subs_dict,
                          p_subs_dict, c_subs_dict]
        else:
            dicts_list = [G_subs_dict, constants_subs_dict, p_subs_dict, c_subs_dict]

        # Merge dicts.
        subs_dict = {}
        for dic in dicts_list:
            subs_dict = merge_two_dicts(subs_dict, dic)

        return subs_dict
'''
LAT = '''            repetitions = self._owner.repetitions
            basis_sites = self._owner.basis_sites
            nsite = reduce(mul, repetitions)*len(basis_sites)
            types = [empty_type for i in range(nsite)]
            return types
'''
LOADED = '''        if os.path.exists(filename):
            globs, locs = {}, {}
            exec(open(filename, "rb").read(), globs, locs)
            if "types" in locs:
                types = locs["types"]
            else:
                types = init_empty_types()
        # Initialize as emtpy lattice.
        else:
            types = init_empty_types()
'''
CONS = '''        dict1 = self.get_elements_dict()
        dict2 = another.get_elements_dict()

        if dict1 != dict2:
            msg_temp = "Mass of chemical states {} and {} are not conservative."
            msg = msg_temp.format(self.chem_state(), another.chem_state())
            raise ValueError(msg)

        # Check sites.
        dict1 = self.get_sites_dict()
        dict2 = another.get_sites_dict()

        if dict1 != dict2:
            msg_temp = "Site of chemical states {} and {} are not conservatvie."
            msg = msg_temp.format(self.chem_state(), another.chem_state())
            raise ValueError(msg)
'''
INTERVAL = '''    if type(analysis_interval) in (list, tuple):
        for interval in analysis_interval:
            # Check type.
            if type(interval) not in (int, list, tuple):
                raise SetupError("Invalid analysis interval: {}".format(interval))

            # Check custom interval.
            elif type(interval) in (list, tuple):
                if len(interval) != 3:
                    raise SetupError("Length of interval {} not equal to 3".format(interval))
                else:
                    # Check type.
                    if not all([type(i) == int for i in interval]):
                        raise SetupError("Type of element in {} are all not int".format(interval))
                    # Check data validity.
                    else:
                        start, end, step = interval
                        if end < start:
                            raise SetupError("Start larger than end: {}".format(interval))
                        elif step > end - start:
                            raise SetupError("Step larger than span: {}".format(interval))
'''
ELEM = '''        element_dict = {}
        for element, number in element_list:
            number = int(number) if number else 1
            if element not in element_dict:
                element_dict.setdefault(element, number)
            else:
                element_dict[element] += number

        return element_dict
'''
ROWS = '''        for i, rxn, n, r, p in interactions_table:
            if i == picked_index:
                rxn = "-> ({}) {}".format(i, rxn)
            else:
                rxn = "({}) {}".format(i, rxn)
            r = "{:^6.2e}".format(r)
            p = "{:.2f}%".format(p*100.0)
            table.add_row([rxn, n, r, p])
'''
FLUSH = '''        # Get times extension strings.
        var_name = "times_{}".format(self.__flush_counter)
        list_str = get_list_string(var_name, self.__times)
        extend_str = "times.extend({})\\n\\n".format(var_name)
        times_str = list_str + extend_str

        # Get tofs extension strings.
        var_name = "tofs_{}".format(self.__flush_counter)
        list_str = get_list_string(var_name, self.__tofs, ncols=1)
        extend_str = "tofs.extend({})\\n\\n".format(var_name)
        tofs_str = list_str + extend_str
'''
METHOD = '''        if method == "shomate":
            correct_func = self.shomate_correction
        elif method == "entropy":
            correct_func = self.entropy_correction
        else:
            raise ValueError("Unknown method: '{}'".format(method))

        # Loop over all elementary reactions.
'''
EDITS = [
    # rates as symbols
    ('C12', 'keep', 'kinds in a table', [(MF, TYPES, '''                symbol_type = {'gas': 'pressure', 'liquid': 'concentration', 'site': 'free_site_cvg'}.get(sp_type, 'ads_cvg')
                rate_sym = rate_sym*self._extract_symbol(species_name, symbol_type)**stoichiometry
            rate_syms.append(rate_sym)
''')]),
    ('C12', 'keep', 'factor of a formula extracted', [(MF, TYPES, '''                rate_sym *= self._factor_sym(species_name, sp_type, stoichiometry)
            rate_syms.append(rate_sym)
'''), (MF, '    def get_elementary_rate_sym(self, rxn_expression):', '''    def _factor_sym(self, name, kind, power):
        if kind == 'gas':
            base = self._extract_symbol(name, 'pressure')
        elif kind == 'liquid':
            base = self._extract_symbol(name, 'concentration')
        elif kind == 'site':
            base = self._extract_symbol(name, 'free_site_cvg')
        else:
            base = self._extract_symbol(name, 'ads_cvg')
        return base**power

    def get_elementary_rate_sym(self, rxn_expression):''')]),
    ('C12', 'break', 'liquids as pressures', [(MF, "                elif sp_type == 'liquid':\n                    symbol_type = 'concentration'\n                elif sp_type == 'site':\n                    symbol_type = 'free_site_cvg'\n                else:\n                    symbol_type = 'ads_cvg'\n\n                sp_data_sym",
                                                     "                elif sp_type == 'site':\n                    symbol_type = 'free_site_cvg'\n                else:\n                    symbol_type = 'ads_cvg'\n\n                sp_data_sym")]),
    ('C12', 'break', 'power of the first formula', [(MF, '                rate_sym *= sp_data_sym**stoichiometry\n', '                rate_sym *= sp_data_sym**elementary_rxn_list[i][0].stoichiometry()\n')]),
    # substituted values
    ('C12', 'keep', 'dictionaries merged by update', [(MF, SUBS, '''        subs_dict = dict(G_subs_dict)
        if coverages:
            subs_dict.update(theta_subs_dict)
        subs_dict.update(constants_subs_dict)
        subs_dict.update(p_subs_dict)
        subs_dict.update(c_subs_dict)

        return subs_dict
''')]),
    ('C12', 'keep', 'list of dictionaries appended', [(MF, SUBS, '''        dicts_list = [G_subs_dict]
        if coverages:
            dicts_list.append(theta_subs_dict)
        dicts_list += [constants_subs_dict, p_subs_dict, c_subs_dict]

        subs_dict = {}
        for dic in dicts_list:
            subs_dict.update(dic)
        return subs_dict
''')]),
    ('C12', 'break', 'concentrations only with coverages', [(MF, "            dicts_list = [G_subs_dict, constants_subs_dict, p_subs_dict, c_subs_dict]\n", "            dicts_list = [G_subs_dict, constants_subs_dict, p_subs_dict]\n")]),
    # lattices
    ('C31', 'keep', 'empty lattice by multiplication', [(KP, LAT, '''            nsite = len(self._owner.basis_sites)
            for n in self._owner.repetitions:
                nsite *= n
            return [empty_type]*nsite
''')]),
    ('C31', 'keep', 'types through get', [(KP, LOADED, '''        locs = {}
        if os.path.exists(filename):
            exec(open(filename, "rb").read(), {}, locs)
        types = locs["types"] if "types" in locs else init_empty_types()
''')]),
    # states
    ('C01', 'keep', 'pairs of counts in a loop', [(RP, CONS, '''        for name, dict1, dict2 in (("Mass", self.get_elements_dict(), another.get_elements_dict()),
                                   ("Site", self.get_sites_dict(), another.get_sites_dict())):
            if dict1 != dict2:
                msg_temp = "{} of chemical states {} and {} are not conservative."
                raise ValueError(msg_temp.format(name, self.chem_state(), another.chem_state()))
''')]),
    ('C01', 'keep', 'counts of a state compared in a helper', [(RP, CONS, '''        self._check("Mass", another, self.get_elements_dict(), another.get_elements_dict())
        self._check("Site", another, self.get_sites_dict(), another.get_sites_dict())
'''), (RP, '    def conserve(self, another):\n        """ Function to check state conservation.', '''    def _check(self, what, another, mine, others):
        if mine == others:
            return
        msg = "{} of chemical states {} and {} are not conservative."
        raise ValueError(msg.format(what, self.chem_state(), another.chem_state()))

    def conserve(self, another):
        """ Function to check state conservation.''')]),
    ('C01', 'break', 'sites of states by number of kinds', [(RP, '''        dict1 = self.get_sites_dict()
        dict2 = another.get_sites_dict()

        if dict1 != dict2:
            msg_temp = "Site of chemical states''', '''        dict1 = sum(self.get_sites_dict().values())
        dict2 = sum(another.get_sites_dict().values())

        if dict1 != dict2:
            msg_temp = "Site of chemical states''')]),
    ('C02', 'keep', 'elements counted with get', [(RP, ELEM, '''        element_dict = {}
        for element, number in element_list:
            element_dict[element] = element_dict.get(element, 0) + (int(number) if number else 1)
        return element_dict
''')]),
    ('C01', 'keep', 'elements counted with get', [(RP, ELEM, '''        element_dict = {}
        for element, number in element_list:
            element_dict[element] = element_dict.get(element, 0) + int(number or 1)
        return element_dict
''')]),
    ('C01', 'break', 'elements counted once', [(RP, ELEM, '''        return {element: int(number) if number else 1 for element, number in element_list}
''')]),
    # intervals
    ('C34', 'keep', 'interval of three checked flat', [(CU, INTERVAL, '''    if type(analysis_interval) in (list, tuple):
        for interval in analysis_interval:
            if type(interval) is int:
                continue
            if type(interval) not in (list, tuple):
                raise SetupError("Invalid analysis interval: {}".format(interval))
            if len(interval) != 3:
                raise SetupError("Length of interval {} not equal to 3".format(interval))
            if any(type(i) != int for i in interval):
                raise SetupError("Type of element in {} are all not int".format(interval))
            start, end, step = interval
            if end < start:
                raise SetupError("Start larger than end: {}".format(interval))
            if step > end - start:
                raise SetupError("Step larger than span: {}".format(interval))
''')]),
    ('C31', 'keep', 'interval of three checked flat', [(CU, INTERVAL, '''    if type(analysis_interval) in (list, tuple):
        for interval in analysis_interval:
            if type(interval) is int:
                continue
            if type(interval) not in (list, tuple):
                raise SetupError("Invalid analysis interval: {}".format(interval))
            if len(interval) != 3:
                raise SetupError("Length of interval {} not equal to 3".format(interval))
            if any(type(i) != int for i in interval):
                raise SetupError("Type of element in {} are all not int".format(interval))
            start, end, step = interval
            if end < start:
                raise SetupError("Start larger than end: {}".format(interval))
            if step > end - start:
                raise SetupError("Step larger than span: {}".format(interval))
''')]),
    ('C31', 'break', 'only the first interval checked', [(CU, '        for interval in analysis_interval:\n            # Check type.', '        for interval in analysis_interval[:1]:\n            # Check type.')]),
    # samples of processes
    ('C29', 'keep', 'marker of the picked process', [(EV, ROWS, '''        for i, rxn, n, r, p in interactions_table:
            marker = "-> " if i == picked_index else ""
            table.add_row(["{}({}) {}".format(marker, i, rxn), n, "{:^6.2e}".format(r), "{:.2f}%".format(p*100.0)])
''')]),
    ('C29', 'keep', 'samples flushed through a helper', [(TF, FLUSH, '''        times_str = self._extension("times", self.__times)
        tofs_str = self._extension("tofs", self.__tofs, ncols=1)
'''), (TF, '    def __flush(self):', '''    def _extension(self, name, values, **kwargs):
        var_name = "{}_{}".format(name, self.__flush_counter)
        return get_list_string(var_name, values, **kwargs) + "{}.extend({})\\n\\n".format(name, var_name)

    def __flush(self):''')]),
    ('C29', 'break', 'tofs extended by times', [(TF, '        extend_str = "tofs.extend({})\\n\\n".format(var_name)\n', '        extend_str = "tofs.extend({})\\n\\n".format("times_{}".format(self.__flush_counter))\n')]),
    # corrections
    ('C38', 'keep', 'methods in a table', [(TC, METHOD, '''        methods = {"shomate": self.shomate_correction, "entropy": self.entropy_correction}
        if method not in methods:
            raise ValueError("Unknown method: '{}'".format(method))
        correct_func = methods[method]

        # Loop over all elementary reactions.
''')]),
    ('C38', 'break', 'methods in a table, mixed up', [(TC, METHOD, '''        methods = {"shomate": self.entropy_correction, "entropy": self.shomate_correction}
        if method not in methods:
            raise ValueError("Unknown method: '{}'".format(method))
        correct_func = methods[method]

        # Loop over all elementary reactions.
''')]),
    # relative energies read
    ('C06', 'keep', 'file of energies run in a helper', [(RE, '''            globs, energy_data = {}, {}
            exec(open(filename, "rb").read(), globs, energy_data)
        elif''', '''            energy_data = {}
            with open(filename, "rb") as f:
                content = f.read()
            exec(content, {}, energy_data)
        elif''')]),
    # reversibilities
    ('C17', 'keep', 'reversibilities one by one', [(MF, "        reversibilities = [float(rr/rf) for rf, rr in zip(rfs, rrs)]\n", '''        reversibilities = []
        for i in range(len(rfs)):
            rf, rr = rfs[i], rrs[i]
            reversibilities.append(float(rr/rf))
''')]),
    ('C17', 'break', 'reversibilities at most one', [(MF, "        reversibilities = [float(rr/rf) for rf, rr in zip(rfs, rrs)]\n", "        reversibilities = [float(min(rr, rf)/max(rf, rr)) for rf, rr in zip(rfs, rrs)]\n")]),
]
