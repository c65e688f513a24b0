T = 'scaks/correctors/thermodynamic_corrector.py'
D = 'scaks/database/thermo_data.py'
EL = 'scaks/database/elements_data.py'
F = 'scaks/functions.py'
KM = 'scaks/models/kinetic_model.py'
PB = 'scaks/parsers/parser_base.py'
EDITS = [
    ('C37', 'break', 'prefix match of gas', [(T, 'if gas_key != gas_name:', 'if not gas_name.startswith(gas_key):')]),
    ('C37', 'break', 'strict upper bound', [(T, 'temperature <= T_max:', 'temperature < T_max:')]),
    ('C37', 'break', 'low extrapolation threshold', [(T, 'T_min < 300:', 'T_min < 600:')]),
    ('C37', 'break', 'E sign in S', [(T, '- E/(2.0*t**2) + G', '+ E/(2.0*t**2) + G')]),
    ('C37', 'break', 'Cp at T', [(T, 'Cp_ref = Cp(temperature_ref, params)', 'Cp_ref = Cp(temperature, params)')]),
    ('C37', 'break', 'not_there stays', [(T, "            if not not_there:\n                break\n", "")]),
    ('C37', 'break', 'typo in table', [(D, '55.18696', '55.18969')]),
    ('C37', 'break', 'range of table', [(D, "'CO2_g:298-1200'", "'CO2_g:298-2000'")]),
    ('C37', 'break', 'sigma CH4', [(D, "'CH4_g' : {'sigma': 12.0", "'CH4_g' : {'sigma': 3.0")]),
    ('C37', 'break', 'vibration only', [(T, 'if not (rotation_included and vibration_included):', 'if not (rotation_included or vibration_included):')]),
    ('C37', 'break', 'model temperature used', [(T, "        if T is None:\n            T = self._owner.temperature\n", "        T = self._owner.temperature\n")]),
    ('C37', 'break', 'pressure of site', [(T, "p = P0*species_definitions[species_site]['pressure']", "p = P0*species_definitions['CO_g']['pressure']")]),
    ('C37', 'break', 'vibration first', [(T, "            temp_list = [1./(1 - exp(-theta/T)) for theta in thetas]", "            temp_list = [1./(1 - exp(-theta/T)) for theta in thetas[1:]]")]),
    ('C37', 'keep', 'helper for S', [(T, "            S = A*np.log(t) + B*t + (C/2.0)*t**2 + (D/3.0)*t**3 - E/(2.0*t**2) + G  # J/mol*K\n            return S", "            return G + A*np.log(t) + t*(B + t*(C/2.0 + t*D/3.0)) - E/(2.0*t*t)")]),
    ('C37', 'keep', 'return in loop', [(T, "            if not not_there:\n                break\n", "            if not not_there:\n                return free_energy\n")]),
    ('C37', 'keep', 'items', [(T, "for key in shomate_params.keys():", "for key, _unused in shomate_params.items():")]),
    ('C37', 'keep', 'flip test', [(T, "if temperature >= T_min and temperature <= T_max:", "if T_min <= temperature <= T_max:")]),
    ('C37', 'keep', 'product loop', [(T, "            product = reduce(lambda x, y: x*y, thetas)\n", "            product = 1.0\n            for theta in thetas:\n                product *= theta\n")]),
    ('C37', 'keep', 'table as dict item', [(D, "shomate_params['H2_g:298-1000'] = [", "shomate_params['H2_g:298-1000'] = [] + [")]),
    ('C37', 'keep', 'new gas', [(D, "fixed_entropy_dict = {", "shomate_params['Ar_g:298-6000'] = [20.78600, 0.0, 0.0, 0.0, 0.0, -6.197350, 179.9990, 0.0]\nfixed_entropy_dict = {")]),
    ('C37', 'keep', 'early exit split', [(T, "        if not (rotation_included and vibration_included):", "        if not rotation_included or not vibration_included:")]),
    ('C37', 'keep', 'partition helper', [(T, "        q = qt*qr*qv\n\n        return -kB_eV*T*log(q)  # eV", "        def energy(*functions):\n            total = 1.0\n            for z in functions:\n                total *= z\n            return -kB_eV*T*log(total)\n        return energy(qt, qr, qv)")]),
    ('C38', 'break', 'no coefficient', [(T, 'delta += formula.stoichiometry()*correct_func', 'delta += correct_func')]),
    ('C38', 'break', 'break after first', [(T, "            if self._owner.log_allowed:\n                self.__logger.info(msg)\n", "            if self._owner.log_allowed:\n                self.__logger.info(msg)\n            else:\n                break\n")]),
    ('C38', 'break', 'method swapped', [(T, 'method == "entropy"', 'method in ("entropy", "Entropy", "shomate_entropy")')]),
    ('C38', 'break', 'ts from fs only', [(T, 'E_TS = max(E_IS, E_FS)', 'E_TS = max(0.0, E_FS)')]),
    ('C38', 'break', 'skip two state', [(T, "        if len(deltas) == 2:", "        if len(deltas) == 2 and dG > 0:")]),
    ('C38', 'keep', 'sum', [(T, "            delta = 0.0\n            for formula in formula_list:\n                delta += formula.stoichiometry()*correct_func(formula.species_site())\n            deltas.append(delta)\n", "            deltas.append(sum(f.stoichiometry()*correct_func(f.species_site()) for f in formula_list))\n")]),
    ('C38', 'keep', 'dispatch dict', [(T, '        if method == "shomate":\n            correct_func = self.shomate_correction\n        elif method == "entropy":\n            correct_func = self.entropy_correction\n        else:\n            raise ValueError("Unknown method: \'{}\'".format(method))\n', '        methods = {"shomate": self.shomate_correction, "entropy": self.entropy_correction}\n        if method not in methods:\n            raise ValueError("Unknown method: \'{}\'".format(method))\n        correct_func = methods[method]\n')]),
    ('C42', 'break', 'two digit', [(F, "        while j < n and s[j].isdigit():\n            j += 1\n        if j > i:", "        if j < n and s[j].isdigit():\n            j += 1\n        if j > i:")]),
    ('C42', 'break', 'nested groups', [(F, "                p -= 1\n                if p == 0:\n                    break", "                p -= 1\n                if p <= 1:\n                    break")]),
    ('C42', 'break', 'leading number one digit', [(F, "        while i < n and s[i].isdigit():\n            i += 1\n        return int(s[:i]) * string2symbols(s[i:])", "        return int(s[:i]) * string2symbols(s[i:])")]),
    ('C42', 'break', 'group rest', [(F, "return m * string2symbols(s[1:i]) + string2symbols(s[j:])", "return m * (string2symbols(s[1:i]) + string2symbols(s[j:]))")]),
    ('C42', 'break', 'mass O', [(EL, '15.9994', '15.9949*1.05')]),
    ('C42', 'break', 'unknown skipped', [(PB, "                raise ElementSearchingError(msg)\n            element_mass", "                continue\n            element_mass")]),
    ('C42', 'break', 'set of elements', [(PB, "        elements = string2symbols(species_name)\n", "        elements = set(string2symbols(species_name))\n")]),
    ('C42', 'keep', 'digit helper', [(F, "def string2symbols(s):", "def _skip_digits(s, j):\n    while j < len(s) and s[j].isdigit():\n        j += 1\n    return j\n\n\ndef string2symbols(s):"), (F, "        j = i + 1\n        while j < n and s[j].isdigit():\n            j += 1\n", "        j = _skip_digits(s, i + 1)\n"), (F, "        j = i\n        while j < n and s[j].isdigit():\n            j += 1\n", "        j = _skip_digits(s, i)\n")]),
    ('C42', 'keep', 'sum', [(PB, "            element_mass = chem_elements[element]['mass']\n            molecular_mass += element_mass", "            molecular_mass += chem_elements[element]['mass']")]),
    ('C42', 'keep', 'table at once', [(EL, "chem_elements['F'] = dict(index=9, mass=18.9984032)", "chem_elements.update({'F': {'index': 9, 'mass': 18.998}})")]),
    ('C43', 'break', 'no ts', [(KM, "                                   self.transition_state_names,\n                                   self.site_names])", "                                   self.site_names])")]),
    ('C43', 'break', 'dG once', [(KM, '            rxn_content = "# {}\\nGa.append()\\ndG.append()\\n\\n".format(rxn_expression)', '            rxn_content = "# {}\\nGa.append()\\n".format(rxn_expression) + ("dG.append()\\n\\n" if "<->" not in rxn_expression else "\\n")')]),
    ('C43', 'keep', 'join', [(KM, "        for rxn_expression in self.rxn_expressions:\n            rxn_content = \"# {}\\nGa.append()\\ndG.append()\\n\\n\".format(rxn_expression)\n            content += rxn_content\n", "        content += ''.join(\"# {}\\nGa.append()\\ndG.append()\\n\\n\".format(r) for r in self.rxn_expressions)\n")]),
    ('C43', 'keep', 'chain', [(KM, "        all_species = reduce(add, [self.gas_names,\n                                   self.liquid_names,\n                                   self.adsorbate_names,\n                                   self.transition_state_names,\n                                   self.site_names])\n", "        all_species = (self.gas_names + self.liquid_names + self.adsorbate_names +\n                       self.transition_state_names + self.site_names)\n")]),
]
