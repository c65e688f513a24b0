R = 'scaks/parsers/rxn_parser.py'
E1 = """        merged_dict = {}
        for elements_dict in elements_dicts:
            for element, number in elements_dict.items():
                if element not in merged_dict:
                    merged_dict.setdefault(element, number)
                else:
                    merged_dict[element] += number

        return merged_dict
"""
S1 = """        merged_dict = {}
        for sites_dict in sites_dicts:
            for site, number in sites_dict.items():
                # If gas or liquid, pass.
                if site in exclusive_sites:
                    continue

                if site not in merged_dict:
                    merged_dict.setdefault(site, number)
                else:
                    merged_dict[site] += number

        return merged_dict
"""
D1 = """        element_dict = {}
        for element, number in element_list:
            number = int(number) if number else 1
            if element not in element_dict:
                element_dict.setdefault(element, number)
            else:
                element_dict[element] += number

        return element_dict
"""
EDITS = [
    ('C01', 'keep', 'get default', [(R, E1, """        merged_dict = {}
        for elements_dict in elements_dicts:
            for element, number in elements_dict.items():
                merged_dict[element] = merged_dict.get(element, 0) + number

        return merged_dict
""")]),
    ('C01', 'keep', 'merge helper', [(R, E1, """        return _merge(elements_dicts, ())
"""), (R, S1, """        return _merge(sites_dicts, exclusive_sites)
"""), (R, "class RxnEquation(object):", """def _merge(dicts, excluded):
    merged = {}
    for d in dicts:
        for key, number in d.items():
            if key in excluded:
                continue
            if key in merged:
                merged[key] += number
            else:
                merged[key] = number
    return merged


class RxnEquation(object):""")]),
    ('C01', 'keep', 'keys', [(R, D1, """        element_dict = {}
        for element, number in element_list:
            number = int(number) if number else 1
            element_dict[element] = element_dict.get(element, 0) + number

        return element_dict
""")]),
    ('C01', 'keep', 'single loop', [(R, S1, """        merged_dict = {}
        for formula in formula_list:
            for site, number in formula.get_sites_dict().items():
                if site not in exclusive_sites:
                    merged_dict[site] = merged_dict.get(site, 0) + number

        return merged_dict
""")]),
    ('C01', 'keep', 'dict literal', [(R, """        single_dict = dict([(self.__site, self.__nsite)])
        sites_dict = {site: num*self.__stoich for site, num in single_dict.items()}

        return sites_dict
""", """        return {self.__site: self.__nsite*self.__stoich}
""")]),
    ('C01', 'keep', 'index states', [(R, """        first = state_list[0]
        for state in state_list[1:]:
            first.conserve(state)
""", """        for i in range(1, len(state_list)):
            state_list[0].conserve(state_list[i])
""")]),
    ('C01', 'keep', 'conserve helper', [(R, """        # Check elements.
        dict1 = self.get_elements_dict()
        dict2 = another.get_elements_dict()

        if dict1 != dict2:
            msg_temp = "Mass of chemical states {} and {} are not conservative."
            msg = msg_temp.format(self.chem_state(), another.chem_state())
            raise ValueError(msg)

        # Check sites.
        dict1 = self.get_sites_dict()
        dict2 = another.get_sites_dict()

        if dict1 != dict2:
            msg_temp = "Site of chemical states {} and {} are not conservatvie."
            msg = msg_temp.format(self.chem_state(), another.chem_state())
            raise ValueError(msg)
""", """        for kind, a, b in (("Mass", self.get_elements_dict(), another.get_elements_dict()),
                           ("Site", self.get_sites_dict(), another.get_sites_dict())):
            if not a == b:
                raise ValueError("{} of chemical states {} and {} are not conservative.".format(
                    kind, self.chem_state(), another.chem_state()))
""")]),
    ('C01', 'keep', 'defaultdict', [(R, "import re\n", "import re\nfrom collections import defaultdict\n"), (R, E1, """        merged_dict = defaultdict(int)
        for elements_dict in elements_dicts:
            for element in elements_dict:
                merged_dict[element] += elements_dict[element]

        return dict(merged_dict)
""")]),
    ('C01', 'break', 'liquid site kept', [(R, 'exclusive_sites = ("g", "l")', 'exclusive_sites = ("g", )')]),
    ('C01', 'break', 'subset only', [(R, "        if dict1 != dict2:\n            msg_temp = \"Site of chemical states", "        if any(dict1[k] != dict2.get(k) for k in dict1):\n            msg_temp = \"Site of chemical states")]),
    ('C01', 'break', 'stoich in sites', [(R, "{site: num*self.__stoich for site, num", "{site: num for site, num")]),
    ('C01', 'break', 'substring exclusion', [(R, 'exclusive_sites = ("g", "l")', 'exclusive_sites = "gl"')]) if False else
    ('C01', 'break', 'last duplicate wins', [(R, """                else:
                    merged_dict[element] += number

        return merged_dict
""", """                else:
                    merged_dict[element] = max(number, merged_dict[element])

        return merged_dict
""")]),
    ('C02', 'keep', 'groups unpack', [(R, """            self.__stoich = int(m.group(1)) if m.group(1) else 1
            self.__species_site = m.group(2)
            self.__species = m.group(3)
            self.__site = m.group(5)
            self.__nsite = int(m.group(4)) if m.group(4) else 1
""", """            stoich, self.__species_site, self.__species, nsite, self.__site = m.groups()
            self.__stoich = int(stoich) if stoich else 1
            self.__nsite = int(nsite) if nsite else 1
""")]),
    ('C02', 'keep', 'int or', [(R, "            self.__stoich = int(m.group(1)) if m.group(1) else 1\n", "            self.__stoich = int(m.group(1) or 1)\n")]),
    ('C02', 'keep', 'comprehension states', [(R, """        state_list = []
        for idx in range(1, 4):
            if m.group(idx):
                chem_state_obj = ChemState(m.group(idx).strip())
                state_list.append(chem_state_obj)

        return state_list
""", """        return [ChemState(part.strip()) for part in m.groups() if part]
""")]),
    ('C02', 'keep', 'module regex', [(R, "class RxnEquation(object):", "STATES = re.compile(r'([^\\<\\>]*)(?:\\<?\\-\\>)(?:([^\\<\\>]*)(?:\\<?\\-\\>))?([^\\<\\>]*)')\n\n\nclass RxnEquation(object):"), (R, "        m = states_regex.search(self.__rxn_equation)", "        m = STATES.search(self.__rxn_equation)")]),
    ('C02', 'keep', 'regex escapes', [(R, "r'(\\d*)(([\\w\\*-]*)_(\\d*)([a-zA-Z\\*]+))'", "r'([0-9]*)(([\\w*-]*)_([0-9]*)([*a-zA-Z]+))'")]),
    ('C02', 'keep', 'map strip', [(R, "[sp.strip() for sp in self.__chem_state.split('+')]", "list(map(str.strip, self.__chem_state.split('+')))")]),
    ('C02', 'keep', 'type dict', [(R, """        if self.__site == "g":
            return "gas"
        elif self.__site == "l":
            return "liquid"
        else:
            if "*" in self.__species_site:
                return "site"
            else:
                return "adsorbate"
""", """        phases = {"g": "gas", "l": "liquid"}
        if self.__site in phases:
            return phases[self.__site]
        return "site" if "*" in self.__species_site else "adsorbate"
""")]),
    ('C02', 'break', 'no dash', [(R, "(([\\w\\*-]*)_", "(([\\w\\*]*)_")]),
    ('C02', 'break', 'nsite zero', [(R, "self.__nsite = int(m.group(4)) if m.group(4) else 1", "self.__nsite = int(m.group(4)[-1]) if m.group(4) else 1")]),
    ('C02', 'break', 'gas prefix', [(R, 'if self.__site == "g":', 'if self.__site.startswith("g"):')]),
    ('C03', 'keep', 'slice reverse', [(R, """        chem_states = [state.chem_state() for state in state_list]
        chem_states.reverse()
""", """        chem_states = [state.chem_state() for state in state_list[::-1]]
""")]),
    ('C03', 'keep', 'reversed join', [(R, """        # Get rxn_expression template.
        if len(state_list) == 2:
            expression_template = "{} -> {}"
        elif len(state_list) == 3:
            expression_template = "{} <-> {} -> {}"

        # Revert.
        chem_states = [state.chem_state() for state in state_list]
        chem_states.reverse()

        rxn_expression = expression_template.format(*chem_states)
""", """        states = [state.chem_state() for state in reversed(state_list)]
        if len(states) == 3:
            rxn_expression = states[0] + " <-> " + states[1] + " -> " + states[2]
        else:
            rxn_expression = "{} -> {}".format(states[0], states[1])
""")]),
    ('C03', 'keep', 'filter', [(R, """        gases = [sp for sp in formula_lists[0] if sp.type() == "gas"]

        return gases
""", """        gases = []
        for sp in formula_lists[0]:
            if sp.type() == "gas":
                gases.append(sp)
        return gases
""")]),
    ('C03', 'break', 'ts swapped', [(R, 'expression_template = "{} <-> {} -> {}"', 'expression_template = "{1} <-> {0} -> {2}"')]),
    ('C03', 'break', 'liquids adsorb', [(R, 'gases = [sp for sp in formula_lists[-1] if sp.type() == "gas"]', 'gases = [sp for sp in formula_lists[-1] if sp.type() in ("gas", "liquid")]')]),
    ('C03', 'break', 'desorption from ts', [(R, 'gases = [sp for sp in formula_lists[-1] if', 'gases = [sp for sp in formula_lists[1] if')]),
]
