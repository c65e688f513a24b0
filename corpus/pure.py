T = 'scaks/correctors/thermodynamic_corrector.py'
S = 'scaks/solvers/steady_state_solver.py'
M = 'scaks/solvers/mean_field_solver.py'
CV = 'scaks/solvers/kmc_plugins/coverages_analysis.py'
KF = 'scaks/solvers/kmc_plugins/kmc_functions.py'
CU = 'scaks/compatutil.py'
CO = 'scaks/utilities/coordinate_utilities.py'
RX = 'scaks/parsers/rxn_parser.py'
PB = 'scaks/parsers/parser_base.py'
KM = 'scaks/models/kinetic_model.py'
MK = 'scaks/models/micro_kinetic_model.py'
DE = 'scaks/descriptors/descriptors.py'
EP = 'scaks/plotters/energy_profile_plotter.py'
FN = 'scaks/functions.py'
COPY = 'relative_energies_copy = copy.deepcopy(relative_energies)'
POSS = 'possible_types_copy = deepcopy(self.__possible_types)'
LOAD = 'setattr(self, key, copy.deepcopy(value))'
EDITS = [
    ('C24', 'break', 'xrc shallow copy', [(S, COPY, 'relative_energies_copy = copy.copy(relative_energies)')]),
    ('C24', 'break', 'xrc dict copy', [(S, COPY, 'relative_energies_copy = dict(relative_energies)')]),
    ('C24', 'break', 'xrc no copy', [(S, COPY, 'relative_energies_copy = relative_energies')]),
    ('C24', 'break', 'possible types popped', [(CV, POSS, 'possible_types_copy = self.__possible_types')]),
    ('C24', 'break', 'merge into the first', [(CU, 'merged = dict1.copy()', 'merged = dict1')]),
    ('C24', 'break', 'group keeps lists', [(CO, 'self.__coords = copy.copy(coordinates)', 'self.__coords = coordinates')]),
    ('C24', 'break', 'group sum in place', [(CO, 'merged_elems = copy.copy(elems1)', 'merged_elems = elems1')]),
    ('C24', 'break', 'setup kept', [(KM, LOAD, 'setattr(self, key, value)')]),
    ('C24', 'break', 'types removed', [(KF, '''    ntypes = [0]*len(possible_types)
''', '''    if "V" in possible_types:
        possible_types.remove("V")
    ntypes = [0]*len(possible_types)
''')]),
    ('C24', 'break', 'ratios grow', [(KF, 'all_ratios = coverage_ratios*nsite', 'all_ratios = coverage_ratios\n    all_ratios *= nsite') if 0 else (KF, '    all_ratios = coverage_ratios*nsite\n', '    all_ratios = coverage_ratios\n    all_ratios += coverage_ratios*(nsite - 1)\n')]),
    ('C24', 'break', 'states reversed in place', [(RX, '        chem_states = [state.chem_state() for state in state_list]\n        chem_states.reverse()\n', '        chem_states = [state.chem_state() for state in state_list]\n        chem_states.reverse()\n        self.__rxn_equation = expression_template.format(*chem_states)\n')]),
    ('C24', 'break', 'formula normalised by a query', [(RX, '''        single_dict = dict([(self.__site, self.__nsite)])
''', '''        self.__nsite = self.__nsite*self.__stoich
        single_dict = dict([(self.__site, self.__nsite)])
''')]),
    ('C24', 'break', 'model energies perturbed by boltzmann', [(M, '''        # Get coverages list
        cvgs = []
''', '''        # Get coverages list
        cvgs = []
        for name in free_site_names:
            self._owner.absolute_energies.setdefault(name, 0.0)
''')]),
    ('C24', 'break', 'names sorted in place', [(M, '''        free_site_names = self._owner.site_names
        cvg_types = self._owner.adsorbate_names + free_site_names
''', '''        free_site_names = self._owner.site_names
        self._owner.adsorbate_names.sort()
        cvg_types = self._owner.adsorbate_names + free_site_names
''')] if 0 else [(M, '''            boltz_sum = sum([mp.exp(''', '''            free_site_names = self._owner._KineticModel__site_names
            free_site_names.sort()
            boltz_sum = sum([mp.exp(''')]),
    ('C24', 'break', 'jacobian point moved', [(FN, 'xj = copy.copy(x)', 'xj = x')]),
    ('C24', 'break', 'helper pads the given list', [(CO, '''        if elements is None:
            elements = ["V"]*len(coordinates)

''', '''        if elements is None:
            elements = []
        self.__pad(elements, len(coordinates))

'''), (CO, '''    def move(self, move_vector=None):
''', '''    def __pad(self, elements, n):
        while len(elements) < n:
            elements.append("V")

    def move(self, move_vector=None):
''')]),
    ('C24', 'break', 'correction of a shared view', [(S, '''        if relative_energies is None:
            relative_energies = self._owner.relative_energies

        if self._owner.log_allowed:
            self.__logger.info("Calculating Degree of Rate Control(XRC)...")
''', '''        if relative_energies is None:
            relative_energies = self._owner.relative_energies
        for key in ("Gaf", "Gar"):
            values = relative_energies[key]
            values[:] = [self._mpf(value) for value in values]

        if self._owner.log_allowed:
            self.__logger.info("Calculating Degree of Rate Control(XRC)...")
''')]),
    ('C24', 'break', 'perturbation undone only when it works', [(S, '''            relative_energies_copy = copy.deepcopy(relative_energies)
            relative_energies_copy["Gaf"][idx] += epsilon
            relative_energies_copy["Gar"][idx] += epsilon
''', '''            relative_energies_copy = {}
            for key in relative_energies:
                relative_energies_copy[key] = relative_energies[key]
            relative_energies_copy["Gaf"][idx] += epsilon
            relative_energies_copy["Gar"][idx] += epsilon
''')]),
    # ---------------------------------------------------------------- keeps
    ('C24', 'keep', 'xrc comprehension', [(S, COPY, 'relative_energies_copy = {key: list(value) for key, value in relative_energies.items()}')]),
    ('C24', 'keep', 'possible types list', [(CV, POSS, 'possible_types_copy = list(self.__possible_types)')]),
    ('C24', 'keep', 'possible types without', [(CV, '''        empty_type_idx = possible_types_copy.index(empty_type)
        possible_types_copy.pop(empty_type_idx)
''', '''        empty_type_idx = possible_types_copy.index(empty_type)
        possible_types_copy = possible_types_copy[:empty_type_idx] + possible_types_copy[empty_type_idx + 1:]
''')]),
    ('C24', 'keep', 'helper pops from a copy', [(CV, '''        possible_types_copy = deepcopy(self.__possible_types)
        empty_type = self.__kmc_model.empty_type
        empty_type_idx = possible_types_copy.index(empty_type)
        possible_types_copy.pop(empty_type_idx)
''', '''        possible_types_copy, empty_type_idx = self._occupied_types()
'''), (CV, '''    def setup(self,''', '''    def _occupied_types(self):
        types = list(self.__possible_types)
        idx = types.index(self.__kmc_model.empty_type)
        types.pop(idx)
        return types, idx

    def setup(self,''')]),
    ('C24', 'keep', 'merge by unpacking', [(CU, '''    merged = dict1.copy()
    merged.update(dict2)

    return merged
''', '''    return dict(dict1, **dict2) if False else {**dict1, **dict2}
''')]),
    ('C24', 'keep', 'merge by loop', [(CU, '''    merged = dict1.copy()
    merged.update(dict2)
''', '''    merged = {}
    for d in (dict1, dict2):
        for key, value in d.items():
            merged[key] = value
''')]),
    ('C24', 'keep', 'group list()', [(CO, 'self.__coords = copy.copy(coordinates)', 'self.__coords = list(coordinates)')]),
    ('C24', 'keep', 'group deepcopy', [(CO, 'self.__coords = copy.copy(coordinates)', 'self.__coords = [list(coordinate) for coordinate in coordinates]')]),
    ('C24', 'keep', 'helper builds result', [(KF, '''    for ratio, element in zip(all_ratios, types):
        # Ignore the empty type.
        if element not in possible_types:
            continue

        idx = possible_types.index(element)
        ntypes[idx] += ratio

''', '''    for ratio, element in zip(all_ratios, types):
        _count(ntypes, possible_types, element, ratio)

'''), (KF, 'def collect_coverages(', '''def _count(ntypes, possible_types, element, ratio):
    if element in possible_types:
        ntypes[possible_types.index(element)] += ratio


def collect_coverages(''')]),
    ('C24', 'keep', 'public helper fills a list', [(RX, '''        merged_dict = {}
        for elements_dict in elements_dicts:
            for element, number in elements_dict.items():
                if element not in merged_dict:
                    merged_dict.setdefault(element, number)
                else:
                    merged_dict[element] += number

        return merged_dict
''', '''        merged_dict = {}
        for elements_dict in elements_dicts:
            self.add_numbers(merged_dict, elements_dict)

        return merged_dict

    @staticmethod
    def add_numbers(merged_dict, numbers):
        for key, number in numbers.items():
            merged_dict[key] = merged_dict.get(key, 0) + number
''')]),
    ('C24', 'keep', 'reversed', [(RX, '''        chem_states = [state.chem_state() for state in state_list]
        chem_states.reverse()
''', '''        state_list.reverse()
        chem_states = [state.chem_state() for state in state_list]
''')]),
    ('C24', 'keep', 'lazily split formula', [(RX, '''        self.__split()

    def __add__''', '''        self.__stoich = None
        self.__split()

    def __add__''')]),
    ('C24', 'keep', 'jacobian list', [(FN, 'xj = copy.copy(x)', 'xj = copy.deepcopy(x)')]),
    ('C24', 'keep', 'load loops sorted', [(KM, LOAD, 'own = copy.deepcopy(value)\n            setattr(self, key, own)')]),
    ('C24', 'keep', 'load copies all', [(KM, '        for key, value in setup_dict.items():\n            # Check', '        setup_dict = copy.deepcopy(setup_dict)\n        for key, value in setup_dict.items():\n            # Check'), (KM, LOAD, 'setattr(self, key, value)')]),
    # ================================================================ C23
    ('C23', 'break', 'default shared', [(DE, 'instance.__dict__[private_name] = copy.deepcopy(self.default)', 'instance.__dict__[private_name] = self.default')]),
    ('C23', 'break', 'default shallow', [(DE, 'instance.__dict__[private_name] = copy.deepcopy(self.default)', 'instance.__dict__[private_name] = copy.copy(self.default)')]),
    ('C23', 'break', 'default remembered', [(DE, '''            instance.__dict__[private_name] = copy.deepcopy(self.default)
        if self.deepcopy''', '''            if not hasattr(self, "own"):
                self.own = copy.deepcopy(self.default)
            instance.__dict__[private_name] = self.own
        if self.deepcopy''')]),
    ('C23', 'break', 'value in descriptor', [(DE, '''            instance.__dict__[private_name] = value
        else''', '''            instance.__dict__[private_name] = value
            self.default = value
        else''')]),
    ('C23', 'break', 'shallow copy returned', [(DE, 'return copy.deepcopy(instance.__dict__[private_name])', 'return copy.copy(instance.__dict__[private_name])')]),
    ('C23', 'break', 'species not copied', [(DE, 'def __init__(self, name, default, deepcopy=True):', 'def __init__(self, name, default, deepcopy=False):')]),
    ('C23', 'break', 'class list', [(CV, '        self.__steps = []\n', ''), (CV, '    def setup(self,', '    __steps = []\n\n    def setup(self,')]),
    ('C23', 'break', 'mutable default', [(CO, 'def __init__(self, coordinates=None, elements=None):', 'def __init__(self, coordinates=[], elements=None):'), (CO, 'self.__coords = copy.copy(coordinates)', 'self.__coords = coordinates')]),
    ('C23', 'break', 'module cache', [(RX, '''        element_list = self.__sp_regex.findall(species)
''', '''        if species in _known:
            return _known[species]
        element_list = self.__sp_regex.findall(species)
'''), (RX, '''                element_dict[element] += number

        return element_dict
''', '''                element_dict[element] += number

        _known[species] = element_dict
        return element_dict
'''), (RX, 'class ChemFormula(object):', '_known = {}\n\n\nclass ChemFormula(object):')]),
    ('C23', 'break', 'class attribute set', [(CO, '        # Check.\n', '        CoordsGroup.tolerance = 1e-4*len(self.__coords)\n        # Check.\n')]),
    ('C23', 'break', 'type attribute set', [(CO, '        # Check.\n', '        type(self).tolerance = 1e-4*len(self.__coords)\n        # Check.\n')]),
    ('C23', 'break', 'regex dict changed', [(PB, '    def parse_elementary_rxns(', '    def _refine(self):\n        ParserBase.extra = 1\n\n    def parse_elementary_rxns(')]),
    ('C23', 'break', 'database changed', [(T, '''                free_energy = dH - temperature*dS
                enthalpy = dH
                entropy = -temperature*dS

            elif''', '''                free_energy = dH - temperature*dS
                shomate_params[key] = params
                enthalpy = dH
                entropy = -temperature*dS

            elif''')]),
    ('C23', 'break', 'global counter', [(CU, '''    merged = dict1.copy()
''', '''    global merges
    merges = len(dict1)
    merged = dict1.copy()
''')]),
    ('C23', 'break', 'precision elsewhere', [(S, '''        if relative_energies is None:
            relative_energies = self._owner.relative_energies

        if self._owner.log_allowed:
            self.__logger.info("Calculating Degree of Rate Control(XRC)...")
''', '''        mp.mp.dps = 30
        if relative_energies is None:
            relative_energies = self._owner.relative_energies

        if self._owner.log_allowed:
            self.__logger.info("Calculating Degree of Rate Control(XRC)...")
''')]),
    # keeps
    ('C23', 'keep', 'get setdefault', [(DE, '''        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = copy.deepcopy(self.default)
        if self.deepcopy''', '''        instance.__dict__.setdefault(private_name, copy.deepcopy(self.default))
        if self.deepcopy''')]),
    ('C23', 'keep', 'get locals', [(DE, '''        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = copy.deepcopy(self.default)
        if self.deepcopy:
            return copy.deepcopy(instance.__dict__[private_name])
        else:
            return instance.__dict__[private_name]
''', '''        values = instance.__dict__
        if private_name not in values:
            values[private_name] = copy.deepcopy(self.default)
        value = values[private_name]
        return copy.deepcopy(value) if self.deepcopy else value
''')]),
    ('C23', 'keep', 'private name helper', [(DE, '''        private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = copy''', '''        private_name = self._private_name(instance)
        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = copy'''), (DE, '    def _check(self, value):\n        # Placeholder', '    def _private_name(self, instance):\n        return "_{}__{}".format(type(instance).__name__, self.name)\n\n    def _check(self, value):\n        # Placeholder')]),
    ('C23', 'keep', 'getattr', [(DE, '''        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = copy.deepcopy(self.default)
        if self.deepcopy:
            return copy.deepcopy(instance.__dict__[private_name])
        else:
            return instance.__dict__[private_name]
''', '''        try:
            value = instance.__dict__[private_name]
        except KeyError:
            value = copy.deepcopy(self.default)
            instance.__dict__[private_name] = value
        if self.deepcopy:
            return copy.deepcopy(value)
        return value
''')]),
    ('C23', 'keep', 'hasattr setattr', [(DE, '''        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = copy.deepcopy(self.default)
        if self.deepcopy:
            return copy.deepcopy(instance.__dict__[private_name])
        else:
            return instance.__dict__[private_name]
''', '''        if private_name not in vars(instance):
            vars(instance)[private_name] = copy.deepcopy(self.default)
        if self.deepcopy:
            return copy.deepcopy(vars(instance)[private_name])
        else:
            return vars(instance)[private_name]
''')]),
    ('C23', 'keep', 'precision helper', [(M, '            mp.mp.dps = self._owner.decimal_precision\n', '            context = mp.mp\n            context.dps = self._owner.decimal_precision\n')]),
    ('C23', 'keep', 'local cache', [(CU, '''    merged = dict1.copy()
    merged.update(dict2)
''', '''    global_like = {}
    global_like.update(dict1)
    merged = global_like
    merged.update(dict2)
''')]),
    ('C23', 'keep', 'table of immutable results', [(PB, '''        elements = string2symbols(species_name)

        # get molecular total relative mass
        molecular_mass = 0.0
        for element in elements:
            if not element in chem_elements:
                msg = 'Element [ %s ] not in database' % element
                raise ElementSearchingError(msg)
            element_mass = chem_elements[element]['mass']
            molecular_mass += element_mass
''', '''        if species_name not in _masses:
            _masses[species_name] = float(ParserBase.total_mass(species_name))
        molecular_mass = _masses[species_name]
'''), (PB, '''    @staticmethod
    def get_molecular_mass(''', '''    @staticmethod
    def total_mass(species_name):
        molecular_mass = 0.0
        for element in string2symbols(species_name):
            if not element in chem_elements:
                msg = 'Element [ %s ] not in database' % element
                raise ElementSearchingError(msg)
            molecular_mass += chem_elements[element]['mass']
        return molecular_mass

    @staticmethod
    def get_molecular_mass('''), (PB, 'class ParserBase(', '_masses = {}\n\n\nclass ParserBase(')]),
]
