P = 'scaks/solvers/kmc_plugins/'
CA, FA, TA, EA, CF = P + 'coverages_analysis.py', P + 'frequency_analysis.py', P + 'tof_analysis.py', P + 'event_analysis.py', P + 'kmc_functions.py'
KS, KP, CU = 'scaks/solvers/kmc_solver.py', 'scaks/parsers/kmc_parser.py', 'scaks/utilities/check_utilities.py'

SAMPLE = '''        # Append time and step.
        self.__times.append(time)
        self.__steps.append(step)

        # Remove empty type from possible_types.
        possible_types_copy = deepcopy(self.__possible_types)
        empty_type = self.__kmc_model.empty_type
        empty_type_idx = possible_types_copy.index(empty_type)
        possible_types_copy.pop(empty_type_idx)

        # Collect species coverages.
        types = configuration.types()
        coverages = collect_coverages(types,
                                      possible_types_copy,
                                      self.__coverage_ratios)

        # Insert coverage of emtpy site.
        coverages = list(coverages)
        empty_coverage = 1.0 - sum(coverages)
        coverages.insert(empty_type_idx, empty_coverage)

        self.__coverages.append(coverages)

'''
HELPER = '''    def __record(self, step, time, configuration):
        types = list(self.__possible_types)
        idx = types.index(self.__kmc_model.empty_type)
        del types[idx]
        coverages = list(collect_coverages(configuration.types(), types, self.__coverage_ratios))
        coverages.insert(idx, 1.0 - sum(coverages))
        self.__coverages.append(coverages)
        self.__steps.append(step)
        self.__times.append(time)

'''
helper = [(CA, SAMPLE, '        self.__record(step, time, configuration)\n\n'), (CA, SAMPLE, '        self.__record(step, time, configuration)\n\n'),
          (CA, '    def finalize(self):', HELPER + '    def finalize(self):')]
EDITS = [
    ('C29', 'keep', 'record helper', helper),
    ('C33', 'keep', 'record helper33', helper),
    ('C29', 'keep', 'types by comprehension', [(CA, '''        possible_types_copy = deepcopy(self.__possible_types)
        empty_type = self.__kmc_model.empty_type
        empty_type_idx = possible_types_copy.index(empty_type)
        possible_types_copy.pop(empty_type_idx)
''', '''        empty_type = self.__kmc_model.empty_type
        empty_type_idx = self.__possible_types.index(empty_type)
        possible_types_copy = self.__possible_types[:empty_type_idx] + self.__possible_types[empty_type_idx + 1:]
''')]),
    ('C29', 'keep', 'slices insert', [(CA, '''        coverages.insert(empty_type_idx, empty_coverage)
''', '''        coverages = coverages[:empty_type_idx] + [empty_coverage] + coverages[empty_type_idx:]
''')]),
    ('C29', 'keep', 'early return', [(CA, '''        if mpi.is_master:
            # Write to file.
            if self.__coverages:
                self.__flush()

            # Info output.
            msg = "coverages informations are written to {}".format(self.__filename)
            self.__logger.info(msg)
''', '''        if not mpi.is_master:
            return
        if len(self.__coverages) > 0:
            self.__flush()
        self.__logger.info("coverages informations are written to {}".format(self.__filename))
''')]),
    ('C29', 'keep', 'join of lines', [(CA, '''        extend_str = ""
        for idx in range(len(self.__possible_types)):
            sub_extend_str = "coverages[{}].extend(coverages_{}[{}])\\n"
            sub_extend_str = sub_extend_str.format(idx, self.__flush_counter, idx)
            extend_str += sub_extend_str
''', '''        extend_str = "".join("coverages[{0}].extend(coverages_{1}[{0}])\\n".format(idx, self.__flush_counter)
                             for idx, _ in enumerate(self.__possible_types))
''')]),
    ('C29', 'keep', 'fstring', [(CA, '''        var_name = "times_{}".format(self.__flush_counter)
        list_str = get_list_string(var_name, self.__times)
        extend_str = "times.extend({})\\n\\n".format(var_name)
''', '''        var_name = f"times_{self.__flush_counter}"
        list_str = get_list_string(var_name, self.__times)
        extend_str = f"times.extend({var_name})\\n\\n"
''')]),
    ('C29', 'keep', 'writes', [(CA, '''        content = comment + times_str + steps_str + coverages_str

        # Flush to file.
        with open(self.__filename, "a") as f:
            f.write(content)
''', '''        with open(self.__filename, "a") as f:
            for piece in (comment, times_str, steps_str, coverages_str):
                f.write(piece)
''')]),
    ('C29', 'keep', 'clear', [(CA, '''        self.__coverages = []
        self.__steps = []
        self.__times = []

        self.__flush_counter += 1''', '''        del self.__coverages[:]
        self.__steps.clear()
        self.__times = []

        self.__flush_counter += 1''')]),
    ('C29', 'keep', 'flush format helper', [(TA, '''        var_name = "times_{}".format(self.__flush_counter)
        list_str = get_list_string(var_name, self.__times)
        extend_str = "times.extend({})\\n\\n".format(var_name)
        times_str = list_str + extend_str

        # Get tofs extension strings.
        var_name = "tofs_{}".format(self.__flush_counter)
        list_str = get_list_string(var_name, self.__tofs, ncols=1)
        extend_str = "tofs.extend({})\\n\\n".format(var_name)
        tofs_str = list_str + extend_str
''', '''        def chunk(name, data, **kwargs):
            var_name = "{}_{}".format(name, self.__flush_counter)
            return get_list_string(var_name, data, **kwargs) + "{}.extend({})\\n\\n".format(name, var_name)

        times_str = chunk("times", self.__times)
        tofs_str = chunk("tofs", self.__tofs, ncols=1)
''')]),
    ('C29', 'break', 'finalize flushes always', [(CA, '            if self.__coverages:\n                self.__flush()', '            self.__flush()')]),
    ('C29', 'break', 'steps not freed', [(CA, '        self.__steps = []\n        self.__times = []\n\n        self.__flush_counter', '        self.__times = []\n\n        self.__flush_counter')]),
    ('C29', 'break', 'no counter', [(TA, '        self.__flush_counter += 1', '')]),
    ('C29', 'break', 'setup sample dropped', [(CA, '        self.__coverages.append(coverages)\n\n        if mpi.is_master:', '        if mpi.is_master:')]),
    ('C29', 'break', 'tof nothing at end', [(TA, 'if mpi.is_master and (len(self.__times) > 0):', 'if mpi.is_master and (len(self.__times) >= self.__buffer_size):')]),
    ('C29', 'break', 'event final chunk', [(EA, '        if mpi.is_master:\n            self.__flush()\n            msg', '        if mpi.is_master and self.__flush_counter >= self.__buffer_size:\n            self.__flush()\n            msg')]),
    ('C29', 'break', 'mode w', [(TA, 'with open(self.__filename, "a")', 'with open(self.__filename, "w")')]),
    ('C29', 'break', 'rows for columns', [(CA, 'coverages = zip(*self.__coverages)', 'coverages = self.__coverages')]),
    ('C29', 'break', 'empty last', [(CA, 'coverages.insert(empty_type_idx, empty_coverage)\n\n        self.__coverages.append(coverages)\n\n        buffer_full', 'coverages.append(empty_coverage)\n\n        self.__coverages.append(coverages)\n\n        buffer_full')]),
    # C33
    ('C33', 'keep', 'counter dict', [(FA, '''        reaction_occurencies = {}
        steady_reaction_occurencies = {}

        for reaction in set(process_mapping):
            reaction_occurencies.setdefault(reaction, 0)
            steady_reaction_occurencies.setdefault(reaction, 0)

        # Fill the dict.
        for occurency, reaction in zip(self.__process_occurencies, process_mapping):
            reaction_occurencies[reaction] += occurency

        for occurency, reaction in zip(self.__steady_process_occurencies, process_mapping):
            steady_reaction_occurencies[reaction] += occurency
''', '''        def collect(occurencies):
            result = {reaction: 0 for reaction in set(process_mapping)}
            for occurency, reaction in zip(occurencies, process_mapping):
                result[reaction] += occurency
            return result

        reaction_occurencies = collect(self.__process_occurencies)
        steady_reaction_occurencies = collect(self.__steady_process_occurencies)
''')]),
    ('C33', 'keep', 'get default', [(FA, '''        for reaction in set(process_mapping):
            reaction_occurencies.setdefault(reaction, 0)
            steady_reaction_occurencies.setdefault(reaction, 0)

        # Fill the dict.
        for occurency, reaction in zip(self.__process_occurencies, process_mapping):
            reaction_occurencies[reaction] += occurency

        for occurency, reaction in zip(self.__steady_process_occurencies, process_mapping):
            steady_reaction_occurencies[reaction] += occurency
''', '''        for occurency, steady, reaction in zip(self.__process_occurencies,
                                               self.__steady_process_occurencies,
                                               process_mapping):
            reaction_occurencies[reaction] = reaction_occurencies.get(reaction, 0) + occurency
            steady_reaction_occurencies[reaction] = steady_reaction_occurencies.get(reaction, 0) + steady
''')]),
    ('C33', 'keep', 'rates comprehension', [(FA, '''        reaction_rates = {}
        for reaction, occurency in steady_reaction_occurencies.items():
            rate = occurency/(delta_t*nsites)
            reaction_rates.setdefault(reaction, rate)
''', '''        reaction_rates = {reaction: occurency/(delta_t*nsites)
                          for reaction, occurency in steady_reaction_occurencies.items()}
''')]),
    ('C33', 'keep', 'one loop', [(FA, '''        for occurency, reaction in zip(self.__process_occurencies, process_mapping):
            reaction_occurencies[reaction] += occurency

        for occurency, reaction in zip(self.__steady_process_occurencies, process_mapping):
            steady_reaction_occurencies[reaction] += occurency
''', '''        for i, reaction in enumerate(process_mapping):
            reaction_occurencies[reaction] += self.__process_occurencies[i]
            steady_reaction_occurencies[reaction] += self.__steady_process_occurencies[i]
''')]),
    ('C33', 'keep', 'tof window early return', [(TA, '''        delta_t = time - self.__start_time
        if delta_t > self.__tof_interval:
            # Calculate tof for all processes.
            tof = [occurency/(self.__nsites*delta_t)
                   for occurency in self.__occurencies]
            self.__tofs.append(tof)
            self.__times.append(self.__start_time)  # use start_time here.

            # Refresh.
            self.__start_time = time
            nprocess = len(self.__kmc_model.processes)
            self.__occurencies = [0]*nprocess

            # Flush buffer.
            buffer_full = (len(self.__times) >= self.__buffer_size)
            if buffer_full and mpi.is_master:
                self.__flush()
''', '''        delta_t = time - self.__start_time
        if not delta_t > self.__tof_interval:
            return
        scale = self.__nsites*delta_t
        self.__tofs.append([occurency/scale for occurency in self.__occurencies])
        self.__times.append(self.__start_time)
        self.__occurencies = [0 for _ in self.__kmc_model.processes]
        self.__start_time = time
        if mpi.is_master and len(self.__times) >= self.__buffer_size:
            self.__flush()
''')]),
    ('C33', 'keep', 'nsites product', [(TA, 'self.__nsites = reduce(mul, repetitions)*len(basis_sites)', 'nx, ny, nz = repetitions\n        self.__nsites = nx*ny*nz*len(basis_sites)')]),
    ('C33', 'keep', 'nsites loop', [(FA, 'nsites = reduce(mul, repetitions)*len(basis_sites)', 'nsites = len(basis_sites)\n        for n in repetitions:\n            nsites *= n')]),
    ('C33', 'break', 'all occurencies in rates', [(FA, 'in steady_reaction_occurencies.items()', 'in reaction_occurencies.items()')]),
    ('C33', 'break', 'after tof start', [(FA, 'if step >= self.__kmc_model.tof_start', 'if step > self.__kmc_model.tof_start')]),
    ('C33', 'break', 'end time only in steady', [(FA, '        self.__tof_end_time = time\n', '        if step > self.__kmc_model.tof_start + 1:\n            self.__tof_end_time = time\n')]),
    ('C33', 'break', 'no basis sites', [(FA, 'reduce(mul, repetitions)*len(basis_sites)', 'reduce(mul, repetitions)')]),
    ('C33', 'break', 'max of repetitions', [(TA, 'reduce(mul, repetitions)*len(basis_sites)', 'repetitions[0]*repetitions[1]*len(basis_sites)')]),
    ('C33', 'break', 'picked not counted in last window', [(TA, '''        self.__occurencies[picked_index] += 1

''', ''), (TA, '            if buffer_full and mpi.is_master:\n                self.__flush()\n', '            if buffer_full and mpi.is_master:\n                self.__flush()\n\n        self.__occurencies[picked_index] += 1\n')]),
    ('C33', 'break', 'occurencies kept', [(TA, '            self.__occurencies = [0]*nprocess\n\n            # Flush', '            # Flush')]),
    ('C33', 'break', 'window by interval', [(TA, 'occurency/(self.__nsites*delta_t)', 'occurency/(self.__nsites*self.__tof_interval)')]),
    ('C33', 'break', 'probabilities of rates only', [(EA, '[n*r for n, r in zip(process_available_sites, process_rates)]', '[r for n, r in zip(process_available_sites, process_rates)]')]),
    # C32
    ('C32', 'keep', 'dict of counts', [(CF, '''    ntypes = [0]*len(possible_types)

    # Loop to collect coverages.
    all_ratios = coverage_ratios*nsite
    for ratio, element in zip(all_ratios, types):
        # Ignore the empty type.
        if element not in possible_types:
            continue

        idx = possible_types.index(element)
        ntypes[idx] += ratio
''', '''    all_ratios = coverage_ratios*nsite
    ntypes = [sum(r for r, e in zip(all_ratios, types) if e == t) for t in possible_types]
''')]),
    ('C32', 'keep', 'positive condition', [(CF, '''        if element not in possible_types:
            continue

        idx = possible_types.index(element)
        ntypes[idx] += ratio
''', '''        if element in possible_types:
            ntypes[possible_types.index(element)] += ratio
''')]),
    ('C32', 'keep', 'numpy zeros', [(CF, 'ntypes = [0]*len(possible_types)', 'ntypes = [0.0 for _ in possible_types]'), (CF, 'cvgs = [float(ntype)/nsite for ntype in ntypes]', 'cvgs = []\n    for ntype in ntypes:\n        cvgs.append(ntype/nsite)')]),
    ('C32', 'keep', 'modulo ratio', [(CF, '''    all_ratios = coverage_ratios*nsite
    for ratio, element in zip(all_ratios, types):
''', '''    nbasis = len(coverage_ratios)
    for i, element in enumerate(types):
        ratio = coverage_ratios[i % nbasis]
''')]),
    ('C32', 'break', 'over all sites', [(CF, 'float(ntype)/nsite', 'float(ntype)/len(types)')]),
    ('C32', 'break', 'ratio of block', [(CF, 'all_ratios = coverage_ratios*nsite', 'all_ratios = [r for r in coverage_ratios for _ in range(nsite)]')]),
    ('C32', 'break', 'set instead', [(CF, 'ntypes[idx] += ratio', 'ntypes[idx] = ntypes[idx] + 1')]),
    # C30
    ('C30', 'keep', 'rate dispatch', [(KS, '''        if self._owner.rate_algo == "CT":
            rf, rr = self.get_rxn_rates_CT(process_dict["reaction"],
                                           self._owner.relative_energies,
                                           include_pressure=True)
        elif self._owner.rate_algo == "TST":
            rf, rr = self.get_rxn_rates_TST(process_dict["reaction"],
                                            self._owner.relative_energies,
                                            include_pressure=True)
        else:
            msg = "Unknown rate algorithm '{}'.".format(self._owner.rate_algo)
            raise SetupError(msg)
''', '''        if self._owner.rate_algo not in ("CT", "TST"):
            raise SetupError("Unknown rate algorithm '{}'.".format(self._owner.rate_algo))
        get_rates = self.get_rxn_rates_CT if self._owner.rate_algo == "CT" else self.get_rxn_rates_TST
        rf, rr = get_rates(process_dict["reaction"], self._owner.relative_energies, include_pressure=True)
''')]),
    ('C30', 'keep', 'product', [(KS, '''        for basis_site in process_dict["basis_sites"]:
            for coordinates in process_dict["coordinates_group"]:
                if self._owner.log_allowed:
                    self.__logger.info("Coordinates = {}".format(coordinates))
                    self.__logger.info("Basis site = {}".format(basis_site))
''', '''        from itertools import product
        for basis_site, coordinates in product(process_dict["basis_sites"], process_dict["coordinates_group"]):
                if self._owner.log_allowed:
                    self.__logger.info("Coordinates = {}".format(coordinates))
                    self.__logger.info("Basis site = {}".format(basis_site))
''')]),
    ('C30', 'keep', 'extend comprehension', [(KS, '''        all_processes = []
        self.__process_mapping = []
        process_dicts = self._owner.process_dicts
        for process_dict in process_dicts:
            processes = self.__get_single_process(process_dict)
            all_processes.extend(processes)

        return all_processes
''', '''        self.__process_mapping = []
        return [process for process_dict in self._owner.process_dicts
                for process in self.__get_single_process(process_dict)]
''')]),
    ('C30', 'keep', 'nested reverse', [(KS, '''                if not fast and not redist:
                    process_mapping = "{}(<-)".format(process_dict["reaction"])
                    self.__process_mapping.append(process_mapping)
''', '''                if not (fast or redist):
                    self.__process_mapping.append(process_dict["reaction"] + "(<-)")
''')]),
    ('C30', 'keep', 'element any', [(KS, '''        for element in all_elements:
            if element == '*':
                continue
            elif element not in possible_elements:
                msg = "Element '{}' in process not in possible types {}"
                msg = msg.format(element, possible_elements)
                raise SetupError(msg)
''', '''        unknown = [element for element in all_elements
                   if element != '*' and element not in possible_elements]
        if unknown:
            raise SetupError("Elements {} in process not in possible types {}".format(unknown, possible_elements))
''')]),
    ('C30', 'keep', 'make helper', [(KS, '''                fprocess = KMCProcess(coordinates=coordinates,
                                      elements_before=process_dict["elements_before"],
                                      elements_after=process_dict["elements_after"],
                                      basis_sites=[basis_site],
                                      rate_constant=rf,
                                      fast=fast,
                                      redist=redist,
                                      redist_species=redist_species)
''', '''                common = dict(coordinates=coordinates, basis_sites=[basis_site], fast=fast)
                fprocess = KMCProcess(elements_before=process_dict["elements_before"],
                                      elements_after=process_dict["elements_after"],
                                      rate_constant=rf, redist=redist, redist_species=redist_species, **common)
'''), (KS, '''                    rprocess = KMCProcess(coordinates=coordinates,
                                          elements_before=process_dict["elements_after"],
                                          elements_after=process_dict["elements_before"],
                                          basis_sites=[basis_site],
                                          rate_constant=rr,
                                          fast=fast)
''', '''                    rprocess = KMCProcess(elements_before=process_dict["elements_after"],
                                          elements_after=process_dict["elements_before"],
                                          rate_constant=rr, **common)
''')]),
    ('C30', 'break', 'mapping not reset', [(KS, '        all_processes = []\n        self.__process_mapping = []\n', '        all_processes = []\n')]),
    ('C30', 'break', 'reverse label of redist', [(KS, 'if not fast and not redist:', 'if not fast:')]),
    ('C30', 'break', 'fast labelled', [(KS, '                if not fast:\n', '                if not fast or redist:\n')]),
    ('C30', 'break', 'reverse not swapped', [(KS, 'elements_before=process_dict["elements_after"],\n                                          elements_after=process_dict["elements_before"],', 'elements_before=process_dict["elements_before"],\n                                          elements_after=process_dict["elements_after"],')]),
    ('C30', 'break', 'rates swapped in TST', [(KS, 'rf, rr = self.get_rxn_rates_TST', 'rr, rf = self.get_rxn_rates_TST')]),
    ('C30', 'break', 'labels grouped', [(KS, '                    self.__process_mapping.append(process_mapping)\n\n                # Info output.\n                if self._owner.log_allowed:\n                    self.__logger.info("Forward', '                    self.__process_mapping.insert(0, process_mapping)\n\n                # Info output.\n                if self._owner.log_allowed:\n                    self.__logger.info("Forward')]),
    ('C30', 'break', 'all basis sites', [(KS, 'basis_sites=[basis_site],\n                                          rate_constant=rr', 'basis_sites=process_dict["basis_sites"],\n                                          rate_constant=rr')]),
    ('C30', 'break', 'no pressure', [(KS, '''            rf, rr = self.get_rxn_rates_CT(process_dict["reaction"],
                                           self._owner.relative_energies,
                                           include_pressure=True)''', '''            rf, rr = self.get_rxn_rates_CT(process_dict["reaction"],
                                           self._owner.relative_energies)''')]),
    # C31
    ('C31', 'keep', 'sequence all', [(CU, '''    if type(sequence) not in (tuple, list):
        raise SetupError(msg)

    for entry in sequence:
        if not isinstance(entry, entry_type):
            raise SetupError(msg)
''', '''    valid = type(sequence) in (tuple, list) and all(isinstance(entry, entry_type) for entry in sequence)
    if not valid:
        raise SetupError(msg)
''')]),
    ('C31', 'keep', 'string merged', [(CU, '''    if not isinstance(string, str):
        raise SetupError("{} is not a string.".format(param_name))

    if string not in string_range:
        msg = "{} must be one of {}".format(param_name, string_range)
        raise SetupError(msg)

    return string
''', '''    if isinstance(string, str):
        if string in string_range:
            return string
        raise SetupError("{} must be one of {}".format(param_name, string_range))
    raise SetupError("{} is not a string.".format(param_name))
''')]),
    ('C31', 'keep', 'missing keys', [(CU, '''    for key in essential_keys:
        if key not in process_dict:
            msg = "key '{}' is not in process_dict {}".format(key, process_dict.keys())
            raise SetupError(msg)
''', '''    missing = [key for key in essential_keys if key not in process_dict]
    if missing:
        msg = "keys {} are not in process_dict {}".format(missing, process_dict.keys())
        raise SetupError(msg)
''')]),
    ('C31', 'keep', 'equal by all', [(CU, '''        for e1, e2 in zip(coord1, coord2):
            if abs(e1 - e2) > 1e-6:
                return False
        return True
''', '''        return all(abs(e1 - e2) <= 1e-6 for e1, e2 in zip(coord1, coord2))
''')]),
    ('C31', 'keep', 'equal by max', [(CU, '''        for e1, e2 in zip(coord1, coord2):
            if abs(e1 - e2) > 1e-6:
                return False
        return True
''', '''        return not any(abs(e2 - e1) > 1e-6 for e1, e2 in zip(coord1, coord2))
''')]),
    ('C31', 'keep', 'pairs by index', [(CU, '''    coord_pairs = combinations(coordinates, 2)
''', '''    coord_pairs = [(coordinates[i], coordinates[j])
                   for i in range(len(coordinates)) for j in range(i + 1, len(coordinates))]
''')]),
    ('C31', 'keep', 'interval helper', [(CU, '''            elif type(interval) in (list, tuple):
                if len(interval) != 3:
                    raise SetupError("Length of interval {} not equal to 3".format(interval))
                else:
                    # Check type.
                    if not all([type(i) == int for i in interval]):
                        raise SetupError("Type of element in {} are all not int".format(interval))
                    # Check data validity.
                    else:
                        start, end, step = interval
                        if end < start:
                            raise SetupError("Start larger than end: {}".format(interval))
                        elif step > end - start:
                            raise SetupError("Step larger than span: {}".format(interval))
''', '''            if type(interval) in (list, tuple):
                if len(interval) != 3:
                    raise SetupError("Length of interval {} not equal to 3".format(interval))
                for i in interval:
                    if type(i) is not int:
                        raise SetupError("Type of element in {} are all not int".format(interval))
                start, end, step = interval
                if start > end or step > end - start:
                    raise SetupError("Bad custom interval: {}".format(interval))
''')]),
    ('C31', 'keep', 'site types any', [(KP, '''        for site_type in site_types:
            if site_type not in possible_site_types:
                msg = "Element '{}' not in possible_site_types '{}'."
                msg = msg.format(site_type, possible_site_types)
                raise SetupError(msg)
''', '''        unknown_types = set(site_types) - set(possible_site_types)
        if unknown_types:
            msg = "Elements {} not in possible_site_types '{}'."
            raise SetupError(msg.format(unknown_types, possible_site_types))
''')]),
    ('C31', 'keep', 'gas pressure', [(CU, '''        if species.endswith("_g") and "pressure" not in definitions:
''', '''        is_gas = species[-2:] == "_g"
        if is_gas and not "pressure" in definitions:
''')]),
    ('C31', 'keep', 'elements before after helper', [(CU, '''        # Check length.
        for coords in process_dict["coordinates_group"]:
            if len(process_dict[key]) != len(coords):
''', '''        # Check length.
        elements = process_dict[key]
        for coords in process_dict["coordinates_group"]:
            if not len(elements) == len(coords):
''')]),
    ('C31', 'break', 'bool interval', [(CU, 'type(i) == int for i in interval', 'isinstance(i, int) for i in interval')]),
    ('C31', 'break', 'only first key', [(CU, 'for key in ["elements_before", "elements_after"]:', 'for key in ["elements_before"]:')]),
    ('C31', 'break', 'only first coords', [(CU, 'if len(process_dict[key]) != len(coords):', 'if len(process_dict[key]) < len(coords):')]),
    ('C31', 'break', 'adjacent pairs', [(CU, 'coord_pairs = combinations(coordinates, 2)', 'coord_pairs = zip(coordinates, coordinates[1:])')]),
    ('C31', 'break', 'sum tolerance', [(CU, '''        for e1, e2 in zip(coord1, coord2):
            if abs(e1 - e2) > 1e-6:
                return False
        return True
''', '''        return sum(abs(e1 - e2) for e1, e2 in zip(coord1, coord2)) <= 1e-6
''')]),
    ('C31', 'break', 'signed difference', [(CU, 'if abs(e1 - e2) > 1e-6:', 'if e1 - e2 > 1e-6:')]),
    ('C31', 'break', 'no abs end', [(CU, 'elif step > end - start:', 'elif step > end:')]),
    ('C31', 'break', 'less sites', [(KP, 'if len(site_types) != nsite:', 'if len(site_types) < nsite:')]),
    ('C31', 'break', 'first entry only', [(CU, '    for entry in sequence:\n        if not', '    for entry in sequence[:1]:\n        if not')]),
    ('C31', 'break', 'before only', [(KS, 'all_elements = process_dict["elements_before"] + process_dict["elements_after"]', 'all_elements = process_dict["elements_before"]')]),
    ('C31', 'break', 'wildcard by in', [(KS, "if element == '*':", "if '*' in element:")]),
    # C34
    ('C34', 'keep', 'direct call', [(KS, '''        control_params = dict(time_limit=time_limit,
                              number_of_steps=number_of_steps,
                              dump_interval=dump_interval,
                              seed=seed,
                              rng_type=rng_type,
                              analysis_interval=analysis_interval,
                              start_time=start_time,
                              extra_traj=extra_traj,
                              do_redistribution=do_redistribution)

        if do_redistribution:
            redistribution_dict = dict(
                redistribution_interval=self._owner.redistribution_interval,
                fast_species=self._owner.fast_species,
                nsplits=self._owner.nsplits,
                distributor_type=self._owner.distributor_type,
                empty_element=self._owner.empty_type
            )
            control_params.update(redistribution_dict)
''', '''        extra = {}
        if do_redistribution:
            for name in ("redistribution_interval", "fast_species", "nsplits", "distributor_type"):
                extra[name] = getattr(self._owner, name)
            extra["empty_element"] = self._owner.empty_type

        control_params = dict(extra, time_limit=time_limit,
                              number_of_steps=number_of_steps,
                              dump_interval=dump_interval,
                              seed=seed,
                              rng_type=rng_type,
                              analysis_interval=analysis_interval,
                              start_time=start_time,
                              extra_traj=extra_traj,
                              do_redistribution=do_redistribution)
''')]),
    ('C34', 'keep', 'analysis list', [(KS, '''        if analysis_name:
            analysis = []
            for classname in analysis_name:
                _module = importlib.import_module('scaks.solvers.kmc_plugins')
                analysis_object = getattr(_module, classname)(self._owner)
                analysis.append(analysis_object)
        else:
            analysis = None
''', '''        analysis = None
        if analysis_name:
            _module = importlib.import_module('scaks.solvers.kmc_plugins')
            analysis = [getattr(_module, classname)(self._owner) for classname in analysis_name]
''')]),
    ('C34', 'keep', 'sites helper', [(KP, '''        def init_empty_types():
            repetitions = self._owner.repetitions
            basis_sites = self._owner.basis_sites
            nsite = reduce(mul, repetitions)*len(basis_sites)
            types = [empty_type for i in range(nsite)]
            return types
''', '''        def init_empty_types():
            return [empty_type]*self.site_number()
'''), (KP, '    def construct_lattice(self):', '''    def site_number(self):
        nsite = len(self._owner.basis_sites)
        for repetition in self._owner.repetitions:
            nsite *= repetition
        return nsite

    def construct_lattice(self):''')]),
    ('C34', 'keep', 'locs get', [(KP, '''            if "site_types" not in locs:
                site_types = init_default_types()
            else:
                site_types = locs["site_types"]
''', '''            site_types = locs["site_types"] if "site_types" in locs else init_default_types()
''')]),
    ('C34', 'keep', 'setattr one by one', [(KP, '''        for var in ["process_dicts", "configuration", "sitesmap"]:
            model_var = mangled_name(self._owner, var)
            setattr(self._owner, model_var, locals()[var])
''', '''        data = {"process_dicts": process_dicts, "configuration": configuration, "sitesmap": sitesmap}
        for var, value in data.items():
            setattr(self._owner, mangled_name(self._owner, var), value)
''')]),
    ('C34', 'keep', 'with file', [(KP, '''        globs, locs = {}, {}
        exec(open(filename, "rb").read(), globs, locs)

        # Get all''', '''        globs, locs = {}, {}
        with open(filename, "rb") as f:
            exec(f.read(), globs, locs)

        # Get all''')]),
    ('C34', 'break', 'start time dropped', [(KS, '                              start_time=start_time,\n', '')]),
    ('C34', 'break', 'interval of trajectory', [(KS, 'analysis_interval=self._owner.analysis_interval', 'analysis_interval=self._owner.trajectory_dump_interval')]),
    ('C34', 'break', 'no wildcard', [(KS, 'implicit_wildcards=True', 'implicit_wildcards=bool(analysis)')]),
    ('C34', 'break', 'periodic dropped', [(KP, '                             periodic=periodic)', '                             periodic=(True, True, True))')]),
    ('C34', 'break', 'sites of repetition', [(KP, 'nsite = reduce(mul, repetitions)*len(basis_sites)\n            types', 'nsite = reduce(mul, repetitions)\n            types')]),
    ('C34', 'break', 'last site type', [(KP, 'default_type = possible_site_types[0]', 'default_type = possible_site_types[-1]')]),
    ('C34', 'break', 'configuration default sites', [(KP, 'possible_types=possible_element_types)', 'possible_types=list(set(types)))')]),
    ('C34', 'break', 'first analysis', [(KS, '                analysis.append(analysis_object)', '                analysis = [analysis_object]')]),
    ('C30', 'break', 'labels before processes', [('scaks/models/kmc_model.py', """        self.__processes = self.solver.processes
        self.__process_mapping = self.solver.process_mapping
""", """        self.__process_mapping = self.solver.process_mapping
        self.__processes = self.solver.processes
""")]),
    ('C30', 'keep', 'solver by name', [('scaks/models/kmc_model.py', """        self.__processes = self.solver.processes
        self.__process_mapping = self.solver.process_mapping
""", """        solver = self.__solver
        self.__processes = solver.processes
        self.__process_mapping = solver.process_mapping
""")]),
    ('C34', 'keep', 'run of the solver', [('scaks/models/kmc_model.py', """        self.__solver.run(scripting=scripting, trajectory_type=trajectory_type)
""", """        options = dict(scripting=scripting, trajectory_type=trajectory_type)
        self.solver.run(**options)
""")]),
    ('C34', 'break', 'scripting ignored', [('scaks/models/kmc_model.py', """        self.__solver.run(scripting=scripting, trajectory_type=trajectory_type)
""", """        self.__solver.run(trajectory_type=trajectory_type)
""")]),
    ('C34', 'break', 'processes of the model not set', [('scaks/models/kmc_model.py', """        self.__processes = self.solver.processes
""", """        processes = self.solver.processes
""")]),
]
