CU, KM, MK = 'scaks/utilities/check_utilities.py', 'scaks/models/kinetic_model.py', 'scaks/models/micro_kinetic_model.py'
MF, SS, SB = 'scaks/solvers/mean_field_solver.py', 'scaks/solvers/steady_state_solver.py', 'scaks/solvers/solver_base.py'
RX, TC, RE = 'scaks/parsers/rxn_parser.py', 'scaks/correctors/thermodynamic_corrector.py', 'scaks/parsers/relative_energy_parser.py'
RI, AM = 'scaks/solvers/rootfinding_iterators.py', 'scaks/plugins/metaclasses.py'
EDITS = [
    ('C36', 'break', 'returned corrector error', [(KM, "            raise TypeError('Invalid model corrector')", "            return TypeError('Invalid model corrector')")]),
    ('C36', 'break', 'discarded corrector error', [(KM, "            raise TypeError('Invalid model corrector')", "            TypeError('Invalid model corrector')")]),
    ('C36', 'break', 'assigned only', [(KM, "            raise TypeError('Invalid model corrector')", "            error = TypeError('Invalid model corrector')")]),
    ('C36', 'break', 'assigned and returned', [(KM, "            raise TypeError('Invalid model corrector')", "            error = TypeError('Invalid model corrector')\n            return error")]),
    ('C36', 'break', 'unknown handler ignored', [(KM, '            raise ValueError("Unknown handler type \'{}\'".format(handler_type))', '            return None')]),
    ('C36', 'break', 'setup missing logged', [(KM, '            raise ValueError(msg)\n', '            logging.error(msg)\n            setup_dict = {}\n')]),
    ('C36', 'break', 'parser missing', [(KM, '        if "parser" not in setup_dict:', '        if "parser" not in class_attrs:')]),
    ('C36', 'break', 'tof of unknown gas', [(MF, '            if gas_name not in gas_names:', '            if gas_name not in self._owner.adsorbate_names + gas_names:')]),
    ('C36', 'break', 'unknown rate algo falls to CT', [(MF, '        elif self._owner.rate_algo == "CT":', '        elif self._owner.rate_algo.endswith("CT"):')]),
    ('C36', 'break', 'unknown rate algo', [(MF, '        elif self._owner.rate_algo == "CT":\n            rate_func = self.get_rxn_rates_CT\n        else:\n            msg = "Unknown method type \'{}\'".format(self._owner.rate_algo)\n            raise ValueError(msg)', '        else:\n            rate_func = self.get_rxn_rates_CT')]),
    ('C36', 'break', 'Gar not needed', [(MF, 'if "Gaf" not in relative_energies or "Gar" not in relative_energies:', 'if "Gaf" not in relative_energies and "Gar" not in relative_energies:')]),
    ('C36', 'break', 'unknown root finder', [(SS, "                elif self._owner.rootfinding == 'MDNewton':", "                elif self._owner.rootfinding != 'ConstrainedNewton':")]),
    ('C36', 'break', 'unknown root finder returns', [(SS, "                    msg='Unrecognized rootfinding iterator name [{}]'.format(self._owner.rootfinding)\n                    raise ParameterError(msg)", "                    msg='Unrecognized rootfinding iterator name [{}]'.format(self._owner.rootfinding)\n                    self.__logger.error(msg)\n                    return None")]),
    ('C36', 'break', 'jacobian too many coverages', [(SS, '        if m != n:\n', '        if m > n:\n')]),
    ('C36', 'break', 'conserve any type', [(RX, '        if not isinstance(another, self.__class__):', '        if not hasattr(another, "get_elements_dict"):')]),
    ('C36', 'break', 'init_cvgs too long', [(MK, 'if len(init_cvgs) != len(self.adsorbate_names):', 'if len(init_cvgs) < len(self.adsorbate_names):')]),
    ('C36', 'break', 'any callable analysis', [(MK, 'if not issubclass(analysis_cls, OnTheFlyAnalysis):', 'if not callable(analysis_cls):')]),
    ('C36', 'break', 'hybrid any model', [(MK, 'if not isinstance(model, MicroKineticModel):', 'if model is None:')]),
    ('C36', 'break', 'product missing', [(MK, '            if product_name is None:', '            if product_name is None and not self.gas_names:')]),
    ('C36', 'break', 'swallow setup errors', [(KM, "            setattr(self, key, copy.deepcopy(value))\n", "            try:\n                setattr(self, key, copy.deepcopy(value))\n            except (SetupError, ValueError) as e:\n                self._logger.warning(str(e))\n")]),
    ('C36', 'break', 'unknown correction', [(TC, "        else:\n            raise ValueError(\"Unknown method: '{}'\".format(method))", "        else:\n            self.__logger.warning(\"Unknown method: '{}'\".format(method))\n            correct_func = self.entropy_correction")]),
    ('C36', 'break', 'relative shape', [(RE, 'len(data_dict["dG"]) !=', 'len(data_dict["dG"]) >')]),
    ('C36', 'break', 'interval zero', [(AM, 'interval <= 0', 'interval < 0')]),
    ('C36', 'break', 'method none', [(AM, "if method is not None and not callable(method):", "if method and not callable(method):")]),
    ('C36', 'break', 'norm not needed', [(RI, "'J', 'constraint', 'norm', 'mpfloat',", "'J', 'constraint', 'mpfloat',")]),
    ('C36', 'break', 'CT negative ratio', [(SB, 'if not Auc > 0.0:', 'if Auc == 0.0:')]),
    ('C36', 'keep', 'helper builds', [(KM, "            raise TypeError('Invalid model corrector')", "            raise self._invalid('corrector')"), (KM, "    def set_corrector(self, corrector):", "    @staticmethod\n    def _invalid(what):\n        return TypeError('Invalid model {}'.format(what))\n\n    def set_corrector(self, corrector):")]),
    ('C36', 'keep', 'assigned then raised', [(KM, "            raise TypeError('Invalid model corrector')", "            error = TypeError('Invalid model corrector')\n            raise error")]),
    ('C36', 'keep', 'guard first', [(KM, "        if isinstance(corrector, CorrectorBase):\n            setattr(self, mangled_name(self, 'corrector'), corrector)\n        else:\n            raise TypeError('Invalid model corrector')", "        if not isinstance(corrector, CorrectorBase):\n            raise TypeError('Invalid model corrector')\n        setattr(self, mangled_name(self, 'corrector'), corrector)")]),
    ('C36', 'keep', 'handler by next', [(KM, "        handler = None\n        for h in self._logger.handlers:\n            if h.__class__.__name__ == handler_type:\n                handler = h\n                break\n", "        handler = next((h for h in self._logger.handlers if h.__class__.__name__ == handler_type), None)\n")]),
    ('C36', 'keep', 'rate table', [(MF, '        if self._owner.rate_algo == "TST":\n            rate_func = self.get_rxn_rates_TST\n        elif self._owner.rate_algo == "CT":\n            rate_func = self.get_rxn_rates_CT\n        else:\n            msg = "Unknown method type \'{}\'".format(self._owner.rate_algo)\n            raise ValueError(msg)', '        rate_algo = self._owner.rate_algo\n        if rate_algo not in ("TST", "CT"):\n            raise ValueError("Unknown method type \'{}\'".format(rate_algo))\n        rate_func = self.get_rxn_rates_TST if rate_algo == "TST" else self.get_rxn_rates_CT')]),
    ('C36', 'keep', 'extract by dict', [(MF, "        if symbol_type == 'pressure':\n            sp_list = self._owner.gas_names\n            symbol_tup = self._p_sym\n", "        if 'pressure' == symbol_type:\n            sp_list, symbol_tup = self._owner.gas_names, self._p_sym\n")]),
    ('C36', 'keep', 'extract in test', [(MF, "        try:\n            idx = sp_list.index(sp_name)\n        except ValueError:\n            msg_template = \"species '{}' is not in list '{}'\"\n            msg = msg_template.format(sp_name, sp_list)\n            raise ParameterError(msg)\n\n        return symbol_tup[idx]", "        if sp_name not in sp_list:\n            msg_template = \"species '{}' is not in list '{}'\"\n            raise ParameterError(msg_template.format(sp_name, sp_list))\n\n        return symbol_tup[sp_list.index(sp_name)]")]),
    ('C36', 'keep', 'finder guard first', [(SS, "        # Start root finding algorithm.\n", "        if self._owner.rootfinding not in ('ConstrainedNewton', 'MDNewton'):\n            raise ParameterError('Unrecognized rootfinding iterator name')\n        # Start root finding algorithm.\n")]),
    ('C36', 'keep', 'all callables', [(AM, "        for method_name in ['setup', 'register_step', 'finalize']:\n            method = attrs.get(method_name, None)\n", "        for method_name in ('setup', 'register_step', 'finalize'):\n            method = attrs.get(method_name)\n")]),
    ('C36', 'keep', 'sequence any', [(CU, "    for entry in sequence:\n        if not isinstance(entry, entry_type):\n            raise SetupError(msg)\n", "    if not all(isinstance(entry, entry_type) for entry in sequence):\n        raise SetupError(msg)\n")]),
    ('C36', 'keep', 'newton missing list', [(RI, "        for param in essential_params:\n            if not hasattr(self, '_' + param):\n                msg = \"parameter '{}' must be supplied.\".format(param)\n                raise ParameterError(msg)\n", "        missing = [param for param in essential_params if not hasattr(self, '_' + param)]\n        if missing:\n            raise ParameterError(\"parameter '{}' must be supplied.\".format(missing[0]))\n")]),
]
