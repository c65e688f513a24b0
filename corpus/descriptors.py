DE, CD, CU = 'scaks/descriptors/descriptors.py', 'scaks/descriptors/component_descriptors.py', 'scaks/utilities/check_utilities.py'
KM, MK, KC = 'scaks/models/kinetic_model.py', 'scaks/models/micro_kinetic_model.py', 'scaks/models/kmc_model.py'
SET = """        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = value
        else:
            msg ="Changing value of {}.{} is not allowed".format(instance.__class__.__name__,
                                                                 self.name)
            raise AttributeError(msg)
"""
EDITS = [
    ('C22', 'break', 'isinstance accepts bool', [(DE, '        if type(value) is not self.type:', '        if not isinstance(value, self.type):')]),
    ('C22', 'break', 'float by isinstance', [(DE, '        if type(value) not in (float, int):', '        if not isinstance(value, (float, int)):')]),
    ('C22', 'break', 'float ignores candidates', [(DE, """        if type(value) not in (float, int):
            msg = "{} ({}) is not a {}".format(self.name, value, self.type)
            raise ValueError(msg)
        # Check if in possible values.
        if self.candidates is not None and value not in self.candidates:
            msg = "{} ({}) is not one of {}".format(self.name, value, self.candidates)
            raise ValueError(msg)
""", """        if type(value) not in (float, int):
            msg = "{} ({}) is not a {}".format(self.name, value, self.type)
            raise ValueError(msg)
""")]),
    ('C22', 'break', 'stored before checked', [(DE, """        self._check(value)
        # Data assignment.
""", """        # Data assignment.
"""), (DE, SET, SET + "        self._check(value)\n")]),
    ('C22', 'break', 'same value may be set again', [(DE, """        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = value
        else:""", """        if private_name not in instance.__dict__ or instance.__dict__[private_name] == self.default:
            instance.__dict__[private_name] = value
        else:""")]),
    ('C22', 'break', 'first entry only', [(DE, """            for entry in value:
                if type(entry) is not self.entry_type:
                    msg = "{} in {} is not {}".format(entry, self.name, self.entry_type)
                    raise ValueError(msg)
""", """            for entry in value[:1]:
                if type(entry) is not self.entry_type:
                    msg = "{} in {} is not {}".format(entry, self.name, self.entry_type)
                    raise ValueError(msg)
""")]),
    ('C22', 'break', 'candidates only untyped', [(DE, """        if self.candidates is not None:
            for entry in value:""", """        elif self.candidates is not None:
            for entry in value:""")]),
    ('C22', 'break', 'any of candidates', [(DE, """            for entry in value:
                if entry not in self.candidates:
                    msg = "{} in {} is not one of {}".format(entry,
                                                             self.name,
                                                             self.candidates)
                    raise ValueError(msg)
""", """            if value and not any(entry in self.candidates for entry in value):
                raise ValueError("{} is not one of {}".format(self.name, self.candidates))
""")]),
    ('C22', 'break', 'two dimensions at least', [(DE, 'if len(data_array.shape) != 2:', 'if len(data_array.shape) < 2:')]),
    ('C22', 'break', 'vectors of rows', [(DE, 'if data_array.shape[1] != 3:', 'if data_array.shape[0] != 3:')]),
    ('C22', 'break', 'vectors longer', [(DE, 'if data_array.shape[1] != 3:', 'if data_array.shape[1] < 3:')]),
    ('C22', 'break', 'integers as floats', [(DE, "if data_array.dtype.kind != 'f':", "if data_array.dtype.kind not in 'fi':")]),
    ('C22', 'break', 'vectors unchecked', [(DE, '        super(SpaceVectors, self)._check(value)\n', '')]),
    ('C22', 'break', 'species unchecked', [(DE, '        check_species_definitions(value)\n        super', '        super')]),
    ('C22', 'break', 'species set by father only', [(DE, '        super(SpeciesDefinitions, self).__set__(instance, value)', '        instance.__dict__["_{}__{}".format(instance.__class__.__name__, self.name)] = value')]),
    ('C22', 'break', 'integer candidates dropped', [(DE, '        super(Integer, self).__init__(name, int, default, deepcopy, candidates)', '        super(Integer, self).__init__(name, int, default, deepcopy)')]),
    ('C22', 'break', 'string candidates as deepcopy', [(DE, '        super(String, self).__init__(name, str, default, deepcopy, candidates)', '        super(String, self).__init__(name, str, default, candidates, deepcopy)')]),
    ('C22', 'break', 'entry type dropped', [(DE, '        self.entry_type = entry_type\n', '        self.entry_type = None\n')]),
    ('C22', 'break', 'default of falsy', [(DE, '        if private_name not in instance.__dict__:\n            instance.__dict__[private_name] = copy.deepcopy(self.default)', '        if not instance.__dict__.get(private_name):\n            instance.__dict__[private_name] = copy.deepcopy(self.default)')]),
    ('C22', 'break', 'unknown component kept', [(CD, """        if value not in self.candidates:
            raise ValueError("{} ({}) is not in {}".format(self.name,
                                                           value,
                                                           self.candidates))
""", "")]),
    ('C22', 'break', 'component by part', [(CD, '        if value not in self.candidates:', '        if value not in str(self.candidates):')]),
    ('C22', 'break', 'property settable', [(DE, """        msg ="Changing value of {}.{} is not allowed".format(instance.__class__.__name__,
                                                             self.func.__name__)
        raise AttributeError(msg)
""", """        instance.__dict__[self.func.__name__] = value
""")]),
    ('C22', 'break', 'load past the checks', [(KM, '            setattr(self, key, copy.deepcopy(value))\n', '            self.__dict__["_{}__{}".format(self.__class__.__name__, key)] = copy.deepcopy(value)\n')]),
    ('C22', 'break', 'load mangled', [(KM, '            setattr(self, key, copy.deepcopy(value))\n', '            setattr(self, mangled_name(self, key), copy.deepcopy(value))\n')]),
    ('C22', 'break', 'load none skipped', [(KM, '            if key in ["parser", "solver"]:\n', '            if key in ["parser", "solver"] or not value:\n')]),
    ('C22', 'break', 'load undeclared', [(KM, '                    self._logger.warning(msg)\n                continue\n', '                    self._logger.warning(msg)\n')]),
    ('C22', 'break', 'parser before parameters', [(KM, '        self.parser = setup_dict["parser"]\n', ''), (KM, '        # Set model attributes in setup file.\n', '        if "parser" in setup_dict:\n            self.parser = setup_dict["parser"]\n        # Set model attributes in setup file.\n')]),
    ('C22', 'break', 'generator list cut', [(KC, 'candidates=["MT", "MINSTD", "RANLUX24", "RANLUNX48"]', 'candidates=["MT", "MINSTD"]')]),
    ('C22', 'break', 'no entry type of periodic', [(KC, """                           default=(True, True, True),
                           entry_type=bool)""", """                           default=(True, True, True))""")]),
    ('C22', 'break', 'shared storage', [(KC, 'Integer("tof_start", default=0)', 'Integer("start_time", default=0)')]),
    ('C22', 'break', 'bad default', [(MK, 'perturbation_direction = String("perturbation_direction",\n                                    default="right"', 'perturbation_direction = String("perturbation_direction",\n                                    default="both"')]),
    ('C22', 'break', 'analysis of any type', [(MK, "Sequence('analysis', default=[], entry_type=OnTheFlyAnalysis)", "Sequence('analysis', default=[])")]),
    ('C22', 'break', 'unknown solver candidate', [(KM, 'candidates=["KMCSolver", "SteadyStateSolver"]', 'candidates=["KMCSolver", "SteadyStateSolver", "QuasiEquilibriumSolver"]')]),
    ('C22', 'keep', 'early return', [(DE, """        private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = value
        else:
            msg =""", """        private_name = "_%s__%s" % (type(instance).__name__, self.name)
        if not private_name in instance.__dict__:
            instance.__dict__[private_name] = value
        else:
            msg =""")]),
    ('C22', 'keep', 'helper for name', [(DE, """        private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = value
""", """        private_name = self._private_name(instance)
        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = value
"""), (DE, '    def _check(self, value):\n        # Placeholder', '    def _private_name(self, instance):\n        return "_{}__{}".format(instance.__class__.__name__, self.name)\n\n    def _check(self, value):\n        # Placeholder')]),
    ('C22', 'keep', 'float through helper', [(DE, """        # Overwrite father method.
        if type(value) not in (float, int):
            msg = "{} ({}) is not a {}".format(self.name, value, self.type)
            raise ValueError(msg)
        # Check if in possible values.
        if self.candidates is not None and value not in self.candidates:
            msg = "{} ({}) is not one of {}".format(self.name, value, self.candidates)
            raise ValueError(msg)
""", """        if not (type(value) is int or type(value) is float):
            raise ValueError("{} ({}) is not a {}".format(self.name, value, self.type))
        self._check_candidates(value)
"""), (DE, """        # Check if in possible values.
        if self.candidates is not None and value not in self.candidates:
            msg = "{} ({}) is not one of {}".format(self.name, value, self.candidates)
            raise ValueError(msg)


class Integer""", """        self._check_candidates(value)

    def _check_candidates(self, value):
        if self.candidates is None:
            return
        if value not in self.candidates:
            raise ValueError("{} ({}) is not one of {}".format(self.name, value, self.candidates))


class Integer""")]),
    ('C22', 'keep', 'all of', [(DE, """            for entry in value:
                if type(entry) is not self.entry_type:
                    msg = "{} in {} is not {}".format(entry, self.name, self.entry_type)
                    raise ValueError(msg)
""", """            if not all(type(entry) is self.entry_type for entry in value):
                raise ValueError("an entry in {} is not {}".format(self.name, self.entry_type))
""")]),
    ('C22', 'keep', 'one loop', [(DE, """        if self.entry_type is not None:
            for entry in value:
                if type(entry) is not self.entry_type:
                    msg = "{} in {} is not {}".format(entry, self.name, self.entry_type)
                    raise ValueError(msg)
        if self.candidates is not None:
            for entry in value:
                if entry not in self.candidates:
                    msg = "{} in {} is not one of {}".format(entry,
                                                             self.name,
                                                             self.candidates)
                    raise ValueError(msg)
""", """        for entry in value:
            if self.entry_type is not None and type(entry) is not self.entry_type:
                msg = "{} in {} is not {}".format(entry, self.name, self.entry_type)
                raise ValueError(msg)
            if self.candidates is not None and entry not in self.candidates:
                msg = "{} in {} is not one of {}".format(entry, self.name, self.candidates)
                raise ValueError(msg)
""")]),
    ('C22', 'keep', 'component guard first', [(CD, """        if value in globals():
            component_class = globals()[value]
            component_instance = component_class(owner=instance)
            private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
            instance.__dict__[private_name] = component_instance
        else:
            raise ValueError("{} class is not found".format(value))
""", """        if value not in globals():
            raise ValueError("{} class is not found".format(value))
        private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
        instance.__dict__[private_name] = globals()[value](owner=instance)
""")]),
    ('C22', 'keep', 'load one test', [(KM, """            if key not in class_attrs:
                if self.log_allowed:
                    msg = "Found redundant parameter '{}'".format(key)
                    self._logger.warning(msg)
                continue

            # Parser & solver will be set later.
            if key in ["parser", "solver"]:
                continue

            # Set parameters in setup dict as attiributes of model.
            # NOTE: parameters may be changed by the model later(e.g. registration of
            #       analyses), the setup data of users must not.
            setattr(self, key, copy.deepcopy(value))
""", """            declared = key in class_attrs
            if not declared and self.log_allowed:
                self._logger.warning("Found redundant parameter '{}'".format(key))
            if not declared or key == "parser" or key == "solver":
                continue
            setattr(self, key, copy.deepcopy(value))
""")]),
    ('C22', 'keep', 'load keys', [(KM, "        for key, value in setup_dict.items():\n            # Check", "        for key in setup_dict:\n            value = setup_dict[key]\n            # Check")]),
    ('C22', 'keep', 'candidates hoisted', [(KC, 'class KMCModel(KineticModel):\n', 'GENERATORS = ["MT", "MINSTD", "RANLUX24", "RANLUNX48"]\n\n\nclass KMCModel(KineticModel):\n'), (KC, 'candidates=["MT", "MINSTD", "RANLUX24", "RANLUNX48"]', 'candidates=GENERATORS')]),
    ('C22', 'keep', 'levels hoisted', [(KM, '    logger_level = Integer("logger_level",\n                              default=logging.INFO,\n                              candidates=range(0, 60, 10))', '    levels = range(0, 60, 10)\n    logger_level = Integer("logger_level", logging.INFO, candidates=levels)')]),
    ('C22', 'keep', 'try read', [(DE, """        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = copy.deepcopy(self.default)
        if self.deepcopy:
            return copy.deepcopy(instance.__dict__[private_name])
        else:
            return instance.__dict__[private_name]
""", """        if private_name not in instance.__dict__:
            instance.__dict__[private_name] = copy.deepcopy(self.default)
        value = instance.__dict__[private_name]
        return copy.deepcopy(value) if self.deepcopy else value
""")]),
]
