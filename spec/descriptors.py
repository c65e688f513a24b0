"""Reference semantics of the declared parameters of models (C22, C23)."""


def get(self, instance, owner):
    key = '_' + instance.__class__.__name__ + '__' + self.name
    if key not in instance.__dict__:
        instance.__dict__[key] = copy.deepcopy(self.default)
    if self.deepcopy:
        return copy.deepcopy(instance.__dict__[key])
    return instance.__dict__[key]


def set_(self, instance, value):
    self._check(value)
    key = '_' + instance.__class__.__name__ + '__' + self.name
    if key in instance.__dict__:
        raise AttributeError('')
    instance.__dict__[key] = value


def check_type(self, value):
    if type(value) is not self.type:
        raise ValueError('')
    if self.candidates is not None and value not in self.candidates:
        raise ValueError('')


def check_float(self, value):
    if type(value) is not float and type(value) is not int:
        raise ValueError('')
    if self.candidates is not None and value not in self.candidates:
        raise ValueError('')


def check_sequence(self, value):
    if type(value) is not list and type(value) is not tuple:
        raise ValueError('')
    if self.entry_type is not None:
        for entry in value:
            if type(entry) is not self.entry_type:
                raise ValueError('')
    if self.candidates is not None:
        for entry in value:
            if entry not in self.candidates:
                raise ValueError('')


def check_list2d(self, value):
    if type(value) is not list:
        raise ValueError('')
    a = np.array(value)
    if a.dtype.kind != 'f' or len(a.shape) != 2:
        raise ValueError('')


def check_vectors(self, value):
    if type(value) is not list:
        raise ValueError('')
    a = np.array(value)
    if a.dtype.kind != 'f' or len(a.shape) != 2 or a.shape[1] != 3:
        raise ValueError('')


def set_species(self, instance, value):
    check_species_definitions(value)
    set_(self, instance, value)


def set_component(self, instance, value):
    if type(value) is not str or value not in self.candidates or value not in globals():
        raise ValueError('')
    key = '_' + instance.__class__.__name__ + '__' + self.name
    instance.__dict__[key] = globals()[value](owner=instance)


def property_get(self, instance, cls):
    return self.func(instance)


def property_set(self, instance, value):
    raise AttributeError('')


# ------------------------------------------------------------------ a parameter from declaration to use
def stored(instance, value, name):
    key = '_' + instance.__class__.__name__ + '__' + name
    if key in instance.__dict__:
        raise AttributeError('')
    return value


def candidate(value, candidates):
    if candidates is not None and value not in candidates:
        raise ValueError('')


def drv_integer(instance, value, name, default, candidates):
    p = Integer(name, default, candidates=candidates)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def integer(instance, value, name, default, candidates):
    if type(value) is not int:
        raise ValueError('')
    candidate(value, candidates)
    return stored(instance, value, name)


def drv_string(instance, value, name, default, candidates):
    p = String(name, default, candidates=candidates)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def string(instance, value, name, default, candidates):
    if type(value) is not str:
        raise ValueError('')
    candidate(value, candidates)
    return stored(instance, value, name)


def drv_bool(instance, value, name, default, candidates):
    p = Bool(name, default, candidates=candidates)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def bool_(instance, value, name, default, candidates):
    if type(value) is not bool:
        raise ValueError('')
    candidate(value, candidates)
    return stored(instance, value, name)


def drv_dict(instance, value, name, default, candidates):
    p = Dict(name, default, candidates=candidates)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def dict_(instance, value, name, default, candidates):
    if type(value) is not dict:
        raise ValueError('')
    candidate(value, candidates)
    return stored(instance, value, name)


def drv_float(instance, value, name, default, candidates):
    p = Float(name, default, candidates=candidates)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def float_(instance, value, name, default, candidates):
    if type(value) is not float and type(value) is not int:
        raise ValueError('')
    candidate(value, candidates)
    return stored(instance, value, name)


def drv_sequence(instance, value, name, default, entry_type, candidates):
    p = Sequence(name, default, entry_type=entry_type, candidates=candidates)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def sequence(instance, value, name, default, entry_type, candidates):
    if type(value) is not list and type(value) is not tuple:
        raise ValueError('')
    if entry_type is not None:
        for entry in value:
            if type(entry) is not entry_type:
                raise ValueError('')
    if candidates is not None:
        for entry in value:
            if entry not in candidates:
                raise ValueError('')
    return stored(instance, value, name)


def drv_list2d(instance, value, name, default):
    p = FloatList2D(name, default)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def list2d(instance, value, name, default):
    if type(value) is not list:
        raise ValueError('')
    a = np.array(value)
    if a.dtype.kind != 'f' or len(a.shape) != 2:
        raise ValueError('')
    return stored(instance, value, name)


def drv_vectors(instance, value, name, default):
    p = SpaceVectors(name, default)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def vectors(instance, value, name, default):
    if type(value) is not list:
        raise ValueError('')
    a = np.array(value)
    if a.dtype.kind != 'f' or len(a.shape) != 2 or a.shape[1] != 3:
        raise ValueError('')
    return stored(instance, value, name)


def drv_reference(instance, value, name, default):
    p = RefEnergies(name, default)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def reference(instance, value, name, default):
    check_ref_energies(value)
    return stored(instance, value, name)


def drv_species(instance, value, name, default):
    p = SpeciesDefinitions(name, default)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def species(instance, value, name, default):
    check_species_definitions(value)
    return stored(instance, value, name)


def drv_interval(instance, value, name, default):
    p = AnalysisInterval(name, default)
    p.__set__(instance, value)
    return p.__get__(instance, None)


def interval(instance, value, name, default):
    check_analysis_interval(value)
    return stored(instance, value, name)


def drv_default(instance, name, default):
    return AttrDescriptor(name, default).__get__(instance, None)


def default(instance, name, default):
    key = '_' + instance.__class__.__name__ + '__' + name
    if key in instance.__dict__:
        return instance.__dict__[key]
    return default


def drv_twice(instance, name, default, first, second):
    p = AttrDescriptor(name, default)
    p.__set__(instance, first)
    p.__set__(instance, second)


def twice(instance, name, default, first, second):
    raise AttributeError('')


# ------------------------------------------------------------------ set-up data
def load(self, setup_dict):
    declared = self.__mro_class_attrs()
    for key, value in setup_dict.items():
        if key in declared and key != 'parser' and key != 'solver':
            setattr(self, key, value)
    if 'parser' not in setup_dict:
        raise ParameterError('')
    self.parser = setup_dict['parser']
    if self.rxn_expressions:
        (self.__adsorbate_names, self.__gas_names, self.__liquid_names, self.__site_names, self.__transition_state_names,
         self.__elementary_rxns_list) = self.parser.parse_elementary_rxns(self.rxn_expressions)
    if 'solver' in setup_dict:
        self.solver = setup_dict['solver']


def class_attrs(self):
    d = {}
    for cls in self.__class__.__mro__:
        d.update(cls.__dict__)
    return d.keys()
