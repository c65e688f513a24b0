"""Reference conditions under which calls are rejected (C36); what is returned otherwise is the business of other properties."""


# ------------------------------------------------------------------ check_utilities
def check_sequence(sequence, entry_type=None, param_name=''):
    if type(sequence) not in (tuple, list):
        raise SetupError('')
    for entry in sequence:
        if not isinstance(entry, entry_type):
            raise SetupError('')
    return sequence


def check_string(string, string_range=None, param_name=''):
    if not isinstance(string, str):
        raise SetupError('')
    if string not in string_range:
        raise SetupError('')
    return string


def check_species_definitions(species_definitions):
    if not isinstance(species_definitions, dict):
        raise SetupError('')
    for species in species_definitions:
        if species.endswith('_g') and 'pressure' not in species_definitions[species]:
            raise SetupError('')
    return species_definitions


def check_ref_energies(ref_energies):
    if not isinstance(ref_energies, dict):
        raise SetupError('')
    for key in ref_energies:
        if not isinstance(key, str) or not isinstance(ref_energies[key], float):
            raise SetupError('')
    return ref_energies


# ------------------------------------------------------------------ models
def set_logger_level(self, handler_type, level):
    for h in self._logger.handlers:
        if h.__class__.__name__ == handler_type:
            return None
    raise ValueError('')


def set_logger_level_done(self, handler_type, level):
    for h in self._logger.handlers:
        if h.__class__.__name__ == handler_type:
            old = h.level
            h.setLevel(level)
            return old
    raise ValueError('')


def model_init(self, **kwargs):
    if kwargs.get('setup_file') is None and kwargs.get('setup_dict') is None:
        raise ValueError('')


def load(self, setup_dict):
    if 'parser' not in setup_dict:
        raise ParameterError('')


def set_solver(self, solver):
    if not isinstance(solver, SolverBase):
        raise TypeError('')


def set_corrector(self, corrector):
    if not isinstance(corrector, CorrectorBase):
        raise TypeError('')


def analysis_register(self, analysis_cls):
    if not issubclass(analysis_cls, OnTheFlyAnalysis):
        raise TypeError('')


def analysis_meta(cls, name, bases, attrs):
    if 'interval' in attrs:
        interval = attrs['interval']
        if type(interval) is not int or interval <= 0:
            raise TypeError('')
    for key in ('setup', 'register_step', 'finalize'):
        if attrs.get(key) is not None and not callable(attrs.get(key)):
            raise AttributeError('')


# ------------------------------------------------------------------ solvers
def get_rate_constants(self, relative_energies=None, log=False):
    if not relative_energies:
        if not self._owner.has_relative_energy:
            raise AttributeError('')
        relative_energies = self._owner.relative_energies
    if 'Gaf' not in relative_energies or 'Gar' not in relative_energies:
        raise ParameterError('')
    if self._owner.rate_algo != 'TST' and self._owner.rate_algo != 'CT':
        raise ValueError('')


def extract_symbol(self, sp_name, symbol_type):
    if symbol_type == 'pressure':
        names = self._owner.gas_names
    elif symbol_type == 'concentration':
        names = self._owner.liquid_names
    elif symbol_type == 'ads_cvg':
        names = self._owner.adsorbate_names
    elif symbol_type == 'free_site_cvg':
        names = self._owner.site_names
    else:
        raise ValueError('')
    if sp_name not in names:
        raise ParameterError('')


def dtheta_dt_expression(self, adsorbate_name, rxn_expression):
    if adsorbate_name not in self._owner.adsorbate_names:
        raise ValueError('')


def dtheta_dt_sym(self, adsorbate_name, rxn_expression):
    if adsorbate_name not in self._owner.adsorbate_names:
        raise ParameterError('')
    if rxn_expression not in self._owner.rxn_expressions:
        raise ParameterError('')


def total_term(self, adsorbate_name, term_expression):
    if adsorbate_name not in self._owner.adsorbate_names:
        raise ValueError('')


def jacobian(self, cvgs_tuple, relative_energies=None):
    if len(self.get_dtheta_dt_expressions()) != len(cvgs_tuple):
        raise ParameterError('')


def single_XRC(self, gas_name, epsilon=None, relative_energies=None):
    if not hasattr(self, '_coverages'):
        raise AttributeError('')


def newton_init(self, f, x0, **kwargs):
    RootfindingIterator.__init__(self, f, x0, **kwargs)
    for param in ('J', 'constraint', 'norm', 'mpfloat', 'matrix', 'Axb_solver'):
        if not hasattr(self, '_' + param):
            raise ParameterError('')


# ------------------------------------------------------------------ helpers
def mangled_name(obj, attribute):
    if not isinstance(attribute, str):
        raise ParameterError('')
    return '_' + obj.__class__.__name__ + '__' + attribute


def hybrid_driver(model, other, fn):
    model.hybrid_method_register(fn)
    return model.hybrid_method(other, 0)


def hybrid(model, other, fn):
    if not isinstance(other, MicroKineticModel):
        raise TypeError('')
    return fn(other, 0)


def analysis_registered(self, analysis_cls):
    if not issubclass(analysis_cls, OnTheFlyAnalysis):
        raise TypeError('')
    self.analysis.append(analysis_cls())
