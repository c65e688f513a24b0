"""The documented parameters of the models: accepted types, entry type, candidates (alternatives), documented default."""
TYPES = {'int': int, 'float': float, 'str': str, 'bool': bool, 'dict': dict, 'list': list, 'tuple': tuple}

ANY = (None,)
LEVELS = (frozenset(range(0, 60, 10)),)
INT, FLOAT, STR, BOOL, DICT = ('int',), ('float', 'int'), ('str',), ('bool',), ('dict',)


def among(*values):
    return (frozenset(values),)


DECLARED = {
    'KineticModel': {
        'setup_file': (STR, None, ANY),
        'setup_dict': (DICT, None, ANY),
        'logger_level': (INT, None, LEVELS),
        'file_handler_level': (INT, None, LEVELS),
        'console_handler_level': (INT, None, LEVELS),
        'parser': ('Component', None, among('RelativeEnergyParser', 'AbsoluteEnergyParser', 'KMCParser')),
        'solver': ('Component', None, among('KMCSolver', 'SteadyStateSolver')),
        'corrector': ('Component', None, among('ThermodynamicCorrector')),
        'plotter': ('Component', None, among('EnergyProfilePlotter')),
        'temperature': (FLOAT, None, ANY, 298.0),
        'rxn_expressions': ('Sequence', 'str', ANY, []),
        'species_definitions': ('SpeciesDefinitions', None, ANY),
        'rate_algo': (STR, None, ANY + among('TST', 'CT'), 'TST'),
        'components': ('Sequence', 'str', ANY),
        'unitcell_area': (FLOAT, None, ANY),
        'active_ratio': (FLOAT, None, ANY),
    },
    'MicroKineticModel': {
        'decimal_precision': (INT, None, ANY, 100),
        'perturbation_size': (FLOAT, None, ANY, 0.01),
        'perturbation_direction': (STR, None, among('right', 'left'), 'right'),
        'archived_variables': ('Sequence', 'str', ANY),
        'numerical_representation': (STR, None, among('mpmath', 'sympy')),
        'rootfinding': (STR, None, among('MDNewton', 'ConstrainedNewton'), 'MDNewton'),
        'tolerance': (FLOAT, None, ANY, 1e-8),
        'max_rootfinding_iterations': (INT, None, ANY, 100),
        'ode_buffer_size': (INT, None, ANY, 500),
        'ode_output_interval': (INT, None, ANY, 200),
        'ref_energies': ('RefEnergies', None, ANY),
        'analysis': ('Sequence', 'OnTheFlyAnalysis', ANY),
    },
    'KMCModel': {
        'cell_vectors': ('SpaceVectors', None, ANY),
        'basis_sites': ('SpaceVectors', None, ANY),
        'repetitions': ('Sequence', 'int', ANY),
        'periodic': ('Sequence', 'bool', ANY),
        'nstep': (INT, None, ANY),
        'random_seed': (INT, None, ANY),
        'time_seed': (BOOL, None, ANY),
        'trajectory_dump_interval': (INT, None, ANY),
        'random_generator': (STR, None, among('MT', 'MINSTD', 'RANLUX24', 'RANLUNX48') + among('MT', 'MINSTD', 'RANLUX24', 'RANLUX48')),
        'analysis': ('Sequence', 'str', among('CoveragesAnalysis', 'FrequencyAnalysis', 'TOFAnalysis', 'EventAnalysis')),
        'analysis_interval': ('AnalysisInterval', None, ANY),
        'possible_element_types': ('Sequence', 'str', ANY),
        'possible_site_types': ('Sequence', 'str', ANY),
        'empty_type': (STR, None, ANY),
        'tof_start': (INT, None, ANY),
        'time_limit': (FLOAT, None, ANY),
        'coverage_ratios': ('Sequence', 'float', ANY),
        'extra_trajectories': ('Sequence', 'int', ANY),
        'start_time': (FLOAT, None, ANY),
        'tof_interval': (FLOAT, None, ANY),
        'do_redistribution': (BOOL, None, ANY),
        'redistribution_interval': (INT, None, ANY),
        'fast_species': ('Sequence', 'str', ANY),
        'nsplits': ('Sequence', 'int', ANY),
        'distributor_type': (STR, None, among('RandomDistributor', 'ProcessRandomDistributor')),
    },
}
