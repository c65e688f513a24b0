#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, id
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None,
                               **({'state': state} if state else {}))))


RX = 'scaks/parsers/rxn_parser.py'
PB = 'scaks/parsers/parser_base.py'
RE = 'scaks/parsers/relative_energy_parser.py'
AE = 'scaks/parsers/absolute_energy_parser.py'
KP = 'scaks/parsers/kmc_parser.py'
SB = 'scaks/solvers/solver_base.py'
MF = 'scaks/solvers/mean_field_solver.py'
SS = 'scaks/solvers/steady_state_solver.py'
RI = 'scaks/solvers/rootfinding_iterators.py'
KS = 'scaks/solvers/kmc_solver.py'
TC = 'scaks/correctors/thermodynamic_corrector.py'
TD = 'scaks/database/thermo_data.py'
KM = 'scaks/models/kinetic_model.py'
MM = 'scaks/models/micro_kinetic_model.py'
KMC = 'scaks/models/kmc_model.py'
DE = 'scaks/descriptors/descriptors.py'
CD = 'scaks/descriptors/component_descriptors.py'
MP = 'scaks/mpicommons.py'
INI = 'scaks/__init__.py'
CU = 'scaks/utilities/check_utilities.py'
CO = 'scaks/utilities/coordinate_utilities.py'
FU = 'scaks/utilities/format_utilities.py'
PL = 'scaks/solvers/kmc_plugins/'
CPP = 'c++/src/kmc_functions.cpp'

prop('C01', 'Reactions that do not conserve mass or sites are never accepted',
     'A model is only ever built from elementary reactions whose initial, transition and final states contain the same number of '
     'every element and of every surface-site type, counted with stoichiometric coefficients and with gas and liquid species '
     'occupying no site. A reaction that violates this in any state is rejected with an error, and the overall reaction derived '
     'from the mechanism is subject to the same rejection before it is returned.',
     ['inputs', 'programs'], 'every reaction list and every formula in it',
     'The conservation tests of the suite use two hand-written equations (and cannot run on this Python); nothing covers arbitrary states, multi-site species, repeated species or the derived overall reaction.',
     [RX, PB], [('element and site dictionaries', RX + ':ChemFormula.get_elements_dict/get_sites_dict, ChemState.*'),
                ('comparison of every state with the first', RX + ':ChemState.conserve, RxnEquation.check_conservation'),
                ('gate', PB + ':ParserBase.parse_elementary_rxns, get_total_rxn_equation')],
     ['RxnEquation.check_conservation()', 'building a model', 'parser.get_total_rxn_equation()'])

prop('C02', 'A reaction string is read completely, in order and without distortion',
     'Reading a reaction equation yields its states in written order (initial, optional transition state, final) and, for every '
     'state, one formula per "+"-separated term in written order. Each formula reports its written coefficient and number of '
     'occupied sites (1 when absent), its species, site and combined name, and is gas, liquid, empty site or adsorbate according '
     'to its site label and the "*" mark; a term that is not a formula is rejected with an error.',
     ['inputs'], 'every equation string of the documented grammar',
     'The suite samples a dozen formulas; the grammar is an infinite language carried by three regular expressions and their group numbering.',
     [RX], [('formula regex and group assignment', RX + ':ChemFormula.__init__/__split/type'), ('state splitting', RX + ':RxnEquation.tolist, ChemState.split/tolist')],
     ['ChemFormula queries', 'RxnEquation.tolist()/to_formula_list()'])

prop('C03', 'Reversing a reaction swaps its ends and keeps its transition state',
     'The reverse of a reaction starts from the original final state and ends in the original initial state, keeps the transition '
     'state if there is one, and changes nothing inside any state. Gases consumed are those of the initial state and gases produced '
     'those of the final state, each listed once per occurrence.',
     ['inputs'], 'every two-state and three-state reaction',
     'Two examples are tested; involution and end-swapping hold for all equations or not at all.',
     [RX], [('reversal', RX + ':RxnEquation.revert'), ('gas extraction', RX + ':RxnEquation.adsorption_gases/desorption_gases')],
     ['RxnEquation.revert()', 'adsorption_gases()', 'desorption_gases()'])

prop('C04', 'Every species of the mechanism is classified once, in a fixed order',
     'Every species occurring in any state of any elementary reaction appears in exactly one of the gas, liquid, adsorbate and '
     'transition-state name lists (empty sites only in the site list), and the site of every surface species appears in the site '
     'list. Each list is duplicate free and sorted, so it does not depend on reaction order or on hashing, and the parsed reaction '
     'list keeps the order of the input reactions.',
     ['inputs', 'configurations'], 'every mechanism',
     'Tests check one three-reaction mechanism with no liquid and a single site type under a fixed hash seed.',
     [PB], [('classification and ordering', PB + ':ParserBase.parse_elementary_rxns')],
     ['model.gas_names / liquid_names / adsorbate_names / transition_state_names / site_names / elementary_rxns_list'])

prop('C05', 'Stoichiometry matrices count every occurrence with the right sign',
     'For every reaction, the stoichiometry matrices hold, for each surface species and each gas or liquid species, the sum of its '
     'coefficients in the initial state minus the sum of its coefficients in the final state. Transition states contribute '
     'nothing, species repeated within or across states accumulate, and columns follow the model name lists (sites then '
     'adsorbates; gases then liquids).',
     ['inputs'], 'every mechanism',
     'One mechanism is compared literally; it has no repeated species, no species on both sides and no liquid.',
     [PB], [('matrix filling', PB + ':ParserBase.get_stoichiometry_matrices')],
     ['parser.get_stoichiometry_matrices()'])

prop('C06', 'Energies read as barriers are thermodynamically consistent',
     'After reading barrier/reaction-energy data the model holds, per reaction and in reaction order, a forward barrier, a reverse '
     'barrier and a reaction energy with forward minus reverse barrier equal to the reaction energy. The forward barrier is the '
     'given one, except that a barrierless endothermic step gets the reaction energy as its barrier. Data whose number of barriers '
     'or reaction energies differs from the number of reactions is rejected.',
     ['inputs'], 'every energy data set', 'One file is read by the tests; the barrierless endothermic branch and the rejections are sampled once or not at all.',
     [RE], [('derivation', RE + ':RelativeEnergyParser.__get_relative_energies'), ('shape validation', RE + ':__chk_data_validity'), ('publication', RE + ':parse_data')],
     ['model.relative_energies after parser.parse_data()'])

prop('C07', 'Barriers derived from absolute energies follow from state energies',
     'With absolute energies, the energy of a state is the sum over its species of coefficient times energy (an empty site using '
     'its site entry); the forward and reverse barriers are the transition-state energy minus the initial and final state energy, '
     'and the reaction energy is final minus initial. A reaction without transition state takes the higher of its two end states, so '
     'neither barrier is ever negative.',
     ['inputs'], 'every absolute energy data set and mechanism', 'One data set is tested; coefficient handling and 2-state steps hold for all inputs or not.',
     [PB, AE], [('state energies', PB + ':_get_state_energy'), ('differences', PB + ':_get_single_relative_energies, _get_relative_from_absolute'), ('publication', AE + ':parse_data')],
     ['model.relative_energies', 'model.absolute_energies'])

prop('C08', 'Transition-state-theory rate constants follow the Eyring law',
     'A transition-state-theory rate constant is kB*T/h*exp(-G/(kB*T)) for every barrier and temperature, in both the ordinary and '
     'the arbitrary-precision evaluation, and the equivalent barrier computed from a rate constant is its exact inverse. For a '
     'reaction the forward constant uses that reaction\'s forward barrier and the reverse constant its reverse barrier; when '
     'pressures are included each direction is multiplied by the pressure of every gas it consumes.',
     ['inputs', 'configurations'], 'every barrier, temperature, reaction and pressure', 'The tests compare a handful of numbers for one temperature; agreement of the two evaluations and the pressure factors are not sampled for coefficients above one.',
     [SB], [('rate law', SB + ':SolverBase.get_kTST, get_TST_barrier_from_CT'), ('per-reaction use', SB + ':get_rxn_rates_TST, _get_relative_energies')],
     ['solver.get_kTST', 'solver.get_TST_barrier_from_CT', 'solver.get_rxn_rates_TST'])

prop('C09', 'Collision-theory rates follow the kinetic gas flux law',
     'A collision-theory rate constant is f*(active ratio)*exp(-E/(kB*T))*p*A/sqrt(2*pi*m*kB*T), and an active ratio or steering '
     'factor above one, a non-positive unit-cell area or a missing corrector is rejected. For a reaction, a gas on the reactant side '
     'gives a collision-theory forward rate with the reverse rate from its equivalent barrier minus the entropy-corrected reaction '
     'energy (never a negative barrier); otherwise a gas on the product side gives a reverse rate from the entropy-corrected reverse '
     'barrier, and gas-free reactions use transition-state theory both ways.',
     ['inputs', 'configurations'], 'every reaction, temperature, pressure and cell', 'The suite evaluates one adsorption, one desorption and one surface reaction.',
     [SB], [('flux law and validation', SB + ':SolverBase.get_kCT'), ('case split', SB + ':get_rxn_rates_CT')],
     ['solver.get_kCT', 'solver.get_rxn_rates_CT'])

prop('C10', 'Energies, pressures and physical constants are combined in matching units',
     'Every thermodynamic and kinetic formula combines quantities of matching physical dimension: eV energies only with the eV '
     'forms of the Boltzmann and Planck constants, SI masses, pressures and areas only with the J forms, exponents and logarithm '
     'arguments dimensionless, atmospheres converted to pascal exactly where an SI pressure is required. The constants themselves '
     'are mutually consistent (the eV and J forms differ by the elementary charge).',
     ['inputs', 'programs'], 'every evaluation of every formula', 'A unit mix-up gives plausible numbers; tests compare stored numbers for one temperature and one gas.',
     [SB, TC, TD, PB, MF], [('constants', TD), ('formulas', SB + ', ' + TC + ', ' + MF)], ['rate constants, corrections, coverages'])

prop('C11', 'Forward and reverse rates obey the law of mass action',
     'The forward rate of every elementary reaction is its forward rate constant times the product over the initial-state species '
     'of its coverage, pressure or concentration raised to its coefficient, and the reverse rate is the reverse constant times the '
     'same product over the final state. Adsorbates and empty sites enter by coverage, gases by pressure and liquids by '
     'concentration, and rates are returned in reaction order.',
     ['inputs'], 'every mechanism, coverage vector and condition', 'One mechanism without liquids and with coefficients 1 and 2 is compared as literal strings.',
     [MF], [('rate expressions', MF + ':get_elementary_rate_expression, get_rate_expressions'), ('evaluation', MF + ':get_rates'), ('conditions', MF + ':get_data')],
     ['solver.get_rates', 'solver.get_rate_expressions'])

prop('C12', 'Symbolic and numeric evaluation describe the same kinetics',
     'The symbolic rate constants, rates, net rates and turnover frequencies are the same functions of energies, coverages, '
     'pressures, concentrations, temperature and physical constants as their numeric counterparts. Substituting the model\'s values '
     'assigns to every symbol the value of the quantity it stands for.',
     ['inputs'], 'every mechanism and condition', 'The by-symbol tests sample one gas-phase mechanism; symbols for liquids and other reaction orders are never substituted.',
     [MF], [('symbols', MF + ':get_data_symbols, _extract_symbol'), ('expressions', MF + ':get_rate_constant_syms, get_elementary_rate_sym, get_net_rate_syms, get_tof_syms'), ('substitution', MF + ':get_subs_dict and _get_*_subs_dict')],
     ['solver.*_by_sym', 'solver.*_syms'])

prop('C13', 'Coverage time derivatives are net rates weighted by stoichiometry',
     'The numeric time derivative of every adsorbate coverage is the sum over all elementary reactions of (final-state coefficient '
     'minus initial-state coefficient) times (forward rate minus reverse rate). Reactions not involving the adsorbate contribute '
     'nothing, and the derivatives are returned in adsorbate order.',
     ['inputs'], 'every mechanism and coverage vector', 'The tests use mechanisms where every adsorbate occurs once per reaction; repeated species and species on both sides are never sampled.',
     [SS], [('per-reaction terms', SS + ':get_elementary_dtheta_dt_expression'), ('assembly', SS + ':get_adsorbate_dtheta_dt_expression, get_dtheta_dt_expressions, steady_state_function')],
     ['solver.steady_state_function', 'solver.get_dtheta_dt_expressions'])

prop('C14', 'The analytical Jacobian is the derivative of the coverage equations',
     'Entry (i, j) of the analytical Jacobian is the derivative of the i-th adsorbate\'s coverage rate with respect to the j-th '
     'adsorbate\'s coverage, taking into account that free-site coverage falls as adsorbate coverage rises. It is square in the '
     'number of adsorbates, evaluated at the supplied coverages and energies, for the numeric and the symbolic route alike.',
     ['inputs'], 'every mechanism and coverage vector', 'One mechanism with two adsorbates is compared; mechanisms with more adsorbates or with terms holding both an adsorbate and its free site are not.',
     [SS], [('term differentiation', SS + ':poly_adsorbate_derivation and helpers'), ('assembly', SS + ':analytical_jacobian, analytical_jacobian_sym, analytical_jacobian_by_sym')],
     ['solver.analytical_jacobian', 'solver.analytical_jacobian_by_sym'])

prop('C15', 'Every site type keeps its site balance',
     'For every coverage vector and every site type, the free-site coverage used in any numeric or symbolic rate equals the defined '
     'total of that site type minus the sum of the coverages of exactly the adsorbates bound to it. Converting coverages between '
     'list and name form keeps every value with its own adsorbate.',
     ['inputs'], 'every coverage vector and mechanism with any number of site types', 'All test mechanisms have a single site type with total 1.',
     [MF], [('classification', MF + ':__classify_adsorbates'), ('numeric balance', MF + ':_cvg_tuple2dict, _cvg_dict2tuple'), ('symbolic balance', MF + ':get_data_symbols')],
     ['coverage dictionaries, symbolic free-site coverages'])

prop('C16', 'Initial and constrained coverages are physically meaningful',
     'Coverage constraining returns, for any input vector, one value per adsorbate in adsorbate order with every coverage between '
     'zero and the smaller of one and its site total and the sum over each site type at most that total. Values already satisfying this are returned '
     'unchanged, and proportional rescaling within a site type is the only change made to values within range.',
     ['inputs'], 'every coverage vector', 'A few vectors are tried on one mechanism.',
     [SS], [('constraint', SS + ':SteadyStateSolver.__constrain_coverages'), ('use', SS + ':get_steady_state_cvgs')],
     ['starting point and constrained Newton iterates'])

prop('C17', 'Net rates, reversibilities and turnover frequencies use their definitions',
     'The net rate of each reaction is forward minus reverse rate, its reversibility is reverse over forward rate, and the turnover '
     'frequency of each gas or liquid is the net production summed over all reactions (net rate times final minus initial '
     'coefficient). Results are per reaction or per species in model order; asking for one gas returns that gas\'s entry and an '
     'unknown gas or mismatching rate lists are rejected.',
     ['inputs'], 'every mechanism and rate vector', 'One mechanism is compared numerically.',
     [MF, PB], [('definitions', MF + ':get_net_rates, get_reversibilities, get_tof')], ['solver.get_net_rates', 'get_reversibilities', 'get_tof'])

prop('C18', 'A steady state is only reported when it really satisfies the tolerance',
     'The precise (Newton or MDNewton) steady-state solver returns and archives coverages as its result only when, for the '
     'energies in use, residual and error are within the model tolerance and no coverage is negative. An exhausted iteration limit, a '
     'negative root or a missing fallback never counts as convergence, and the reported error belongs to the returned coverages.',
     ['inputs', 'histories'], 'every solver history (iterations, restarts, failures)', 'Tests reach the immediate-success history of one mechanism.',
     [SS, RI], [('acceptance', SS + ':get_steady_state_cvgs, get_residual')], ['return value, archive, solver.coverages/error'])

prop('C19', 'Cached results never differ from recomputed ones',
     'A memoised solver query returns what recomputing it would return: a result is reused only for the same solver, the same '
     'arguments and the same model state it depends on, including the model energies when none are supplied. Solvers of different '
     'models never see each other\'s cached values.',
     ['histories', 'configurations'], 'every sequence of queries over any number of models', 'Tests build one model at a time and use each query once.',
     [DE, MF, SS], [('memoisation', DE + ':Memoized, HashableDict, HashableList, make_hashable')], ['solver.get_rate_constants', 'solver.poly_adsorbate_derivation'])

prop('C20', 'Caller-supplied energies are honoured by every derived quantity',
     'When relative energies are supplied to a solving or analysis call, every rate constant, rate, residual, Jacobian, coverage, '
     'turnover frequency and error computed on behalf of that call is evaluated with those energies and never silently with the '
     'model\'s own. When none are supplied, the model\'s energies are used. (Starting guesses proposed by the registered '
     'hybrid_method, which receives the model alone, are not covered.)',
     ['inputs', 'histories'], 'every call chain that accepts energies', 'Tests rarely supply energies that differ from the model\'s, so a dropped argument goes unseen.',
     [MM, SS, MF], [('parameter threading', MM + ':MicroKineticModel.run; ' + SS + '; ' + MF)], ['model.run(relative_energies=...)', 'solver methods taking relative_energies'])

prop('C21', 'Degree of rate control uses its definition and leaves the solution intact',
     'The degree of rate control of a step is (k/r)(dr/dk) where both barriers of that step alone are shifted by the perturbation, '
     'leaving its reaction energy and all other steps unchanged, and r is re-solved at steady state. The caller\'s energies and the '
     'model\'s energies are left unmodified, and one value per reaction is returned in reaction order.',
     ['inputs'], 'every mechanism, gas and perturbation', 'The only test of it fails on this platform.',
     [SS], [('definition', SS + ':SteadyStateSolver.get_single_XRC')], ['solver.get_single_XRC', 'model.run(XRC=True)'])

prop('C22', 'Model parameters are validated, fixed once set, and never invalid',
     'Every declared model parameter accepts only values of its declared type, entry type, shape and candidate set, rejects '
     'anything else with an error, and (components apart, which may be replaced by valid ones) cannot be reassigned once set; read-only quantities reject assignment. Setup data cannot '
     'bypass these checks, component names outside the supported set are rejected, and an unset parameter reads as its declared default.',
     ['inputs', 'configurations'], 'every setup dictionary', 'Tests set a few valid values.',
     [DE, CD, KM, MM, KMC, CU], [('descriptors', DE + ', ' + CD), ('loading', KM + ':KineticModel._load'), ('checks', CU)], ['model construction', 'attribute assignment'])

prop('C23', 'Models do not share mutable state through class-level defaults',
     'Nothing done to or through one model (registering an analysis, reading and modifying a default value, solving) changes what '
     'another model sees. Values that a model hands out as copies can be modified without changing the model.',
     ['histories', 'configurations'], 'every interleaving of operations on several models', 'Tests use one model per process step and never mutate defaults.',
     [DE, MM, KM], [('defaults', DE + ':AttrDescriptor.__get__'), ('registration', MM + ':analysis_register, hybrid_method_register')], ['model attributes after operations on another model'])

prop('C24', 'Computations do not modify the data they are given',
     'Evaluating rates, coverages, conservation, formatting, checks or coordinate operations leaves the objects passed in (energies, '
     'coverages, formulas, process definitions, coordinates) and the model\'s energies unchanged. Only the operations documented to '
     'change something do so: energy correction updates the energies it is given, registration updates its model, appending to a '
     'coordinate group changes that group.',
     ['inputs', 'histories'], 'every call and argument', 'Tests use fresh literals and never look at the arguments afterwards.',
     ['scaks/'], [('purity of argument use', 'whole package')], ['arguments after a call'])

prop('C25', 'Archived results are complete, selected, and found again by readers',
     'Exactly the result kinds selected for archiving are written, each under its documented name, to the data file of the own '
     'process, and every write leaves the file holding all results archived so far. A reader of the archive looks results up under the '
     'names and in the file that writers use, so archived coverages are found by the next run.',
     ['histories', 'configurations'], 'every sequence of archiving operations and later runs', 'No test reads an archive back.',
     [INI, MF, SS, MM], [('writer', INI + ':ModelShell.archive_data'), ('reader', MM + ':MicroKineticModel.run')], ['data.pkl'])

prop('C26', 'Parallel work partition covers every item exactly once',
     'For any sequence, any size and any number of processes, the parts given to the processes are contiguous pieces that together '
     'contain every element exactly once in order, sizes differ only as needed and add up to the whole. Merging gathers the parts in '
     'rank order on every process; without MPI the single process gets everything.',
     ['configurations', 'inputs', 'schedules'], 'every process count and sequence length', 'Tests run in one process.',
     [MP], [('partition', MP + ':MPIUtil.split_seq, split_size, merge_seq')], ['mpi.split_seq / split_size / merge_seq'])

prop('C27', 'Parallel set-up never races or deadlocks',
     'A directory that only the master process creates is guaranteed to exist before any process uses it, in every schedule of the '
     'processes. A collective operation is reached by all processes or by none, whatever their rank and whatever the file system '
     'looks like to each of them, and every process of a parallel run has log and archive files of its own.',
     ['schedules', 'configurations'], 'every interleaving of the processes', 'Tests run in one process.',
     [KM, MM, MP], [('logger set-up', KM + ':KineticModel._set_logger'), ('data directory', MM + ':MicroKineticModel.__init__')], ['./log, ./data, process progress'])

prop('C28', 'Shared simulation output files are written by the master process only',
     'In a parallel kinetic Monte Carlo run, the analysis output files that all processes name identically are created, appended to '
     'and truncated by the master process only. The statistics each process keeps never depend on its rank.',
     ['schedules', 'configurations'], 'every process count and schedule', 'KMCLib and MPI are absent from the tests.',
     [PL, MP], [('rank guards', PL + '*.py'), ('decorator', MP + ':master_only')], ['auto_*.py / auto_*.txt'])

prop('C29', 'Every analysis sample is written exactly once and reads back',
     'Each sample recorded by an analysis or by trajectory output appears exactly once and in order in its output file, however many '
     'buffer flushes happen, and a buffer is emptied exactly when it has been written. The file is valid, self-contained input of the '
     'language it is written in: every series it extends has been initialised, names are quoted exactly once, and chunks of '
     'different flushes do not collide.',
     ['histories', 'inputs'], 'every number of steps and buffer size', 'KMC plugins never run in the tests; formatting helpers are not tested.',
     [PL, SS, FU], [('buffers and flush', PL + '*.py:registerStep/__flush/finalize; ' + SS + ':solve_ode/__ode_flush'), ('formatting', FU)], ['auto_*.py files'])

prop('C30', 'KMC processes come in forward/reverse pairs with the right rates and labels',
     'For every process definition, site and coordinate set, the simulation gets a forward process with the definition\'s elements and '
     'the forward rate constant, followed by a reverse process with the elements exchanged and the reverse rate constant (omitted only '
     'for redistribution processes); both rates belong to the defined reaction, include gas pressures and the selected rate theory. '
     'The list of reaction labels of non-fast processes has one correctly directed entry per generated process in the same order.',
     ['inputs', 'configurations'], 'every process list', 'KMCLib is absent, so no test exercises it here.',
     [KS], [('process construction', KS + ':KMCSolver.get_processes, __get_single_process')], ['solver.processes', 'solver.process_mapping'])

prop('C31', 'Malformed KMC input is rejected before the simulation starts',
     'A process definition lacking a required entry, with wrongly typed or sized coordinates, elements or sites, with coinciding '
     'coordinates, with an unknown reaction or with elements outside the declared types is rejected with an error, and so are site '
     'lists of wrong length or unknown type, unknown empty types and malformed analysis intervals. Well-formed input is returned unchanged.',
     ['inputs'], 'every input file content', 'The checkers are exercised by no running test.',
     [CU, KP, KS], [('checkers', CU), ('gates', KP + ', ' + KS)], ['parser.parse_data', 'solver.processes'])

prop('C32', 'The two coverage collectors compute the same coverages',
     'The compiled and the interpreted coverage collectors implement one function: for each listed type, the sum over lattice points '
     'of that type of the ratio of its basis site (ratios repeating cyclically over the lattice points), divided by the number of unit '
     'cells. Unlisted types are ignored and one value per listed type is returned in listed order.',
     ['inputs'], 'every lattice, type list and ratio list', 'Neither collector is called by a running test; their agreement is over all inputs.',
     [CPP, PL + 'kmc_functions.py'], [('C++', CPP + ':collect_coverages'), ('Python', PL + 'kmc_functions.py:collect_coverages')], ['coverage analysis output'])

prop('C33', 'KMC statistics are normalised by time and site number',
     'Process occurrence counts increase by one for the process picked in each step, reaction counts are the sums over the processes '
     'of a reaction, and steady counts include exactly the steps from the configured start on. Reported rates and instantaneous '
     'turnover frequencies are counts divided by the elapsed time of the counting window and the number of sites, with a fresh window '
     'starting at zero where the last one ended; the empty-site coverage is one minus all others.',
     ['histories'], 'every simulation history', 'KMCLib is absent from the tests.',
     [PL], [('frequency', PL + 'frequency_analysis.py'), ('tof', PL + 'tof_analysis.py'), ('coverages', PL + 'coverages_analysis.py'), ('event', PL + 'event_analysis.py')], ['auto_frequency.py', 'auto_tofs.py', 'auto_coverages.py'])

prop('C34', 'KMC run control reaches the simulator unaltered',
     'Each configured run-control setting (time limit, steps, dump interval, seed, generator, analysis interval, start time, extra '
     'trajectories, redistribution settings) is handed to the simulator under its own name with the configured value; redistribution '
     'settings are passed exactly when redistribution is on. The simulation uses the parsed configuration and site map and one '
     'analysis object per selected analysis, and the lattice is built from the configured cell, basis, repetitions and periodicity.',
     ['configurations'], 'every configuration', 'KMCLib is absent from the tests.',
     [KS, KP, KMC], [('control parameters', KS + ':get_control_parameters, run'), ('lattice', KP + ':construct_lattice/construct_sitesmap/parse_configuration')], ['simulator inputs'])

prop('C35', 'On-the-fly analyses follow their life cycle',
     'For every Newton attempt, each registered analysis is set up before any of its steps, is given exactly the continued steps its '
     'interval selects with the current counters, and is finalised exactly once after it, also when the attempt fails. An analysis is never '
     'finalised for an attempt it was not set up for, and set-up and finalisation of one attempt carry the same attempt number.',
     ['histories'], 'every solver history', 'Tests register no analysis.',
     [SS, 'scaks/plugins/metaclasses.py', MM], [('call-backs', SS + ':get_steady_state_cvgs'), ('interface defaults', 'scaks/plugins/metaclasses.py:AnalysisMeta')], ['analysis call-backs'])

prop('C36', 'Errors that are detected are raised, not dropped',
     'Whenever the code detects an illegal argument or state and builds an error for it, that error reaches the caller as an exception; '
     'it is never returned as an ordinary value or discarded. Unknown algorithm, method, solver, handler or species names and '
     'arguments of the wrong kind are rejected instead of being used or ignored.',
     ['inputs'], 'every invalid argument', 'Tests provoke only a few of the errors.',
     ['scaks/'], [('error construction sites', 'whole package')], ['exceptions seen by callers'])

prop('C37', 'Thermodynamic corrections use the right data, formula and range',
     'The Shomate correction is H - T*S of the species at the given temperature, from the published polynomial with the parameter set '
     'of exactly that gas whose validity range contains the temperature (the low-temperature extrapolation only below a range starting '
     'under 300 K), relative to the same reference. The entropy correction is -kB*T*ln(qt*qr*qv) from the gas\'s own mass, pressure, '
     'symmetry number and characteristic temperatures; anything that is not a gas, or is not in the data base, is corrected by zero.',
     ['inputs'], 'every species and temperature', 'Tests compare single numbers for CO and a few others.',
     [TC, TD], [('Shomate', TC + ':shomate_correction'), ('partition functions', TC + ':entropy_correction'), ('tables', TD)], ['corrector.shomate_correction', 'corrector.entropy_correction'])

prop('C38', 'Correcting relative energies preserves thermodynamic consistency',
     'Correcting energies shifts each state of each reaction by the sum over its species of coefficient times the species correction and '
     'recomputes the reaction\'s barriers and reaction energy from the shifted states (a reaction without transition state taking the '
     'higher end state), so forward minus reverse barrier still equals the reaction energy. Every reaction is corrected exactly once '
     'with the chosen method, and the energies passed in are the ones updated and returned.',
     ['inputs'], 'every mechanism, energy set and method', 'One mechanism with unit coefficients is tested.',
     [TC], [('correction', TC + ':correct_relative_energies and helpers')], ['corrector.correct_relative_energies'])

prop('C39', 'Boltzmann coverages are normalised Boltzmann weights',
     'Boltzmann coverages are, in adsorbate order, exp(-E/(kB*T)) of each adsorbate divided by the sum of these weights over all '
     'adsorbates and, if requested, all empty sites. Without absolute energies the request is rejected.',
     ['inputs'], 'every energy set and temperature', 'One energy set is tested.',
     [MF], [('definition', MF + ':boltzmann_coverages')], ['solver.boltzmann_coverages'])

prop('C40', 'Coordinate groups merge and move without loss',
     'Moving a coordinate group shifts every coordinate by the vector and keeps elements and order; adding two groups keeps all '
     'coordinates of the first, appends exactly those of the second not within tolerance of one of the first, and fills an '
     'unspecified element from the second. Neither operation changes its operands, and coordinates and elements always have equal '
     'number; append rejects a coordinate or element of invalid form and then leaves the group as it was.',
     ['inputs'], 'every pair of groups', 'A few groups are tested; operand mutation is not.',
     [CO], [('operations', CO + ':CoordsGroup')], ['CoordsGroup operations'])

prop('C41', 'Every documented query can actually be evaluated',
     'No reachable operation of the package fails because it refers to a name, attribute, module member or method that nothing '
     'defines, or calls a package function with arguments it does not accept. Queries for quantities that are not available yet '
     'report that explicitly.',
     ['inputs', 'programs'], 'every operation of the package, including branches no test reaches', 'Branches needing liquids, KMC, collision theory, logging options or failures are not run by the tests.',
     ['scaks/'], [('definitions and uses', 'whole package')], ['any public call'])

prop('C42', 'Molecular masses are sums over the written composition',
     'The molecular mass of a species is the sum of the tabulated masses of all atoms of its formula, honouring element counts, '
     'leading multipliers and parenthesised groups, in atomic mass units, or in kilogram when absolute mass is asked for. An element that is '
     'not tabulated is rejected.',
     ['inputs'], 'every formula', 'A couple of formulas are tested.',
     [PB, 'scaks/functions.py', 'scaks/database/elements_data.py'], [('sum', PB + ':get_molecular_mass'), ('composition', 'scaks/functions.py:string2symbols')], ['parser.get_molecular_mass'])

prop('C43', 'Generated input templates cover the whole mechanism',
     'The generated relative-energy template has, in reaction order, exactly one barrier and one reaction-energy entry labelled with '
     'each elementary reaction, and the generated absolute-energy template has one entry for every gas, liquid, adsorbate, transition '
     'state and site of the model. They define the variables that the corresponding energy reader looks up.',
     ['inputs'], 'every mechanism', 'Only existence of a file is tested.',
     [KM, RE, AE], [('templates', KM + ':generate_relative_energies_file, generate_absolute_energies_file')], ['rel_energy.py, abs_energy.py'])

prop('C44', 'Coverage integration solves the model equations for the requested span',
     'Time integration starts from the supplied coverages at the supplied start time (Boltzmann coverages, or an empty surface when '
     'no energies allow them, if none are supplied), integrates the model\'s coverage time derivatives with the energies in use in the '
     'requested steps until the end time is reached, and returns the last time and coverages. The integration always ends, also when '
     'the integrator reports failure.',
     ['inputs', 'fault_sequences'], 'every start, span and integrator outcome', 'One short integration is tested.',
     [SS, 'scaks/plugins/hybrid_methods.py'], [('integration loop', SS + ':solve_ode')], ['solver.solve_ode'])

prop('C45', 'A model run ties its published results to one solution',
     'After a run, the model\'s published coverages, turnover frequencies, reversibilities and error are those of the steady state '
     'found by that run, computed with the energies of that run. User-supplied initial coverages are used if given (rejected when of '
     'wrong kind or length), otherwise archived ones, otherwise the model\'s fallback guess.',
     ['histories', 'inputs'], 'every combination of run options and archive content', 'Tests run with one combination.',
     [MM], [('orchestration', MM + ':MicroKineticModel.run')], ['model.run and the published results'])

prop('C46', 'Newton iterates follow the Newton direction, ending only at a stationary point',
     'Each iterate of a root finder is the previous iterate (the starting vector at first) plus a multiple of the solution of the linear '
     'system of Jacobian and function, both taken at the previous iterate, limited by the constraint if there is one. The multiple '
     'minimises the error along that direction (constrained finder), or starts at the full step and is cut by a fixed factor until the '
     'error is smaller than that of the previous iterate (damped finder). The iteration ends only when an iterate equals the previous one.',
     ['inputs', 'histories'], 'every function, Jacobian and starting vector',
     'Tests solve one mechanism, where a wrong direction, a stale Jacobian or an early end may still give the root.',
     [RI], [('iterates', RI + ':ConstrainedNewton.__iter__'), ('damping', RI + ':MDNewton.__iter__')], ['solver.get_steady_state_cvgs'])

prop('C47', 'Generated KMC scripts rebuild every simulated object',
     'The script of a lattice model, a configuration, interactions or a list of processes is the header, the import of the simulator and the '
     'definition of the object; in the script of processes every process has its own name and the final list names all of them once, in order. When a file '
     'name is given exactly the returned text is written to that file (with the prefix auto_), replacing what it held, and otherwise no file is touched.',
     ['inputs'], 'every object and every number of processes', 'Tests do not run the scripting, since the simulator is absent; a name that occurs twice shows only for some lists.',
     ['scaks/solvers/kmc_solver.py'], [('scripts', 'scaks/solvers/kmc_solver.py:KMCSolver.script_decorator'), ('processes', 'scaks/solvers/kmc_solver.py:KMCSolver.script_processes')],
     ['solver.script_processes and the other script_ functions, generated files'])

prop('C48', 'Energy profiles show each reaction with its own energies',
     'Plotting all energy profiles draws, for every elementary reaction, a canvas of its own with one line through 0, the forward barrier and the reaction '
     'energy of that reaction (without the barrier when it is zero to within 1e-5), labelled with its expression and with the options given, '
     'and saves it to a file that no other reaction of the mechanism is saved to.',
     ['inputs'], 'every mechanism and all energies', 'Tests draw nothing; mixed-up energies or shared canvases still give pictures.',
     ['scaks/plotters/energy_profile_plotter.py'], [('profiles', 'scaks/plotters/energy_profile_plotter.py:EnergyProfilePlotter.plot_all')], ['saved pictures'])

prop('C49', 'Numerical Jacobians are one-sided difference quotients',
     'Entry (i, j) of a numerical Jacobian is the change of component i of the function when only component j of the point is moved by '
     'h times its magnitude, at least by h, divided by that signed step. The point is moved to the side asked for; in the classified variant coverages are moved '
     'up and all other unknowns down, and the point given is left as it was.',
     ['inputs'], 'every function, point, step and representation', 'Tests compare one smooth function, for which a wrong side or a small extra shift is within the tolerance.',
     ['scaks/functions.py', 'scaks/solvers/mean_field_solver.py'], [('quotients', 'scaks/functions.py:numerical_jacobian'),
     ('classified quotients', 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.classified_numerical_jacobian')], ['numerical_jacobian'])

prop('C50', 'LaTeX output renders every species, state and equation completely',
     'The LaTeX text of a formula is its coefficient (unless one), every element of every dash-separated part with its count as subscript, and its site in '
     'parentheses; states join all formulas by plus signs and reactions all states by the arrows of the expression. Logged equations number each symbol from one, '
     'pair it with its own expression and are appended to formulas.tex as a whole.',
     ['inputs'], 'every formula, state, reaction and list of symbols', 'Tests render a few short formulas.',
     ['scaks/parsers/rxn_parser.py', 'scaks/solvers/mean_field_solver.py', 'scaks/__init__.py'],
     [('species', 'scaks/parsers/rxn_parser.py:ChemFormula.texen'), ('equations', 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.get_latex_strs')],
     ['texen of formulas, states and reactions, formulas.tex'])

prop('C51', 'Components and queries of a model belong to that model',
     'Every component holds the model it was made for, and parsers the species definitions of that model themselves; a component that is set is stored '
     'under the name its query reads, and objects of another kind are rejected. The lists of names a loaded model answers are those its parser returned, '
     'each under its own query, pressures and concentrations are those of the species definitions, and before any data are read no energies are claimed.',
     ['inputs', 'histories'], 'every model, component and set-up', 'Tests read some queries of a few models in which several of the lists are equal or empty.',
     ['scaks/models/kinetic_model.py', 'scaks/models/kmc_model.py', 'scaks/solvers/mean_field_solver.py', 'scaks/parsers/parser_base.py'],
     [('setting', 'scaks/models/kinetic_model.py:KineticModel.set_solver'), ('loading', 'scaks/models/kinetic_model.py:KineticModel._load'),
      ('data', 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.get_data')], ['queries of models, solvers and parsers'])

prop('C52', 'Log tables give every reaction, species or gas its own value',
     'The tables of rate constants, rates, reversibilities, turnover frequencies, coverages and degrees of rate control that are returned and written to the log have one row for every '
     'reaction (or gas, adsorbate, transition state), in the order of the mechanism, numbered from zero, holding the value calculated for it, with its sign and in full, forward before reverse; '
     'repeated values are repeated. The tables reported are those of the values that the query returns.',
     ['inputs'], 'every mechanism and every set of values', 'Tests compare no log, and queries of one mechanism only.',
     ['scaks/solvers/mean_field_solver.py', 'scaks/solvers/steady_state_solver.py'],
     [('rates', 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.__log_rates'), ('rate control', 'scaks/solvers/steady_state_solver.py:SteadyStateSolver.__log_XTRC'),
      ('frequencies', 'scaks/solvers/mean_field_solver.py:MeanFieldSolver.get_tof')], ['log output of a run'])

# Properties that this family cannot decide here (see DESIGN.md / MANIFEST not_applicable).
prop('N01', 'Newton iteration reaches the physically relevant steady state',
     'Starting from any admissible guess the iteration terminates at the physically relevant root of the coverage equations within the '
     'iteration limit.', ['inputs', 'histories'], 'every mechanism and starting point', 'Convergence depends on the numbers; tests see one mechanism.',
     [SS, RI], [('iterators', RI)], ['solver.get_steady_state_cvgs'])
prop('N02', 'Numerical results are accurate to the configured precision',
     'Rates, residuals and coverages are accurate to the configured number of decimal digits for every input.', ['inputs'], 'all inputs',
     'Rounding-error behaviour cannot be sampled exhaustively.', [MF, SS], [('mpmath precision', MF)], ['all numeric results'])
prop('N03', 'KMC trajectories are reproducible and statistically correct',
     'With a fixed seed the simulated trajectory is reproducible and its statistics converge to the master equation of the processes.',
     ['schedules', 'histories'], 'every seed and process list', 'KMCLib is not available.', [KS], [('KMCLib', KS)], ['trajectories'])
prop('N04', 'The overall reaction is the mechanism\'s net reaction',
     'The coefficients of the derived overall reaction are those of a combination of elementary steps that leaves all surface species unchanged.',
     ['inputs'], 'every mechanism', 'It rests on a floating-point null space and rounding.', [PB], [('null space', PB + ':get_total_rxn_equation')], ['parser.get_total_rxn_equation'])
prop('N05', 'Time-integrated coverages approximate the exact solution',
     'The coverages returned by time integration deviate from the exact solution of the coverage equations by no more than the integrator tolerance.',
     ['inputs'], 'every mechanism and span', 'Depends on SciPy numerics.', [SS], [('scipy.integrate.ode', SS)], ['solver.solve_ode'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
