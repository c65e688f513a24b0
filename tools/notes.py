TECH = {}
NOTE = {}
NA = {
    'N01': 'convergence of Newton iteration is a fact about floating-point numerics and the basin of attraction of the start value; no sound static argument in reach bounds it',
    'N02': 'accuracy depends on run-time conditioning and on mpmath/gmpy/numpy numerics; nothing in the source bounds it',
    'N03': 'decided by the third-party simulator KMCLib, which is absent, and by statistics of random trajectories',
    'N04': 'the coefficients come from a rounded numeric null space computed by numpy at run time; the source does not determine them',
    'N05': 'decided by the adaptive integrator of SciPy at run time',
}

VFT = 'static value-flow summaries compared with reference definitions'
TECH.update({
    'C25': 'writer/reader agreement over value-flow summaries; who-may-write queries over the syntax tree',
    'C26': 'value-flow summaries compared with the reference partition',
    'C27': 'divergence (rank-dependence) analysis of collective call sequences over effect summaries',
    'C28': 'effect summaries: happens-before of directory creation and master guards of file writes',
    'C45': 'value-flow summaries with effect traces compared with reference definitions',
    'C37': VFT + '; constant propagation over the data tables',
    'C42': VFT + '; constant propagation over the mass table',
})

PATH = ('path analysis: forward analysis of all paths with recorded facts, loops closed over the states their iterations leave (unknown loop-carried '
        'values), exceptional edges from calls into handlers and finally blocks; the deciding rule is applied to every path')
PATHN = ('Follows every path of the anchored function, including every exception a called function may raise; helpers, nested functions and loop '
         'rewrites are followed. Arithmetic facts are compared syntactically after normalisation; a state in which an unresolved construct takes part '
         'gives UNDECIDED. ')
TECH.update({'C18': PATH, 'C35': PATH, 'C44': PATH})
NOTE.update({
    'C18': PATHN + 'Decides the acceptance logic of get_steady_state_cvgs (residual, error, sign, archive) and that each iterate of both root finders '
           'carries the error of its own function value; the norm and the residual function themselves are C11/C13.',
    'C35': PATHN + 'Assumes that finalize and the archive do not raise. Decides the trace language of each attempt.',
    'C44': PATHN + 'The integrator object is modelled as a state replaced by each step (time, values, verdict); accuracy of SciPy is N05.',
})

TECH.update({'C46': PATH})
NOTE.update({'C46': PATHN + 'The linear solver, norm, matrix type and scipy.optimize.golden are taken by name; that the iteration converges is N01. '
                    'The damped finder ends when rounding leaves the vector unchanged, which the analysis takes as the comparison it is.'})
TECH.update({'C40': VFT + ' (results, state left behind, state after a rejection); aliasing decided by drivers that change the result and read the operands'})
NOTE.update({'C40': 'Assumes that coordinates are lists of three numbers, as the groups that append and extend build; numpy arithmetic is elementwise over exact numbers.'})

TECH.update({'C36': VFT + ' (rejection conditions); path analysis of the choice of root finder; def-use of exception objects over the syntax tree'})
NOTE.update({'C36': 'Every function with a raise statement outside the bundled images2gif and the descriptors (C22) is compared with the reference conditions under which it rejects its arguments; constructed exceptions and handlers are checked in the whole package. The text of messages is not compared.'})

TECH.update({'C22': VFT + ' (each kind of parameter from declaration to use, state after a rejection, order of loading); constant evaluation of the declarations '
             'against the table of documented parameters; query for stores that go round the descriptors'})
NOTE.update({'C22': 'The table of documented parameters (types, entry types, candidates, documented defaults) is spec/parameters.py; declarations that are not made of constants are undecided.'})

TECH.update({
    'C19': VFT + ' (drivers that ask one query twice, with and without changes in between); effect query over the call graph for state a kept result depends on; '
           'query for hand-made caches and their keys',
    'C41': 'name resolution, flow-insensitive type inference and call binding over the whole package; forward analysis of unbound local names; '
           'value-flow summaries of the queries without result',
})
NOTE.update({
    'C19': 'Decides the memoizing descriptor for every sequence of two queries, what memoized queries read besides their arguments, and caches made by hand '
           '(a store looked up under a key before what it holds is computed). Assumes that parameters do not change once set (C22).',
    'C41': 'A read is reported when nothing in the class, its bases, subclasses or, for objects of unknown type, the package and its libraries (engine/external.json) '
           'defines the name; a call when no function it can reach takes its arguments; a local name when a path guarded by independent flags only, or every path, leaves it unbound.',
})

EFF = 'points-to and mutation analysis (flow-sensitive in a function, summaries at calls)'
TECH.update({
    'C23': VFT + ' (drivers that work on two models in turn); ' + EFF + ' of shared objects',
    'C24': EFF + ' of everything reached from the arguments of public functions, from the model and from values',
})
NOTE.update({
    'C23': 'Shared objects are module variables, class attributes, default arguments, class objects and attributes of libraries. Calls that are not resolved (libraries, callables given by the '
           'user) are assumed to change nothing that is shared. One known finding: mpmath precision is process-wide.',
    'C24': 'Objects are named by the parameter or attribute and a path of at most four attributes and elements; calls of libraries other than the listed in-place methods are assumed not to change '
           'their arguments. Updating the energies in correct_relative_energies, appending to a group of coordinates and the loading of data are the documented changes.',
})

TECH['C20'] = 'flow-sensitive interprocedural source analysis (supplied energies, the energies of the model, none) over the call graph, from parameters found by name, use and passing on'
NOTE['C20'] = ('Decides, for every function that takes energies, that they reach every function needing energies that is called, handed over or called from a nested function, that nothing evaluated with the '
               'energies of the model is used, that nothing kept from an earlier call is used instead, and that the energies of the model are reached when none are supplied. '
               'What the values are computed to from the energies is decided by C04-C08, C17, C18 and C21. Starting guesses of hybrid_method are exempt.')
TECH['C21'] = VFT + ', with the steps of solving left open; value-flow summary of what solving stores (attributes and archive found over the call graph) and what is put back'
NOTE['C21'] = ('Decides the quotient, the shift and the order for every mechanism, and that every attribute and archived datum stored by solving again is put back. '
               'Solving itself is C18, turnover frequencies are C17, the caller\'s energies are C24. A copy made entry by entry (instead of copy.deepcopy) gives UNDECIDED.')
TECH['C16'] = ('static value-flow summaries of the coverage constraint, with dictionary updates split by the classes of a partition, compared with a '
               'closed-form reference; data-flow of starting guesses into the root finders')
NOTE['C16'] = ('Decides __constrain_coverages against its definition in spec/mean_field.py (clipped to [0, min(1, total)], then scaled down where a class adds up to more '
               'than its total) for any number of sites and adsorbates, and that every start of a root finder comes from it. Assumes that every adsorbate belongs to '
               'exactly one kind of site (C15), that totals are not negative and that the names of a class differ. Other dictionary algorithms are UNDECIDED.')
TECH['C14'] = ('static value-flow summaries: the text of the derivative is built by the analysis for every class of product (regular expressions on the generic text folded) and compared, as a '
               'polynomial, with the product rule; assembly of the matrices compared with reference definitions')
NOTE['C14'] = ('Decides the derivative of products by class: with the adsorbate, with its free site, with both in either order, with neither; powers up to twelve (thorough: twenty); other factors, also of '
               'nearly the same names, before, between and after; terms first, after a minus and after a plus. One generic adsorbate and site stand for all. Decides that entry (i, j) of the numeric and of '
               'the symbolic matrix is the derivative of rate i by coverage j, at the supplied coverages and energies. That the coverage equations are right is C13; what one step adds to the symbolic '
               'rates is decided on five kinds of steps (one side once, with and without a transition state; absent; coefficients; both sides); SymPy is assumed to differentiate. Known findings: a species written twice in one state; coefficients ignored by the symbolic rates.')
TECH['C10'] = 'dimension inference over the source (flow-sensitive, through containers, nested functions and calls), with the eV and J forms and thousands kept apart; constant propagation over the data modules'
NOTE['C10'] = ('Decides that known dimensions agree wherever quantities meet, in every function of the package; dimensions are declared for the physical constants, model attributes, table entries, Shomate '
               'coefficients and the parameters and results of the thermodynamic and kinetic functions, and inferred for everything else. A number that has been given a name may stand for any quantity; what is not '
               'known never raises an alarm and is reported as undecided where it reaches a result. Dimensionless factors are decided by C04-C08, C37 and C39.')
TECH['C12'] = VFT + ', over an interpreted symbolic algebra: symbols named by an injective key, matrices, and substitution of the values get_subs_dict assigns'
NOTE['C12'] = ('The result of every *_by_sym function and the value assigned to every symbol are compared with the closed-form definitions the numeric counterparts (C04, C05, C07, C09, C17) are compared with, for any mechanism. '
               'SymPy itself is modelled: Symbol, Matrix, products, powers, exp and substitution. Assumes that species of a reaction are in the list of their kind. Substitutions kept in dictionaries updated under other keys than the symbols are UNDECIDED.')

TECH.update({'C32': VFT + '; the compiled collector is read from clang\'s syntax tree (JSON dump) into the same terms'})
NOTE.update({'C32': 'Both collectors, Python and compiled, are compared with one reference definition. Assumes that the listed types are distinct and that '
                    'the lattice points are cells times basis sites. Integer narrowing and single precision in the compiled collector count as differences.'})

TECH.update({k: VFT for k in ('C47', 'C48', 'C50', 'C52')})
TECH['C49'] = VFT + ' (element stores of the returned matrix)'
TECH['C51'] = VFT + '; drivers that construct components and query them'
NOTE.update({
    'C47': 'What _script of the simulator objects answers is a value of the absent library. The text of the header is not compared.',
    'C48': 'catplot is absent; its canvas and line are taken by name, with their calls as ordered effects.',
    'C49': 'Assumes that the function has as many values at every point, and elementwise arithmetic of the matrix type.',
    'C52': 'The values given have one entry for each reaction, gas or species; column widths are part of the reference.',
    'C50': 'The rendering of expressions by SymPy is taken as given.',
    'C51': 'The values stored under private names are followed by the names set_* and the queries agree on (mangled_name).',
})
