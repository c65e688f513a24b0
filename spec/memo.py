"""Reference semantics of memoised queries (C19)."""


def drv_same_solver(solver, energies, others, quiet, loud):
    """two queries of one solver; the query depends on its arguments and, without energies, on those of the model"""
    def rates(self, relative_energies=None, log=False):
        if not relative_energies:
            relative_energies = self._owner.relative_energies
        return constants_of(self, relative_energies, log)
    query = Memoized(rates)
    query.query(solver, relative_energies=energies, log=quiet)
    return query.query(solver, relative_energies=others, log=loud)


def same_solver(solver, energies, others, quiet, loud):
    if not others:
        others = solver._owner.relative_energies
    return constants_of(solver, others, loud)


def drv_model_energies(solver, energies, none, log):
    """the energies of the model change between two queries without energies"""
    def rates(self, relative_energies=None, log=False):
        if not relative_energies:
            relative_energies = self._owner.relative_energies
        return constants_of(self, relative_energies, log)
    query = Memoized(rates)
    query.query(solver, relative_energies=none, log=log)
    solver._owner.relative_energies = energies
    return query.query(solver, relative_energies=none, log=log)


def model_energies(solver, energies, none, log):
    return constants_of(solver, none or energies, log)


def drv_two_solvers(solver, another, energies):
    def rates(self, relative_energies=None, log=False):
        if not relative_energies:
            relative_energies = self._owner.relative_energies
        return constants_of(self, relative_energies, log)
    query = Memoized(rates)
    query.query(solver, relative_energies=energies)
    return query.query(another, relative_energies=energies)


def two_solvers(solver, another, energies):
    if not energies:
        energies = another._owner.relative_energies
    return constants_of(another, energies, False)


def drv_two_queries(solver, energies, name):
    def rates(self, relative_energies=None):
        return constants_of(self, relative_energies)

    def derivative(self, relative_energies=None):
        return derivative_of(self, relative_energies)
    first, second = Memoized(rates), Memoized(derivative)
    first.query(solver, relative_energies=energies)
    return second.query(solver, relative_energies=energies)


def two_queries(solver, energies, name):
    return derivative_of(solver, energies)


def drv_changed_result(solver, adsorbate, value):
    """what a caller does to a result is not seen by later queries"""
    def rates(self, name=None):
        return [barrier_of(self, name), reverse_barrier_of(self, name)]
    query = Memoized(rates)
    first = query.query(solver, name=adsorbate)
    first.append(value)
    return query.query(solver, name=adsorbate)


def changed_result(solver, adsorbate, value):
    return [barrier_of(solver, adsorbate), reverse_barrier_of(solver, adsorbate)]


def make_hashable(var):
    """the same content, in the same order"""
    if type(var) in (list, tuple):
        return HashableList(var)
    elif type(var) is dict:
        return HashableDict(var)
    return var
