"""Reference semantics for the result archive and for a model run."""


def archive_data(self, data_name, data):
    if data_name in self._owner.archived_variables:
        self._archived_data_dict[data_name] = data
        with open(self._owner.data_file, 'wb') as f:
            pickle.dump(self._archived_data_dict, f)


def data_file(self):
    return "data.pkl" if mpi.size == 1 else "./data/data_" + str(mpi.rank) + ".pkl"


def run(self, **kwargs):
    init_cvgs = kwargs.pop("init_cvgs", None)
    energies = kwargs.pop("relative_energies", None)
    low_precision = kwargs.pop("fsolve", False)
    coarse = kwargs.pop("coarse_guess", True)
    XRC = kwargs.pop("XRC", False)
    epsilon = kwargs.pop("epsilon", 1e-5)
    product = kwargs.pop("product_name", None)
    solver = self.solver
    if init_cvgs is not None:
        if not isinstance(init_cvgs, (tuple, list)):
            raise ParameterError("kind")
        if len(init_cvgs) != len(self.adsorbate_names):
            raise ParameterError("length")
        guess = init_cvgs
    elif os.path.exists(self.data_file):
        with open(self.data_file, 'rb') as f:
            data = pickle.load(f)
        if 'steady_state_coverages' in data:
            guess = data['steady_state_coverages']
            coarse = False
        else:
            guess = solver.solve_ode(relative_energies=energies)[-1]
    else:
        guess = self.hybrid_method(self, 0)
    if low_precision:
        theta = solver.fsolve_steady_state_cvgs(c0=guess, relative_energies=energies)
    elif coarse:
        start = solver.coarse_steady_state_cvgs(c0=guess, relative_energies=energies)
        theta = solver.get_steady_state_cvgs(c0=start, relative_energies=energies)
    else:
        theta = solver.get_steady_state_cvgs(c0=guess, relative_energies=energies)
    self.__ss_cvgs = theta
    solver.get_rate_constants(relative_energies=energies, log=True)
    rf, rr = solver.get_rates(cvgs_tuple=theta, relative_energies=energies, log=True)
    self.__tofs = solver.get_tof(cvgs=theta, relative_energies=energies)
    self.__reversibilities = solver.get_reversibilities(rf, rr)
    self.__error = solver.error
    if XRC:
        if product is None:
            raise ParameterError("product")
        solver.get_single_XRC(product, epsilon=epsilon, relative_energies=energies)


def fsolve_steady_state_cvgs(self, c0, relative_energies=None):
    theta = self.coarse_steady_state_cvgs(c0, relative_energies)
    self._coverages = tuple(theta)
    self._error = self.get_residual(tuple(theta), relative_energies)
    return theta


def get_residual(self, cvgs_tuple, relative_energies=None):
    return max([abs(d) for d in self.steady_state_function(cvgs_tuple, relative_energies)])


def steady_state_coverages(self):
    try:
        return self.__ss_cvgs
    except AttributeError:
        raise AttributeError("no steady state coverages")


def TOFs(self):
    try:
        return self.__tofs
    except AttributeError:
        raise AttributeError("no turnover frequencies")


def reversibilities(self):
    try:
        return self.__reversibilities
    except AttributeError:
        raise AttributeError("no reversibilities")


def error(self):
    try:
        return self.__error
    except AttributeError:
        raise AttributeError("no error")


def model_info(self):
    info = {}
    info['gas_names'] = self.gas_names
    info['adsorbate_names'] = self.adsorbate_names
    info['steady_state_coverages'] = [float(c) for c in self.steady_state_coverages]
    info['TOFs'] = [float(t) for t in self.TOFs]
    info['reversibilities'] = self.reversibilities
    info['rxn_expressions'] = self.rxn_expressions
    return info
