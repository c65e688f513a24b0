"""Reference semantics for generated scripts and pictures."""


# C47 -------------------------------------------------------------------------
def written(self, body, script_name):
    content = self.__script_header + 'from KMCLib import *\n\n' + body
    if script_name:
        with open('auto_' + script_name, 'w') as f:
            f.write(content)
    return content


def scripted(self, obj, script_name=None):
    return written(self, obj._script(), script_name)


def processes(self, obj, script_name=None):
    definitions = ''.join(p._script('process_%d' % i) for i, p in enumerate(obj))
    names = ''.join('    process_%d,\n' % i for i in range(len(obj)))
    return written(self, definitions + 'processes = [\n' + names + ']\n\n', script_name)


def ask_lattice_model(solver, obj, name):
    return solver.script_lattice_model(obj, script_name=name)


def ask_configuration(solver, obj, name):
    return solver.script_configuration(obj, script_name=name)


def ask_interactions(solver, obj, name):
    return solver.script_interactions(obj, script_name=name)


def ask_processes(solver, obj, name):
    return solver.script_processes(obj, script_name=name)


def expected(solver, obj, name):
    return scripted(solver, obj, name)


# C48 -------------------------------------------------------------------------
def plot_all(self, **kwargs):
    if not os.path.exists('energy_profile'):
        os.mkdir('energy_profile')
    o = self._owner
    for i in range(len(o.rxn_expressions)):
        rxn, Ga, dG = o.rxn_expressions[i], o.relative_energies['Gaf'][i], o.relative_energies['dG'][i]
        canvas = EPCanvas()
        if abs(Ga) < 1e-5:
            canvas.add_line(ElementaryLine([0.0, dG], rxn_equation=rxn, **kwargs))
        else:
            canvas.add_line(ElementaryLine([0.0, Ga, dG], rxn_equation=rxn, **kwargs))
        canvas.draw()
        canvas.figure.savefig('energy_profile/{}_{}.png'.format(i, rxn))


# C49 -------------------------------------------------------------------------
def gmpy_left(f, x, matrix, h):
    return numerical_jacobian(f, x, matrix, num_repr='gmpy', h=h, direction='left')


def ref_gmpy_left(f, x, matrix, h):
    f0 = matrix(f(x))
    J = matrix(len(f0), len(x))
    for j in range(len(x)):
        step = max(h, abs(h*x[j]))
        moved = copy.copy(x)
        moved[j] = x[j] - step
        quotient = tuple(((f0 - matrix(f(moved)))/step).reshape(1, -1).tolist()[0])
        for i in range(len(f0)):
            J[i, j] = quotient[i]
    return J


def gmpy_right(f, x, matrix, h):
    return numerical_jacobian(f, x, matrix, num_repr='gmpy', h=h, direction='right')


def ref_gmpy_right(f, x, matrix, h):
    f0 = matrix(f(x))
    J = matrix(len(f0), len(x))
    for j in range(len(x)):
        step = max(h, abs(h*x[j]))
        moved = copy.copy(x)
        moved[j] = x[j] + step
        quotient = tuple(((matrix(f(moved)) - f0)/step).reshape(1, -1).tolist()[0])
        for i in range(len(f0)):
            J[i, j] = quotient[i]
    return J


def mpmath_left(f, x, matrix, h):
    return numerical_jacobian(f, x, matrix, num_repr='mpmath', h=h, direction='left')


def ref_mpmath_left(f, x, matrix, h):
    f0 = matrix(f(x))
    J = matrix(len(f0), len(x))
    for j in range(len(x)):
        step = max(h, abs(h*x[j]))
        moved = copy.copy(x)
        moved[j] = x[j] - step
        quotient = ((f0 - matrix(f(moved)))/step)
        for i in range(len(f0)):
            J[i, j] = quotient[i]
    return J


def mpmath_right(f, x, matrix, h):
    return numerical_jacobian(f, x, matrix, num_repr='mpmath', h=h, direction='right')


def ref_mpmath_right(f, x, matrix, h):
    f0 = matrix(f(x))
    J = matrix(len(f0), len(x))
    for j in range(len(x)):
        step = max(h, abs(h*x[j]))
        moved = copy.copy(x)
        moved[j] = x[j] + step
        quotient = ((matrix(f(moved)) - f0)/step)
        for i in range(len(f0)):
            J[i, j] = quotient[i]
    return J


def classified_quotients(self, f, x, h=1e-10):
    x = self._matrix(self._matrix(x)).reshape(-1, 1)
    f0 = self._matrix(f(x))
    J = self._matrix(len(f0), len(x))
    for j in range(len(x)):
        step = max(h, abs(h*x[j]))
        moved = copy.copy(x)
        moved[j] = x[j] + step if j < len(self._owner.adsorbate_names) else x[j] - step
        change = self._matrix(f(moved)) - f0
        for i in range(len(f0)):
            J[i, j] = (change/step if j < len(self._owner.adsorbate_names) else change/(-step))[i]
    return J


# C50 -------------------------------------------------------------------------
def rxn_tex(self):
    s = [x.texen() for x in self.tolist()]
    if len(s) == 2:
        return s[0] + r' \rightarrow ' + s[1]
    if len(s) == 3:
        return s[0] + r' \leftrightarrow ' + s[1] + r' \rightarrow ' + s[2]


def state_tex(self):
    return ' + '.join([f.texen() for f in self.tolist()])


def sub_tex(self, part):
    return ''.join([element + ('_{' + n + '}' if n else '') for element, n in self.__sp_regex.findall(part)])


def formula_tex(self):
    number = str(self.__stoich) if self.__stoich != 1 else ''
    return number + '-'.join([sub_tex(self, part) for part in self.__species.split('-')]) + '(' + self.__site + ')'


def latex_strs(part1, part2, symbols):
    return tuple([part1 + str(i + 1) + part2 + ' = ' + sym.latex(symbols[i]) + '\\\\' + '\n' for i in range(len(symbols))])


def log_latex(self, latex_tup):
    text = ''.join(latex_tup) + '\n'
    self.write2file('formulas.tex', text)
    return text


def write2file(filename, line):
    with open(filename, 'a') as f:
        f.write(line)


# C51 -------------------------------------------------------------------------
def set_solver(self, it):
    if not isinstance(it, SolverBase):
        raise TypeError('wrong kind')
    setattr(self, mangled_name(self, 'solver'), it)


def set_corrector(self, it):
    if not isinstance(it, CorrectorBase):
        raise TypeError('wrong kind')
    setattr(self, mangled_name(self, 'corrector'), it)


def set_plotter(self, it):
    setattr(self, mangled_name(self, 'plotter'), it)


def kB(self):
    return kB_eV


def h(self):
    return h_eV


def unset(self):
    return False


def drv_names(model, setup):
    model._load(setup)
    return (model.adsorbate_names, model.gas_names, model.liquid_names, model.site_names, model.transition_state_names, model.elementary_rxns_list)


def the_names(model, setup):
    if "parser" not in setup:
        raise ParameterError('no parser')
    model.parser = setup["parser"]
    if not model.rxn_expressions:
        return (model.adsorbate_names, model.gas_names, model.liquid_names, model.site_names, model.transition_state_names, model.elementary_rxns_list)
    parts = model.parser.parse_elementary_rxns(model.rxn_expressions)
    return parts[0], parts[1], parts[2], parts[3], parts[4], parts[5]


def drv_steady(owner):
    it = SteadyStateSolver(owner)
    return it._owner, it.has_symbols, it.absolute_corrected, it.has_absolute_energy, it.absolute_energies


def the_steady(owner):
    return owner, False, False, owner.has_absolute_energy, owner.absolute_energies


def drv_kmc_solver(owner):
    it = KMCSolver(owner)
    return it._owner, it.process_mapping


def the_kmc_solver(owner):
    return owner, []


def drv_relative(owner, name, definition):
    it = RelativeEnergyParser(owner)
    it.species_definitions[name] = definition
    return it._owner, getattr(owner, mangled_name(owner, "species_definitions"))


def drv_absolute(owner, name, definition):
    it = AbsoluteEnergyParser(owner)
    it.species_definitions[name] = definition
    return it._owner, getattr(owner, mangled_name(owner, "species_definitions"))


def drv_kmc_parser(owner, name, definition):
    it = KMCParser(owner)
    it.species_definitions[name] = definition
    return it._owner, getattr(owner, mangled_name(owner, "species_definitions"))


def the_parser(owner, name, definition):
    definitions = getattr(owner, mangled_name(owner, "species_definitions"))
    definitions[name] = definition
    return owner, definitions


def drv_thermo(owner):
    return ThermodynamicCorrector(owner)._owner


def drv_profile(owner):
    return EnergyProfilePlotter(owner)._owner


def the_owner(owner):
    return owner


def drv_data(solver):
    solver.get_data()
    return solver.pressures, solver.concentrations


def the_data(solver):
    o = solver._owner
    return ({g: solver._mpf(o.species_definitions[g]['pressure']) for g in o.gas_names},
            {l: solver._mpf(o.species_definitions[l]['concentration']) for l in o.liquid_names})


def process_dicts(self):
    return self.__process_dicts


def configuration(self):
    return self.__configuration


def sitesmap(self):
    return self.__sitesmap
