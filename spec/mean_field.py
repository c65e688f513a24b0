"""Reference semantics for the mean-field kinetics (read by the lifter, never executed)."""
import math


# C15 -----------------------------------------------------------------------
def theta_of(self, cvgs_tuple):
    o = self._owner
    theta = dict(zip(o.adsorbate_names, cvgs_tuple))
    for s in o.site_names:
        bound = sum(cvgs_tuple[i] for i in range(len(o.adsorbate_names)) if "*_" + ChemFormula(o.adsorbate_names[i]).site() == s)
        theta[s] = o.species_definitions[s]["total"] - bound
    return theta


def tuple_of(self, cvgs_dict):
    return tuple(cvgs_dict[a] for a in self._owner.adsorbate_names)


def classify(self):
    o = self._owner
    return {s: [a for a in o.adsorbate_names if "*_" + ChemFormula(a).site() == s] for s in o.site_names}


# C11 -----------------------------------------------------------------------
def rates(self, cvgs_tuple, relative_energies=None, log=False):
    o = self._owner
    theta = theta_of(self, cvgs_tuple)
    p = {g: o.species_definitions[g]["pressure"] for g in o.gas_names}
    c = {l: o.species_definitions[l]["concentration"] for l in o.liquid_names}
    k = self.get_rate_constants(relative_energies)
    out = []
    for side in (0, -1):
        r = []
        for i in range(len(o.rxn_expressions)):
            x = k[0 if side == 0 else 1][i]
            for f in RxnEquation(o.rxn_expressions[i]).to_formula_list()[side]:
                name, n = f.species_site(), f.stoichiometry()
                if f.type() == "gas" and "*" not in f.species():
                    x *= p[name]**n
                elif f.type() == "liquid" and "*" not in f.species():
                    x *= c[name]**n
                else:
                    x *= theta[name]**n
            r.append(x)
        out.append(r)
    return tuple(out)


# C17 -----------------------------------------------------------------------
def net_rates(self, cvgs_tuple, relative_energies=None):
    rf, rr = self.get_rates(cvgs_tuple, relative_energies)
    return tuple(rf[i] - rr[i] for i in range(len(rf)))


def reversibilities(self, rfs, rrs):
    if len(rfs) != len(rrs):
        raise ValueError("length")
    return [b/a for a, b in zip(rfs, rrs)]


def tof(self, cvgs, relative_energies=None, gas_name=None):
    rates = self.get_net_rates(cvgs, relative_energies)
    _, m = self._owner.parser.get_stoichiometry_matrices()
    t = (np.matrix(rates)*(-m)).tolist()[0]
    if gas_name is None:
        return t
    if gas_name in self._owner.gas_names:
        return t[self._owner.gas_names.index(gas_name)]
    raise ParameterError("unknown gas")


# C13 -----------------------------------------------------------------------
def dtheta_dt(self, cvgs_tuple, relative_energies=None):
    o = self._owner
    rf, rr = rates(self, cvgs_tuple, relative_energies)
    out = []
    for a in o.adsorbate_names:
        total = 0
        for i in range(len(o.rxn_expressions)):
            net = 0
            states = RxnEquation(o.rxn_expressions[i]).to_formula_list()
            for f in states[-1]:
                if f.species_site() == a:
                    net += f.stoichiometry()
            for f in states[0]:
                if f.species_site() == a:
                    net -= f.stoichiometry()
            total += net*(rf[i] - rr[i])
        out.append(total)
    return tuple(out)


# C39 -----------------------------------------------------------------------
def boltzmann(self, include_empty_site=True):
    o = self._owner
    if not o.has_absolute_energy:
        raise IOError("no absolute energies")
    w = lambda x: math.exp(-o.absolute_energies[x]/(o.kB*o.temperature))
    z = sum(w(a) for a in o.adsorbate_names)
    if include_empty_site:
        z += sum(w(s) for s in o.site_names)
    return tuple(w(a)/z for a in o.adsorbate_names)


# C21 -----------------------------------------------------------------------
def xrc(self, gas_name, epsilon=None, relative_energies=None):
    o = self._owner
    G = o.relative_energies if relative_energies is None else relative_energies
    if not hasattr(self, "_coverages"):
        raise AttributeError("coverages")
    c0 = self._coverages
    r = self.get_tof(c0, G, gas_name)
    k = self.get_rate_constants(G)[0]
    e = self._mpf(o.perturbation_size) if epsilon is None else epsilon
    out = []
    for i in range(len(o.rxn_expressions)):
        H = copy.deepcopy(G)
        H["Gaf"][i] += e
        H["Gar"][i] += e
        dk = self.get_rate_constants(H)[0][i] - k[i]
        dr = self.get_tof(self.get_steady_state_cvgs(c0, relative_energies=H), H, gas_name) - r
        try:
            x = k[i]/r*(dr/dk)
        except ZeroDivisionError:
            x = 'inf'
        out.append(x)
    return out


# archiving, without the file and for every name
def archives(self, data_name, data):
    self._archived_data_dict[data_name] = data


# C16 -----------------------------------------------------------------------
def constrained(self, cvgs_tuple):
    o = self._owner
    out = {}
    for site in o.site_names:
        total = o.species_definitions[site]["total"]
        inside = {}
        for i in range(len(self._classified_adsorbates[site])):
            name = self._classified_adsorbates[site][i]
            inside[name] = max(0.0, min(cvgs_tuple[o.adsorbate_names.index(name)], min(1.0, total)))
        s = 0.0
        for name in self._classified_adsorbates[site]:
            s += inside[name]
        for name in self._classified_adsorbates[site]:
            out[name] = inside[name]*total/s if s > total else inside[name]
    return tuple([out[name] for name in o.adsorbate_names])


# C12 -----------------------------------------------------------------------
def rate_constants_by_sym(self):
    o = self._owner
    f, r = [], []
    for i in range(len(o.rxn_expressions)):
        a = o.relative_energies["Gaf"][i]
        f.append(o.kB*o.temperature/o.h*math.exp(-a/(o.kB*o.temperature)))
        r.append(o.kB*o.temperature/o.h*math.exp(-(a - o.relative_energies["dG"][i])/(o.kB*o.temperature)))
    return f, r


def rates_by_sym(self, cvgs_tuple):
    o = self._owner
    names = o.adsorbate_names
    k = rate_constants_by_sym(self)
    out = []
    for side in (0, -1):
        r = []
        for i in range(len(o.rxn_expressions)):
            x = k[0 if side == 0 else 1][i]
            for f in RxnEquation(o.rxn_expressions[i]).to_formula_list()[side]:
                name, n = f.species_site(), f.stoichiometry()
                if f.type() == "gas":
                    x *= o.species_definitions[name]["pressure"]**n
                elif f.type() == "liquid":
                    x *= o.species_definitions[name]["concentration"]**n
                elif f.type() == "site":
                    x *= (o.species_definitions[name]["total"] - sum(cvgs_tuple[j] for j in range(len(names)) if "*_" + ChemFormula(names[j]).site() == name))**n
                else:
                    x *= cvgs_tuple[names.index(name)]**n
            r.append(x)
        out.append(r)
    return tuple(out)


def net_rates_by_sym(self, cvgs_tuple):
    rf, rr = rates_by_sym(self, cvgs_tuple)
    return tuple(rf[i] - rr[i] for i in range(len(rf)))


def tof_by_sym(self, cvgs_tuple):
    net = net_rates_by_sym(self, cvgs_tuple)
    m = self._owner.parser.get_stoichiometry_matrices()[1]
    return tuple(sum(net[i]*-m[i][j] for i in range(len(net))) for j in range(len(self._owner.gas_names)))


def rate_constant_syms(self):
    kB, h, T = self._kB_sym, self._h_sym, self._T_sym
    f, r = [], []
    for i in range(len(self._owner.rxn_expressions)):
        f.append(kB*T/h*math.exp(-self._Ga_sym[i]/(kB*T)))
        r.append(kB*T/h*math.exp(-(self._Ga_sym[i] - self._dG_sym[i])/(kB*T)))
    return f, r


def equilibrium_constant_syms(self):
    return tuple(math.exp(-self._dG_sym[i]/(self._kB_sym*self._T_sym)) for i in range(len(self._owner.rxn_expressions)))


def elementary_rate_sym(self, rxn_expression):
    o = self._owner
    i = o.rxn_expressions.index(rxn_expression)
    k = rate_constant_syms(self)
    names = o.adsorbate_names
    out = []
    for side in (0, -1):
        x = k[0 if side == 0 else 1][i]
        for f in RxnEquation(rxn_expression).to_formula_list()[side]:
            name, n = f.species_site(), f.stoichiometry()
            if f.type() == "gas":
                x *= self._p_sym[o.gas_names.index(name)]**n
            elif f.type() == "liquid":
                x *= self._c_sym[o.liquid_names.index(name)]**n
            elif f.type() == "site":
                x *= (o.species_definitions[name]["total"] - sum(self._ads_theta_sym[j] for j in range(len(names)) if "*_" + ChemFormula(names[j]).site() == name))**n
            else:
                x *= self._ads_theta_sym[names.index(name)]**n
        out.append(x)
    return tuple(out)


def rate_syms(self, log_latex=False):
    f, r = [], []
    for x in self._owner.rxn_expressions:
        e = elementary_rate_sym(self, x)
        f.append(e[0])
        r.append(e[1])
    return f, r


def net_rate_syms(self):
    f, r = rate_syms(self)
    return tuple(f[i] - r[i] for i in range(len(f)))


def tof_syms(self):
    net = net_rate_syms(self)
    m = self._owner.parser.get_stoichiometry_matrices()[1]
    return tuple(sum(net[i]*-m[i][j] for i in range(len(net))) for j in range(len(self._owner.gas_names)))


def drv_assigned(self, cvgs):
    d = self.get_subs_dict(coverages=cvgs)
    return [[d[x] for x in s] for s in (self._Ga_sym, self._dG_sym, self._p_sym, self._c_sym, self._ads_theta_sym)] + [d[self._kB_sym], d[self._h_sym], d[self._T_sym]]


def assigned(self, cvgs):
    o = self._owner
    return [[o.relative_energies["Gaf"][i] for i in range(len(o.rxn_expressions))], [o.relative_energies["dG"][i] for i in range(len(o.rxn_expressions))],
            [o.species_definitions[g]["pressure"] for g in o.gas_names], [o.species_definitions[l]["concentration"] for l in o.liquid_names],
            [cvgs[i] for i in range(len(o.adsorbate_names))]] + [o.kB, o.h, o.temperature]


def drv_assigned_without(self):
    d = self.get_subs_dict()
    return [[d[x] for x in s] for s in (self._Ga_sym, self._dG_sym, self._p_sym, self._c_sym)] + [d[self._kB_sym], d[self._h_sym], d[self._T_sym]]


def assigned_without(self):
    o = self._owner
    return [[o.relative_energies["Gaf"][i] for i in range(len(o.rxn_expressions))], [o.relative_energies["dG"][i] for i in range(len(o.rxn_expressions))],
            [o.species_definitions[g]["pressure"] for g in o.gas_names], [o.species_definitions[l]["concentration"] for l in o.liquid_names]] + [o.kB, o.h, o.temperature]


# C14 -----------------------------------------------------------------------
def drv_derivative(self, name, expression, theta, kf, kr, p, c):
    derivation = self.poly_adsorbate_derivation(adsorbate_name=name, poly_expression=expression)
    return eval(derivation)


def derivative(self, name, expression, theta, kf, kr, p, c):
    return eval(expression)


def jacobian(self, cvgs_tuple, relative_energies=None):
    expressions = self.get_dtheta_dt_expressions()
    n = len(cvgs_tuple)
    if len(expressions) != n:
        raise ParameterError("number of coverages")
    theta = self._cvg_tuple2dict(cvgs_tuple)
    kf, kr = self.get_rate_constants(relative_energies=relative_energies)
    p = self._p
    c = self._c
    J = self._matrix(n, n)
    names = self._owner.adsorbate_names
    for i in range(n):
        for j in range(n):
            J[i, j] = eval(self.poly_adsorbate_derivation(adsorbate_name=names[j], poly_expression=expressions[i]))
    return J


def expressions_by_name(self):
    return [self.get_adsorbate_dtheta_dt_expression(a) for a in self._owner.adsorbate_names]


def elementary_dtheta_dt_sym(self, adsorbate_name, rxn_expression):
    o = self._owner
    if adsorbate_name not in o.adsorbate_names or rxn_expression not in o.rxn_expressions:
        raise ParameterError("not of this model")
    states = RxnEquation(rxn_expression).to_formula_list()
    rf, rr = self.get_elementary_rate_sym(rxn_expression)
    if any(f.species_site() == adsorbate_name for f in states[0]):
        return rr - rf
    if any(f.species_site() == adsorbate_name for s in states for f in s):
        return rf - rr
    return None


def adsorbate_dtheta_dt_sym(self, adsorbate_name):
    total = 0
    for r in self._owner.rxn_expressions:
        one = self.get_elementary_dtheta_dt_sym(adsorbate_name, r)
        if one is not None:
            total += one
    return total


def dtheta_dt_syms(self, log_latex=False):
    return tuple(self.get_adsorbate_dtheta_dt_sym(a) for a in self._owner.adsorbate_names)


def jacobian_sym(self):
    rates = self.get_dtheta_dt_syms()
    names = self._owner.adsorbate_names
    n = len(rates)
    return [[sym.Derivative(rates[i], self._extract_symbol(names[j], 'ads_cvg')).doit() for j in range(n)] for i in range(n)]


def jacobian_by_sym(self, cvgs_tuple):
    S = self.get_subs_dict(coverages=cvgs_tuple)
    J = self.analytical_jacobian_sym()
    n = len(J)
    return self._matrix([[self._mpf(J[i][j].evalf(subs=S)) for j in range(n)] for i in range(n)])


def steady_state_by_sym(self, cvgs_tuple):
    rates = self.get_dtheta_dt_syms()
    S = self.get_subs_dict(coverages=cvgs_tuple)
    return tuple(self._mpf(r.evalf(subs=S)) for r in rates)
