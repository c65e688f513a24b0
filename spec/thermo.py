"""Reference semantics for thermodynamic corrections."""


def shomate_correction(self, gas_name, T=None):
    if ChemFormula(gas_name).type() != "gas":
        return 0.0
    T = self._owner.temperature if T is None else T
    T0 = 298.15

    def enthalpy(T, q):                 # kJ/mol
        A, B, C, D, E, F, G, H = q
        t = T/1000.0
        return A*t + B*t**2/2 + C*t**3/3 + D*t**4/4 - E/t + F - H

    def entropy(T, q):                  # J/(mol K)
        A, B, C, D, E, F, G, H = q
        t = T/1000.0
        return A*log(t) + B*t + C*t**2/2 + D*t**3/3 - E/(2*t**2) + G

    def heat(T, q):                     # J/(mol K)
        A, B, C, D, E, F, G, H = q
        t = T/1000.0
        return A + B*t + C*t**2 + D*t**3 + E/t**2

    for key in shomate_params:
        name, span = key.split(':')
        low, high = [float(x) for x in span.split('-')]
        if name == gas_name:
            q = shomate_params[key]
            if low <= T and T <= high:
                dH = (T0*heat(T0, q)/1000.0 + enthalpy(T, q) - enthalpy(T0, q))*0.01036427
                dS = entropy(T, q)*0.01036427/1000.0
                return dH - T*dS
            if T < low and low < 300:
                dH = T*heat(low, q)/1000.0*0.01036427
                dS = entropy(low, q)*0.01036427/1000.0
                return dH - T*dS
    return 0.0


def entropy_correction(self, gas_name, m=None, p=None, T=None):
    gas = ChemFormula(gas_name)
    if gas.type() != "gas":
        return 0.0
    key = gas.species_site()
    if key not in rotation_temperatures or key not in vibration_temperatures:
        return 0.0
    if m is None:
        m = self._owner.parser.get_molecular_mass(gas.species(), absolute=True)
    if p is None:
        p = P0*self._owner.species_definitions[key]['pressure']
    if T is None:
        T = self._owner.temperature
    try:
        volume = kB_J*T/p
    except ZeroDivisionError:
        raise ZeroDivisionError("no pressure")
    qt = volume*(2*pi*m*kB_J*T/h_J**2)**1.5
    sigma = rotation_temperatures[key]['sigma']
    theta = rotation_temperatures[key]['theta']
    if len(theta) == 1:
        x = theta[0]
        if x/T <= 0.01:
            qr = T/(sigma*x)
        else:
            qr = T/(sigma*x)*(1 + x/(3*T) + x**2/(15*T**2))
    else:
        product = 1.0
        for x in theta:
            product *= x
        qr = pi**0.5/sigma*(T**3/product)**0.5
    theta = vibration_temperatures[key]
    if len(theta) == 1:
        x = theta[0]
        qv = exp(-x/(2*T))/(1 - exp(-x/T))
    else:
        qv = 1.0
        for x in theta:
            qv *= 1/(1 - exp(-x/T))
    return -kB_eV*T*log(qt*qr*qv)


def correct_relative_energies(self, relative_energies, method="shomate"):
    if method == "shomate":
        f = self.shomate_correction
    elif method == "entropy":
        f = self.entropy_correction
    else:
        raise ValueError("unknown method")
    for i in range(len(self._owner.rxn_expressions)):
        self.__correct_single_relative_energies(relative_energies, i, f)
    return relative_energies


def correct_one(self, relative_energies, rxn_idx, correct_func):
    shifts = [sum([f.stoichiometry()*correct_func(f.species_site()) for f in state])
              for state in self._owner.elementary_rxns_list[rxn_idx]]
    Ga, Gr, dG = [relative_energies[k][rxn_idx] for k in ("Gaf", "Gar", "dG")]
    if len(shifts) == 2:
        E_IS, E_FS = shifts[0], dG + shifts[1]
        E_TS = max(E_IS, E_FS)
        relative_energies["Gaf"][rxn_idx] = E_TS - E_IS
        relative_energies["Gar"][rxn_idx] = E_TS - E_FS
        relative_energies["dG"][rxn_idx] = E_FS - E_IS
    elif len(shifts) == 3:
        relative_energies["Gaf"][rxn_idx] = Ga + shifts[1] - shifts[0]
        relative_energies["Gar"][rxn_idx] = Gr + shifts[1] - shifts[2]
        relative_energies["dG"][rxn_idx] = dG + shifts[2] - shifts[0]


def molecular_mass(species_name, absolute=False):
    total = 0.0
    for e in string2symbols(species_name):
        if e not in chem_elements:
            raise ElementSearchingError("unknown element")
        total += chem_elements[e]['mass']
    return amu*total if absolute else total


def relative_template(self, filename="rel_energy.py"):
    text = "# Relative Energies for all elementary reactions.\nGa, dG = [], []\n\n"
    for r in self.rxn_expressions:
        text += "# " + r + "\nGa.append()\ndG.append()\n\n"
    with open(filename, "w") as f:
        f.write(text)


def absolute_template(self, filename="abs_energy.py"):
    text = "# Absolute energies for all species.\nabsolute_energies = {\n\n"
    for names in (self.gas_names, self.liquid_names, self.adsorbate_names, self.transition_state_names, self.site_names):
        for s in names:
            text += "    '" + s + "': 0.0, # eV\n\n"
    text += "}\n\n"
    with open(filename, "w") as f:
        f.write(text)


def composition(s):
    def digits(i):
        j = i
        while j < len(s) and s[j].isdigit():
            j += 1
        return j
    if len(s) == 0:
        return []
    if s[0].isdigit():
        j = digits(1)
        return int(s[:j])*string2symbols(s[j:])
    if s[0] == '(':
        depth = 0
        close = len(s) - 1
        for i in range(len(s)):
            if s[i] == '(':
                depth += 1
            elif s[i] == ')':
                depth -= 1
                if depth == 0:
                    close = i
                    break
        j = digits(close + 1)
        times = int(s[close + 1:j]) if j > close + 1 else 1
        return times*string2symbols(s[1:close]) + string2symbols(s[j:])
    if not s[0].isupper():
        raise ValueError("not a formula")
    i = 2 if len(s) > 1 and s[1].islower() else 1
    j = digits(i)
    times = int(s[i:j]) if j > i else 1
    return times*[s[:i]] + string2symbols(s[j:])
