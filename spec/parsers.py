"""Reference semantics for the parsers (read by the lifter, never executed)."""


# C05 -----------------------------------------------------------------------
def stoichiometry_matrices(self):
    names_s = list(self._owner.site_names + self._owner.adsorbate_names)
    names_g = list(self._owner.gas_names + self._owner.liquid_names)
    rxns = self._owner.elementary_rxns_list
    S = np.matrix(np.zeros((len(rxns), len(names_s))))
    G = np.matrix(np.zeros((len(rxns), len(names_g))))
    for i, states in enumerate(rxns):
        for sign, state in ((1, states[0]), (-1, states[-1])):
            for f in state:
                if f.species_site() in names_s:
                    S[i, names_s.index(f.species_site())] += sign*f.stoichiometry()
                if f.species_site() in names_g:
                    G[i, names_g.index(f.species_site())] += sign*f.stoichiometry()
    return S, G


# C06 -----------------------------------------------------------------------
def relative_energies(self, data):
    Gaf = [dG if abs(Ga) < 1e-10 and dG > 0 else Ga for Ga, dG in zip(data["Ga"], data["dG"])]
    dG = [x for x in data["dG"]]
    return {"Gaf": Gaf, "dG": dG, "Gar": [a - b for a, b in zip(Gaf, dG)]}


# C07 -----------------------------------------------------------------------
def state_energy(self, state):
    E = self._owner.absolute_energies
    return sum(f.stoichiometry()*(E[f.species_site()] if "*" not in f.species_site() else E["*_" + f.site()])
               for f in state.tolist())


def single_relative_energies(self, rxn_expression):
    if not self._owner.has_absolute_energy:
        raise AttributeError("absolute energies needed")
    states = RxnEquation(rxn_expression).tolist()
    E = [self._get_state_energy(s) for s in (states[0], states[1], states[-1])]
    G_IS = self._get_state_energy(states[0])
    G_FS = self._get_state_energy(states[-1])
    if len(states) == 3:
        G_TS = self._get_state_energy(states[1])
    elif len(states) == 2:
        G_TS = max(G_IS, G_FS)
    else:
        G_TS = 0.0
    return G_TS - G_IS, G_TS - G_FS, G_FS - G_IS


def relative_from_absolute(self):
    return {"Gaf": [self._get_single_relative_energies(r)[0] for r in self._owner.rxn_expressions],
            "Gar": [self._get_single_relative_energies(r)[1] for r in self._owner.rxn_expressions],
            "dG": [self._get_single_relative_energies(r)[2] for r in self._owner.rxn_expressions]}


# C04 -----------------------------------------------------------------------
def parse_elementary_rxns(self, elementary_rxns):
    forms = [f for e in self._owner.rxn_expressions for st in RxnEquation(e).tolist() for f in st.tolist()]
    gas = sorted(set(f.species_site() for f in forms if f.site() == "g"))
    liq = sorted(set(f.species_site() for f in forms if f.site() == "l"))
    surf = [f for f in forms if f.site() != "g" and f.site() != "l"]
    ts = sorted(set(f.species_site() for f in surf if "-" in f.species()))
    ads = sorted(set(f.species_site() for f in surf if "-" not in f.species() and "*" not in f.species()))
    sites = sorted(set("*_" + f.site() for f in surf))
    rxns = [[st.tolist() for st in RxnEquation(e).tolist()] for e in self._owner.rxn_expressions]
    return (tuple(ads), tuple(gas), tuple(liq), tuple(sites), tuple(ts), rxns)


def parse_gate(self, elementary_rxns):
    for e in self._owner.rxn_expressions:
        RxnEquation(e).check_conservation()


# C06 -----------------------------------------------------------------------
def parse_relative(self, filename="./rel_energy.py", energy_data=None):
    if os.path.exists(filename):
        globs, energy_data = {}, {}
        exec(open(filename, "rb").read(), globs, energy_data)
    elif energy_data is None:
        raise IOError("not found")
    n = len(self._owner.rxn_expressions)
    if "Ga" in energy_data and len(energy_data["Ga"]) != n:
        raise ValueError("shape")
    if "dG" in energy_data and len(energy_data["dG"]) != n:
        raise ValueError("shape")
    Ga, dG = energy_data["Ga"], energy_data["dG"]
    Gaf = [dG[i] if abs(Ga[i]) < 1e-10 and dG[i] > 0 else Ga[i] for i in range(n)]
    self._owner._relative_energies = {"Gaf": Gaf,
                                      "dG": [dG[i] for i in range(n)],
                                      "Gar": [Gaf[i] - dG[i] for i in range(n)]}
    self._owner._has_relative_energy = True


def parse_absolute(self, filename="./abs_energy.py"):
    globs, locs = {}, {}
    exec(open(filename, "rb").read(), globs, locs)
    self._owner._absolute_energies = locs["absolute_energies"]
    self._owner._has_absolute_energy = True
    self._owner._relative_energies = self._get_relative_from_absolute()
    self._owner._has_relative_energy = True
