PB = 'scaks/parsers/parser_base.py'
RE = 'scaks/parsers/relative_energy_parser.py'
AB = 'scaks/parsers/absolute_energy_parser.py'
SB = 'scaks/solvers/solver_base.py'
MF = 'scaks/solvers/mean_field_solver.py'
CHAIN = """                    # Gas.
                    if "g" in site_dict:
                        gas_names.append(species_site)
                    # Liquid.
                    elif "l" in site_dict:
                        liquid_names.append(species_site)
                    # Transition state.
                    elif "-" in formula.species():
                        transition_state_names.append(species_site)
                    # If not empty site, then adsorbate.
                    elif "*" not in formula.species():
                        adsorbate_names.append(species_site)

                    # Site names.
                    site_names.extend(["*_{}".format(s)
                                       for s in site_dict if s not in ("g", "l")])
"""
TAIL = """        # Merge duplicates in lists
        adsorbate_names = tuple(sorted(list(set(adsorbate_names))))
        gas_names = tuple(sorted(list(set(gas_names))))
        liquid_names = tuple(sorted(list(set(liquid_names))))
        site_names = tuple(sorted(list(set(site_names))))
        transition_state_names = tuple(sorted(list(set(transition_state_names))))

        # Return.
        return (adsorbate_names,
                gas_names,
                liquid_names,
                site_names,
                transition_state_names,
                elementary_rxns_list)
"""
REL = """        Gafs, dGs = [], []
        for Gaf, dG in zip(data_dict["Ga"], data_dict["dG"]):
            # -------------------------------------------------------
            # NOTE: if the reaction has no barrier and is endothermic,
            #       the forward barrier should be positive and
            #       reaction heat should be the same with forward
            #       barrier.
            # -------------------------------------------------------
            if abs(Gaf - 0.0) < 1e-10 and dG > 0.0:
                Gaf = dG
            Gafs.append(Gaf)
            dGs.append(dG)

        relative_energies = dict(Gaf=Gafs, dG=dGs)

        # Get reverse barriers.
        Gars = [Ga - dG for Ga, dG in zip(Gafs, dGs)]
        relative_energies.setdefault("Gar", Gars)

        return relative_energies
"""
SE = """        abs_energies = self._owner.absolute_energies
        energy = 0.0

        for formula in formula_list:
            n = formula.stoichiometry()
            species_site = formula.species_site()
            site = formula.site()

            # Adsorbate.
            if "*" not in species_site:
                energy += n*abs_energies[species_site]
            # Site.
            else:
                energy += n*abs_energies["*_" + site]

        return energy
"""
SR = """        # Get free energy for states
        G_IS, G_TS, G_FS = 0.0, 0.0, 0.0

        # State list.
        states = rxn_equation.tolist()

        # IS energy.
        G_IS = self._get_state_energy(states[0])

        # FS energy.
        G_FS = self._get_state_energy(states[-1])

        # TS energy.
        if len(states) == 2:
            G_TS = max(G_IS, G_FS)

        if len(states) == 3:
            G_TS = self._get_state_energy(states[1])

        # Get relative energies.
        f_barrier = G_TS - G_IS
        r_barrier = G_TS - G_FS
        reaction_energy = G_FS - G_IS

        return f_barrier, r_barrier, reaction_energy
"""
RA = """        Gafs, Gars, dGs = [], [], []

        for rxn_expression in self._owner.rxn_expressions:
            Gaf, Gar, dG = self._get_single_relative_energies(rxn_expression)
            Gafs.append(Gaf)
            Gars.append(Gar)
            dGs.append(dG)

        relative_energies = dict(Gar=Gars, Gaf=Gafs, dG=dGs)

        return relative_energies
"""
TST = """        if self.__class__.__name__ == "SteadyStateSolver":
            # Convert float numbers to mpfloat.
            kB_eV_mp = self._mpf(kB_eV)
            T_mp = self._mpf(T)
            h_eV_mp = self._mpf(h_eV)
            Ga_mp = self._mpf(Ga)
            kTST = kB_eV_mp*T_mp/h_eV_mp*self._math.exp(-Ga_mp/(kB_eV_mp*T_mp))
        else:
            kTST = kB_eV*T/h_eV*exp(-Ga/(kB_eV*T))

        return kTST
"""
PRES = """            rxn_equation = RxnEquation(rxn_expression)
            f = lambda gas: (self._owner.species_definitions[gas.species_site()]["pressure"] **
                             gas.stoichiometry())

            # Forward rate.
            adsorption_gases = rxn_equation.adsorption_gases()
            pressures = [f(gas) for gas in adsorption_gases]
            p = reduce(mul, pressures) if pressures else 1.0
            rf = p*rf

            # Reverse rate.
            desorption_gases = rxn_equation.desorption_gases()
            pressures = [f(gas) for gas in desorption_gases]
            p = reduce(mul, pressures) if pressures else 1.0
            rr = p*rr
"""
KCT = """        # Sticking coefficient.
        S = f*act_ratio*exp(-Ea/(kB_eV*T))

        # Rate constant.
        kCT = S*(p*Auc)/(sqrt(2*pi*m*kB_J*T))

        return kCT
"""
T2D = """        cvgs_dict = {}
        adsorbate_names = self._owner.adsorbate_names
        for adsorbate_name in adsorbate_names:
            idx = adsorbate_names.index(adsorbate_name)
            cvgs_dict.setdefault(adsorbate_name, cvgs_tuple[idx])

        # Add free site coverages
        species_definitions = self._owner.species_definitions
        for site_name in self._owner.site_names:
            total_cvg = species_definitions[site_name]['total']
            sum_cvg = 0.0
            for sp in self._classified_adsorbates[site_name]:
                sum_cvg += cvgs_dict[sp]
            free_site_cvg = total_cvg - sum_cvg
            cvgs_dict.setdefault(site_name, free_site_cvg)

        return cvgs_dict
"""
D2T = """        cvgs_list = []
        for adsorbate_name in self._owner.adsorbate_names:
            cvgs_list.append(cvgs_dict[adsorbate_name])
        return tuple(cvgs_list)
"""
CLS = """        classified_adsorbates = {}
        for site_name in self._owner.site_names:
            classified_adsorbates.setdefault(site_name, [])

        for adsorbate_name in self._owner.adsorbate_names:
            formula = ChemFormula(adsorbate_name)
            site_name = "*_{}".format(formula.site())
            classified_adsorbates[site_name].append(adsorbate_name)

        return classified_adsorbates
"""
BOLTZ = """        if include_empty_site:
            boltz_sum = sum([mp.exp(-self._owner.absolute_energies[adsorbate]/(kB*T))
                             for adsorbate in cvg_types])
        else:
            boltz_sum = sum([self._math.exp(-self._owner.absolute_energies[adsorbate]/(kB*T))
                             for adsorbate in self._owner.adsorbate_names])

        # Get coverages list
        cvgs = []
        for adsorbate in self._owner.adsorbate_names:
            cvg = self._math.exp(-self._owner.absolute_energies[adsorbate]/(kB*T))/boltz_sum
            cvgs.append(cvg)

        return tuple(cvgs)
"""
TOF = """        _, reapro_matrix = self._owner.parser.get_stoichiometry_matrices()
        reapro_matrix *= -1
        rate_vector = np.matrix(net_rates)  # get rate vector
        tof_list = (rate_vector*reapro_matrix).tolist()[0]
"""
STR = """                stoichiometry = formula.stoichiometry()
                species_name = formula.species_site()
                #get type of species
                if '*' in species_name:
                    if stoichiometry == 1:
                        sp_expr = "*theta['" + species_name + "']"
                    else:
                        sp_expr = "*theta['" + species_name + "']**" + str(stoichiometry)
                else:
                    sp_type = formula.type()
                    if sp_type == 'adsorbate':
                        if stoichiometry == 1:
                            sp_expr = "*theta['" + species_name + "']"
                        else:
                            sp_expr = "*theta['" + species_name + "']**" + str(stoichiometry)
                    elif sp_type == 'gas':
                        if stoichiometry == 1:
                            sp_expr = "*p['" + species_name + "']"
                        else:
                            sp_expr = "*p['" + species_name + "']**" + str(stoichiometry)
                    elif sp_type == 'liquid':
                        if stoichiometry == 1:
                            sp_expr = "*c['" + species_name + "']"
                        else:
                            sp_expr = "*c['" + species_name + "']**" + str(stoichiometry)
                rate_str += sp_expr
            return rate_str
"""
EDITS = [
    ('C04', 'keep', 'type based', [(PB, CHAIN, """                    kind = formula.type()
                    if kind == "gas":
                        gas_names.append(species_site)
                    elif kind == "liquid":
                        liquid_names.append(species_site)
                    elif "-" in formula.species():
                        transition_state_names.append(species_site)
                    elif "*" not in formula.species():
                        adsorbate_names.append(species_site)

                    site = formula.site()
                    if site != "g" and site != "l":
                        site_names.append("*_" + site)
""")]),
    ('C04', 'keep', 'sorted set', [(PB, TAIL, """        unique = [tuple(sorted(set(names))) for names in
                  (adsorbate_names, gas_names, liquid_names, site_names, transition_state_names)]
        return tuple(unique) + (elementary_rxns_list,)
""")]),
    ('C04', 'keep', 'merge helper parse', [(PB, TAIL, """        def merge(names):
            return tuple(sorted(set(names)))

        return (merge(adsorbate_names), merge(gas_names), merge(liquid_names),
                merge(site_names), merge(transition_state_names), elementary_rxns_list)
""")]),
    ('C04', 'keep', 'sets from the start', [(PB, """        adsorbate_names = []
        gas_names = []
        liquid_names = []
        site_names = []
        transition_state_names = []
""", """        adsorbate_names, gas_names, liquid_names = set(), set(), set()
        site_names, transition_state_names = set(), set()
"""), (PB, CHAIN, CHAIN.replace('.append(', '.add(').replace('site_names.extend(', 'site_names.update('))]),
    ('C04', 'keep', 'formula lists first', [(PB, """            rxn_list = []
            state_list = equation.tolist()

            # For each state object.
            for state in state_list:
                rxn_list.append(state.tolist())

                # for each formula object.
                for formula in state.tolist():
""", """            rxn_list = [state.tolist() for state in equation.tolist()]
            for formulas in rxn_list:
                for formula in formulas:
""")]),
    ('C04', 'keep', 'classify helper', [(PB, CHAIN, """                    sites = [s for s in site_dict if s not in ("g", "l")]
                    self._sort_in(formula, species_site, site_dict, gas_names, liquid_names,
                                  transition_state_names, adsorbate_names)
                    for s in sites:
                        site_names.append("*_%s" % s)
"""), (PB, "    def get_stoichiometry_matrices(self):", """    @staticmethod
    def _sort_in(formula, name, sites, gases, liquids, ts, adsorbates):
        if "g" in sites:
            gases.append(name)
            return
        if "l" in sites:
            liquids.append(name)
            return
        if "-" in formula.species():
            ts.append(name)
            return
        if "*" not in formula.species():
            adsorbates.append(name)

    def get_stoichiometry_matrices(self):""")]),
    ('C04', 'break', 'unsorted gases', [(PB, "tuple(sorted(list(set(gas_names))))", "tuple(set(gas_names))")]),
    ('C04', 'break', 'ts as adsorbate too', [(PB, '                    elif "*" not in formula.species():', '                    if "*" not in formula.species():')]),
    ('C04', 'break', 'middle state skipped', [(PB, "for state in state_list:\n                rxn_list", "for state in (state_list[0], state_list[-1]):\n                rxn_list")]),
    ('C04', 'break', 'adsorbates in written order', [(PB, "tuple(sorted(list(set(adsorbate_names))))", "tuple(sorted(set(adsorbate_names), key=adsorbate_names.index))")]),
    ('C04', 'break', 'site of gas', [(PB, 'if s not in ("g", "l")', 'if s != "g"')]),
    ('C06', 'keep', 'comprehension', [(RE, REL, """        dGs = list(data_dict["dG"])
        Gafs = [dG if abs(Ga) < 1e-10 and dG > 0.0 else Ga
                for Ga, dG in zip(data_dict["Ga"], dGs)]
        Gars = [Ga - dG for Ga, dG in zip(Gafs, dGs)]
        return {"Gaf": Gafs, "Gar": Gars, "dG": dGs}
""")]),
    ('C06', 'keep', 'one loop', [(RE, REL, """        relative_energies = {"Gaf": [], "Gar": [], "dG": []}
        for i in range(len(data_dict["Ga"])):
            Gaf, dG = data_dict["Ga"][i], data_dict["dG"][i]
            barrierless = -1e-10 < Gaf < 1e-10
            if barrierless and dG > 0:
                Gaf = dG
            relative_energies["Gaf"].append(Gaf)
            relative_energies["dG"].append(dG)
            relative_energies["Gar"].append(Gaf - dG)
        return relative_energies
""")]),
    ('C06', 'keep', 'validity loop', [(RE, """        if "Ga" in data_dict:
            if len(data_dict["Ga"]) != len(self._owner.rxn_expressions):
                raise ValueError("Invalid shape of Ga.")

        if "dG" in data_dict:
            if len(data_dict["dG"]) != len(self._owner.rxn_expressions):
                raise ValueError("Invalid shape of dG.")
""", """        n = len(self._owner.rxn_expressions)
        for key in ("Ga", "dG"):
            if key in data_dict and len(data_dict[key]) != n:
                raise ValueError("Invalid shape of {}.".format(key))
""")]),
    ('C06', 'keep', 'static helper', [(RE, "            if abs(Gaf - 0.0) < 1e-10 and dG > 0.0:\n                Gaf = dG\n            Gafs.append(Gaf)", "            Gafs.append(self._forward(Gaf, dG))"), (RE, "    def parse_data(", """    @staticmethod
    def _forward(Ga, dG):
        if abs(Ga) >= 1e-10:
            return Ga
        if dG > 0.0:
            return dG
        return Ga

    def parse_data(""")]),
    ('C06', 'break', 'abs dropped', [(RE, "abs(Gaf - 0.0) < 1e-10", "Gaf < 1e-10")]),
    ('C06', 'break', 'reverse from raw', [(RE, "zip(Gafs, dGs)]", "zip(data_dict['Ga'], dGs)]")]),
    ('C06', 'break', 'max', [(RE, "            if abs(Gaf - 0.0) < 1e-10 and dG > 0.0:\n                Gaf = dG\n", "            Gaf = max(Gaf, 0.0)\n")]),
    ('C06', 'break', 'dG length unchecked', [(RE, 'if len(data_dict["dG"]) != len(self._owner.rxn_expressions):', 'if len(data_dict["dG"]) < len(self._owner.rxn_expressions):')]),
    ('C07', 'keep', 'sum generator', [(PB, SE, """        energies = self._owner.absolute_energies

        def key(formula):
            if "*" in formula.species_site():
                return "*_" + formula.site()
            return formula.species_site()

        return sum(f.stoichiometry()*energies[key(f)] for f in formula_list)
""")]),
    ('C07', 'keep', 'if else ts', [(PB, SR, """        states = rxn_equation.tolist()
        energies = [self._get_state_energy(s) for s in states]
        initial, final = energies[0], energies[-1]
        top = energies[1] if len(states) == 3 else max(initial, final)
        return top - initial, top - final, final - initial
""")]),
    ('C07', 'keep', 'conditional max', [(PB, "            G_TS = max(G_IS, G_FS)\n", "            G_TS = G_IS if G_IS > G_FS else G_FS\n")]),
    ('C07', 'keep', 'zip star', [(PB, RA, """        triples = [self._get_single_relative_energies(rxn) for rxn in self._owner.rxn_expressions]
        Gafs, Gars, dGs = [list(column) for column in zip(*triples)]
        return dict(Gar=Gars, Gaf=Gafs, dG=dGs)
""")]),
    ('C07', 'keep', 'triples', [(PB, RA, """        triples = [self._get_single_relative_energies(rxn) for rxn in self._owner.rxn_expressions]
        return {"Gaf": [t[0] for t in triples], "Gar": [t[1] for t in triples], "dG": [t[2] for t in triples]}
""")]),
    ('C07', 'break', 'missing stoich', [(PB, "energy += n*abs_energies[\"*_\" + site]", "energy += abs_energies[\"*_\" + site]")]),
    ('C07', 'break', 'min ts', [(PB, "G_TS = max(G_IS, G_FS)", "G_TS = max(G_IS, G_FS, 0.0)")]),
    ('C07', 'break', 'swapped', [(PB, "Gaf, Gar, dG = self._get_single_relative_energies(rxn_expression)", "Gar, Gaf, dG = self._get_single_relative_energies(rxn_expression)")]),
    ('C07', 'break', 'last state', [(PB, "G_FS = self._get_state_energy(states[-1])", "G_FS = self._get_state_energy(states[1])")]),
    ('C07', 'break', 'clamped barrier', [(PB, "r_barrier = G_TS - G_FS", "r_barrier = max(G_TS - G_FS, 0.0)")]),
    ('C08', 'keep', 'factor', [(SB, TST, """        if self.__class__.__name__ == "SteadyStateSolver":
            kBT = self._mpf(kB_eV)*self._mpf(T)
            return kBT/self._mpf(h_eV)*self._math.exp(-self._mpf(Ga)/kBT)
        kBT = kB_eV*T
        return kBT/h_eV*exp(-Ga/kBT)
""")]),
    ('C08', 'keep', 'isolated exponent', [(SB, TST, """        num, exponential = lambda x: x, exp
        if self.__class__.__name__ == "SteadyStateSolver":
            num, exponential = self._mpf, self._math.exp
        kB_, T_, h_, Ga_ = num(kB_eV), num(T), num(h_eV), num(Ga)
        return (kB_*T_/h_)*exponential(-Ga_/(kB_*T_))
""")]),
    ('C08', 'keep', 'pressure loop', [(SB, PRES, """            equation = RxnEquation(rxn_expression)
            definitions = self._owner.species_definitions
            for gas in equation.adsorption_gases():
                rf *= definitions[gas.species_site()]["pressure"]**gas.stoichiometry()
            for gas in equation.desorption_gases():
                rr *= definitions[gas.species_site()]["pressure"]**gas.stoichiometry()
""")]),
    ('C08', 'keep', 'pressure helper', [(SB, PRES, """            rxn_equation = RxnEquation(rxn_expression)
            rf = rf*self._pressure_product(rxn_equation.adsorption_gases())
            rr = rr*self._pressure_product(rxn_equation.desorption_gases())
"""), (SB, "    def get_rxn_rates_CT(self,", """    def _pressure_product(self, gases):
        p = 1.0
        for gas in gases:
            p *= pow(self._owner.species_definitions[gas.species_site()]["pressure"], gas.stoichiometry())
        return p

    def get_rxn_rates_CT(self,""")]),
    ('C08', 'keep', 'reduce initial', [(SB, PRES, PRES.replace("reduce(mul, pressures) if pressures else 1.0", "reduce(mul, pressures, 1.0)"))]),
    ('C08', 'keep', 'two calls', [(SB, "rf, rr = [self.get_kTST(Ga, T) for Ga in [Gaf, Gar]]", "rf = self.get_kTST(Gaf, T)\n        rr = self.get_kTST(Gar, T)")]),
    ('C08', 'keep', 'inverse', [(SB, "Ga = -log(kCT*h_eV/(kB_eV*T))*(kB_eV*T)", "kBT = kB_eV*T\n        Ga = kBT*log(kBT/(kCT*h_eV))")]),
    ('C08', 'keep', 'energies by key', [(SB, """        Gaf = relative_energies["Gaf"][idx]
        Gar = relative_energies["Gar"][idx]
        dG = relative_energies["dG"][idx]

        return Gaf, Gar, dG""", """        return tuple(relative_energies[key][idx] for key in ("Gaf", "Gar", "dG"))""")]),
    ('C08', 'break', 'first power', [(SB, '["pressure"] **\n                             gas.stoichiometry())', '["pressure"] **\n                             gas.nsite())')]),
    ('C08', 'break', 'first gas', [(SB, "p = reduce(mul, pressures) if pressures else 1.0\n            rf", "p = pressures[0] if pressures else 1.0\n            rf")]),
    ('C08', 'break', 'reverse p', [(SB, "rr = p*rr", "rr = rr/p")]),
    ('C08', 'break', 'mp only', [(SB, "kTST = kB_eV*T/h_eV*exp(-Ga/(kB_eV*T))", "kTST = kB_eV*T/h_eV*exp(-max(Ga, 0.0)/(kB_eV*T))")]),
    ('C08', 'break', 'kB J', [(SB, "kTST = kB_eV_mp*T_mp/h_eV_mp*self._math.exp(-Ga_mp/(kB_eV_mp*T_mp))", "kTST = kB_eV_mp*T_mp/h_eV_mp*self._math.exp(-Ga_mp/(self._mpf(kB_J)*T_mp))")]),
    ('C09', 'keep', 'flux', [(SB, KCT, """        sticking = exp(-Ea/(kB_eV*T))*act_ratio*f
        flux = p/(2*pi*m*kB_J*T)**0.5
        return sticking*flux*Auc
""")]),
    ('C09', 'keep', 'validate loop', [(SB, """        if act_ratio > 1.0:
            msg = "active area ratio must be less than 1.0"
            raise ParameterError(msg)

        if f > 1.0:
            msg = "factor f must be less than 1.0"
            raise ParameterError(msg)
""", """        for name, value in (("active area ratio", act_ratio), ("factor f", f)):
            if value > 1.0:
                raise ParameterError("{} must be less than 1.0".format(name))
""")]),
    ('C09', 'keep', 'max zero', [(SB, """            Gar_TST = Gaf_TST - dG

            if Gar_TST < 0:
                Gar_TST = 0.0

""", """            Gar_TST = max(Gaf_TST - dG, 0.0)
""")]),
    ('C09', 'keep', 'pressure factor', [(SB, """            if include_pressure:
                p = P0*self._owner.species_definitions[gas_name]["pressure"]
            else:
                p = P0

            # Use Collision""", """            p = P0
            if include_pressure:
                p *= self._owner.species_definitions[gas_name]["pressure"]

            # Use Collision""")]),
    ('C09', 'keep', 'next gas', [(SB, """            idx = is_types.index("gas")
            formula = istate[idx]
""", """            formula = [sp for sp in istate if sp.type() == "gas"][0]
""")]),
    ('C09', 'break', 'rel mass', [(SB, "m = ParserBase.get_molecular_mass(formula.species(), absolute=True)\n\n            if include_pressure", "m = ParserBase.get_molecular_mass(formula.species())\n\n            if include_pressure")]),
    ('C09', 'break', 'entropy sign', [(SB, "dG -= stoichiometry*correction_energy\n            Gar_TST", "dG += stoichiometry*correction_energy\n            Gar_TST")]),
    ('C09', 'break', 'no stoich', [(SB, "Gar -= stoichiometry*correction_energy", "Gar -= correction_energy")]),
    ('C09', 'break', 'sqrt2', [(SB, "(sqrt(2*pi*m*kB_J*T))", "(2*sqrt(pi*m*kB_J*T))")]),
    ('C09', 'break', 'p unit', [(SB, 'p = P0*self._owner.species_definitions[gas_name]["pressure"]\n            else:\n                p = P0\n\n            # Use Collision', 'p = self._owner.species_definitions[gas_name]["pressure"]\n            else:\n                p = P0\n\n            # Use Collision')]),
    ('C15', 'keep', 'zip dict', [(MF, T2D, """        cvgs_dict = dict(zip(self._owner.adsorbate_names, cvgs_tuple))
        for site_name in self._owner.site_names:
            occupied = sum(cvgs_dict[sp] for sp in self._classified_adsorbates[site_name])
            cvgs_dict[site_name] = self._owner.species_definitions[site_name]['total'] - occupied
        return cvgs_dict
""")]),
    ('C15', 'keep', 'enumerate', [(MF, T2D, """        cvgs_dict = {}
        for idx, name in enumerate(self._owner.adsorbate_names):
            cvgs_dict[name] = cvgs_tuple[idx]
        definitions = self._owner.species_definitions
        for site_name in self._owner.site_names:
            free = definitions[site_name]['total']
            for sp in self._classified_adsorbates[site_name]:
                free -= cvgs_dict[sp]
            cvgs_dict[site_name] = free
        return cvgs_dict
""")]),
    ('C15', 'keep', 'tuple gen', [(MF, D2T, """        return tuple(cvgs_dict[name] for name in self._owner.adsorbate_names)
""")]),
    ('C15', 'keep', 'classify comp', [(MF, CLS, """        classified = {site_name: [] for site_name in self._owner.site_names}
        for name in self._owner.adsorbate_names:
            classified["*_" + ChemFormula(name).site()].append(name)
        return classified
""")]),
    ('C15', 'keep', 'classify nested', [(MF, CLS, """        return {site: [name for name in self._owner.adsorbate_names
                       if "*_{}".format(ChemFormula(name).site()) == site]
                for site in self._owner.site_names}
""")]),
    ('C15', 'break', 'total one', [(MF, "total_cvg = species_definitions[site_name]['total']", "total_cvg = 1.0")]),
    ('C15', 'break', 'clamp free', [(MF, "free_site_cvg = total_cvg - sum_cvg", "free_site_cvg = max(total_cvg - sum_cvg, 0.0)")]),
    ('C15', 'break', 'all ads', [(MF, "for sp in self._classified_adsorbates[site_name]:", "for sp in adsorbate_names:")]),
    ('C39', 'keep', 'weights', [(MF, BOLTZ, """        weight = lambda name: self._math.exp(-self._owner.absolute_energies[name]/(kB*T))
        names = cvg_types if include_empty_site else self._owner.adsorbate_names
        total = sum(weight(name) for name in names)
        return tuple(weight(name)/total for name in self._owner.adsorbate_names)
""")]),
    ('C39', 'keep', 'dict weights', [(MF, BOLTZ, """        energies = self._owner.absolute_energies
        weights = {}
        for name in cvg_types:
            weights[name] = self._math.exp(-energies[name]/(kB*T))
        total = 0.0
        for name in (cvg_types if include_empty_site else self._owner.adsorbate_names):
            total += weights[name]
        return tuple([weights[name]/total for name in self._owner.adsorbate_names])
""")]),
    ('C39', 'break', 'kT', [(MF, "cvg = self._math.exp(-self._owner.absolute_energies[adsorbate]/(kB*T))/boltz_sum", "cvg = self._math.exp(-self._owner.absolute_energies[adsorbate]/kB*T)/boltz_sum")]),
    ('C39', 'break', 'always empty', [(MF, "for adsorbate in self._owner.adsorbate_names])\n", "for adsorbate in cvg_types])\n")]),
    ('C17', 'keep', 'loops', [(MF, "net_rates = tuple([rf - rr for rf, rr in zip(rfs, rrs)])", "net_rates = []\n        for i in range(len(rfs)):\n            net_rates.append(rfs[i] - rrs[i])\n        net_rates = tuple(net_rates)")]),
    ('C17', 'keep', 'negated rates', [(MF, TOF, """        reapro_matrix = self._owner.parser.get_stoichiometry_matrices()[1]
        tof_list = (-np.matrix(net_rates)*reapro_matrix).tolist()[0]
""")]),
    ('C17', 'keep', 'negated matrix', [(MF, TOF, """        reapro_matrix = -self._owner.parser.get_stoichiometry_matrices()[1]
        tof_list = (np.matrix(net_rates)*reapro_matrix).tolist()[0]
""")]),
    ('C17', 'keep', 'map float', [(MF, "reversibilities = [float(rr/rf) for rf, rr in zip(rfs, rrs)]", "reversibilities = []\n        for f, r in zip(rfs, rrs):\n            reversibilities.append(float(r/f))")]),
    ('C17', 'keep', 'early return tof', [(MF, """        if gas_name is None:
            return tof_list
        else:
            # Check gas name.
            gas_names = self._owner.gas_names
            if gas_name not in gas_names:
                msg = "'{}' is not a gas species in model".format(gas_name)
                raise ParameterError(msg)
            idx = gas_names.index(gas_name)
            return tof_list[idx]
""", """        if gas_name is None:
            return tof_list
        if gas_name in self._owner.gas_names:
            return tof_list[self._owner.gas_names.index(gas_name)]
        raise ParameterError("'{}' is not a gas species in model".format(gas_name))
""")]),
    ('C17', 'break', 'inverse rev', [(MF, "float(rr/rf)", "float(min(rr/rf, rf/rr))")]),
    ('C17', 'break', 'site matrix', [(MF, "_, reapro_matrix = self._owner.parser", "reapro_matrix, _ = self._owner.parser")]),
    ('C17', 'break', 'abs net', [(MF, "tuple([rf - rr for", "tuple([abs(rf - rr) for")]),
    ('C17', 'break', 'stale energies', [(MF, "net_rates = self.get_net_rates(cvgs, relative_energies)", "net_rates = self.get_net_rates(cvgs)")]),
    ('C11', 'keep', 'variable dict', [(MF, STR, """                stoichiometry = formula.stoichiometry()
                species_name = formula.species_site()
                variable = {'gas': 'p', 'liquid': 'c'}.get(formula.type(), 'theta')
                rate_str += "*{}['{}']".format(variable, species_name)
                if stoichiometry != 1:
                    rate_str += "**{}".format(stoichiometry)
            return rate_str
""")]),
    ('C11', 'keep', 'power helper', [(MF, STR, """                n = formula.stoichiometry()
                power = "" if n == 1 else "**" + str(n)
                name = formula.species_site()
                kind = formula.type()
                if kind == 'gas':
                    symbol = 'p'
                elif kind == 'liquid':
                    symbol = 'c'
                else:
                    symbol = 'theta'
                rate_str += "*%s['%s']%s" % (symbol, name, power)
            return rate_str
""")]),
    ('C11', 'keep', 'direction', [(MF, """            if direction == 'f':
                rate_str = 'kf[' + str(idx) + ']'
            if direction == 'r':
                rate_str = 'kr[' + str(idx) + ']'
""", """            rate_str = 'k{}[{}]'.format(direction, idx)
""")]),
    ('C11', 'keep', 'exec per line', [(MF, """            exprs_str = '\\n'.join(exprs_list)
            exec(exprs_str)
""", """            for expr in exprs_list:
                exec(expr)
""")]),
    ('C11', 'break', 'liquid p', [(MF, "sp_expr = \"*c['\" + species_name + \"']**\" + str(stoichiometry)", "sp_expr = \"*c['\" + species_name + \"']*\" + str(stoichiometry)")]),
    ('C11', 'break', 'reverse first', [(MF, "list2string(elementary_rxn_list[-1], direction='r'))", "list2string(elementary_rxn_list[1], direction='r'))")]),
    ('C11', 'break', 'site power', [(MF, "                    if stoichiometry == 1:\n                        sp_expr = \"*theta['\" + species_name + \"']\"\n                    else:\n                        sp_expr = \"*theta['\" + species_name + \"']**\" + str(stoichiometry)\n                else:", "                    sp_expr = \"*theta['\" + species_name + \"']\"\n                else:")]),
    ('C11', 'break', 'no relative', [(MF, "kf, kr = self.get_rate_constants(relative_energies=relative_energies)", "kf, kr = self.get_rate_constants()")]),
]
