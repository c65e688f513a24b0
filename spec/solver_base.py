"""Reference semantics for the rate theories (read by the lifter, never executed)."""
import math



# C08 -----------------------------------------------------------------------
def kTST(self, Ga, T):
    return kB_eV*T/h_eV*math.exp(-Ga/(kB_eV*T))


def barrier_of_rate(kCT, T):
    # the inverse of kTST with respect to the barrier
    return kB_eV*T*(math.log(kB_eV*T/h_eV) - math.log(kCT))


def rates_TST(self, rxn_expression, relative_energies, include_pressure=False):
    i = self._owner.rxn_expressions.index(rxn_expression)
    T = self._owner.temperature
    out = []
    for key, side in (("Gaf", 0), ("Gar", -1)):
        k = self.get_kTST(relative_energies[key][i], T)
        if include_pressure:
            for f in RxnEquation(rxn_expression).to_formula_list()[side]:
                if f.site() == "g":
                    k *= self._owner.species_definitions[f.species_site()]["pressure"]**f.stoichiometry()
        out.append(k)
    return out[0], out[1]


# C09 -----------------------------------------------------------------------
def kCT(Ea, Auc, act_ratio, m, T, p=P0, f=1.0):
    if act_ratio > 1 or f > 1:
        raise ParameterError("ratio above one")
    return f*act_ratio*math.exp(-Ea/(kB_eV*T))*p*Auc/math.sqrt(2*math.pi*m*kB_J*T)


def rates_CT(self, rxn_expression, relative_energies, include_pressure=False):
    o = self._owner
    i = o.rxn_expressions.index(rxn_expression)
    T = o.temperature
    Gaf, Gar, dG = relative_energies["Gaf"][i], relative_energies["Gar"][i], relative_energies["dG"][i]
    if o.unitcell_area <= 0:
        raise AttributeError("unit cell area")
    if type(o.corrector) == str:
        raise SetupError("no corrector")
    states = RxnEquation(rxn_expression).to_formula_list()
    for f in states[0]:
        if f.site() == "g":
            m = ParserBase.get_molecular_mass(f.species(), absolute=True)
            p = P0*o.species_definitions[f.species_site()]["pressure"] if include_pressure else P0
            rf = self.get_kCT(Ea=Gaf, Auc=o.unitcell_area, act_ratio=o.active_ratio, m=m, T=T, p=p)
            S = o.corrector.entropy_correction(f.species_site(), m, p, T)
            barrier = self.get_TST_barrier_from_CT(rf, T) - (dG - f.stoichiometry()*S)
            return rf, self.get_kTST(max(barrier, 0), T)
    for f in states[-1]:
        if f.site() == "g":
            m = ParserBase.get_molecular_mass(f.species(), absolute=True)
            p = P0*o.species_definitions[f.species_site()]["pressure"] if include_pressure else P0
            S = o.corrector.entropy_correction(f.species_site(), m, p, T)
            return self.get_kTST(Gaf, T), self.get_kTST(Gar - f.stoichiometry()*S, T)
    return self.get_kTST(Gaf, T), self.get_kTST(Gar, T)
