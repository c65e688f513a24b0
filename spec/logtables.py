"""Reference definitions of the tables of results (C52)."""


def reversibilities(self, reversibilities):
    rule = '-'*100 + '\n'
    text = "Reversibilities:\n" + "\n {:<10s}{:<70s}{:<30s}\n".format("index", "elementary reaction", "reversibilities") + rule
    for i, (rxn, value) in enumerate(zip(self._owner.rxn_expressions, reversibilities)):
        text += " {:<10s}{:<70s}{:<30.16e}\n".format(str(i).zfill(2), rxn, float(value))
    text += rule
    if self._owner.log_allowed:
        self.__logger.info(text)
    return text


def tof(self, tof_list, gas_names):
    rule = '-'*60 + '\n'
    text = "Turnover Frequencies:\n" + "\n {:<10s}{:<25s}{:<30s}\n".format("index", "gas name", "TOF") + rule
    for i, (gas, value) in enumerate(zip(gas_names, tof_list)):
        text += " {:<10s}{:<25s}{:<30.16e}\n".format(str(i).zfill(2), gas, float(value))
    text += rule
    if self._owner.log_allowed:
        self.__logger.info(text)
    return text


def sscvg(self, cvgs_tuple, ads_names):
    rule = '-'*60 + '\n'
    text = "Steady State Coverages:\n" + "\n {:<10s}{:<25s}{:<30s}\n".format("index", "intermediate name", "steady state coverage") + rule
    for i, (ads, value) in enumerate(zip(ads_names, cvgs_tuple)):
        text += " {:<10s}{:<25s}{:<30.16e}\n".format(str(i).zfill(2), ads, float(value))
    text += rule
    if self._owner.log_allowed:
        self.__logger.info(text)
    return text


def single_xtrc(self, XTRCs, gas_name):
    rule = '-'*60 + '\n'
    text = "Degree of Rate Control for {}:\n".format(gas_name) + "\n {:<10s}{:<25s}{:<30s}\n".format("index", "intermediate", "XTRC") + rule
    for i, (sp, value) in enumerate(zip(self._owner.adsorbate_names + self._owner.transition_state_names, XTRCs)):
        text += " {:<10s}{:<25s}{:<30.16e}\n".format(str(i).zfill(2), sp, float(value))
    text += rule
    if self._owner.log_allowed:
        self.__logger.info(text)
    return text


def single_xrc(self, XRCs, gas_name):
    rule = '-'*100 + '\n'
    text = "Degree of Rate Control for {}:\n".format(gas_name) + "\n {:<10s}{:<70s}{:<30s}\n".format("index", "elementary reaction", "XRC") + rule
    for i, (rxn, value) in enumerate(zip(self._owner.rxn_expressions, XRCs)):
        text += " {:<10s}{:<70s}{:<30.16e}\n".format(str(i).zfill(2), rxn, float(value))
    text += rule
    if self._owner.log_allowed:
        self.__logger.info(text)
    return text


def xtrc(self, XTRC_matrix):
    rule = '-'*70 + '\n'
    text = "Degree of Thermodynamic Rate Control:\n" + "\n{:<15s}{:<30s}{:<30s}\n".format("gas", "intermediate", "XTRC") + rule
    for gas, values in zip(self._owner.gas_names, XTRC_matrix):
        for sp, value in zip(self._owner.adsorbate_names + self._owner.transition_state_names, values):
            text += "{:<15s}{:<30s}{:<30.16e}\n".format(gas, sp, float(value))
    text += rule
    if self._owner.log_allowed:
        self.__logger.info(text)
    return text


def rates_table(self, fdata, rdata, fname, rname):
    width = len(sorted(self._owner.rxn_expressions, key=lambda x: len(x))[-1])
    title = "{{:<{width}}}{{:<12s}}{{:<12s}}\n".format(width=width+3).format("reactions", fname, rname)
    rule = "-"*len(title) + "\n"
    text = "\n\n" + title + rule
    row = "{{:<{width}}}{{:<12.4e}}{{:<12.4e}}\n".format(width=width+3)
    for rxn, f, r in zip(self._owner.rxn_expressions, fdata, rdata):
        text += row.format(rxn, float(f), float(r))
    self.__logger.info(text + rule)


def told_constants(self, relative_energies=None, log=False):
    if not relative_energies:
        if not self._owner.has_relative_energy:
            raise AttributeError("no energies")
        relative_energies = self._owner.relative_energies
    if "Gaf" not in relative_energies or "Gar" not in relative_energies:
        raise ParameterError("energies")
    if self._owner.rate_algo == "TST":
        ks = [self.get_rxn_rates_TST(rxn, relative_energies) for rxn in self._owner.rxn_expressions]
    elif self._owner.rate_algo == "CT":
        ks = [self.get_rxn_rates_CT(rxn, relative_energies) for rxn in self._owner.rxn_expressions]
    else:
        raise ValueError("algorithm")
    if self._owner.log_allowed and log:
        self.__log_rates([k[0] for k in ks], [k[1] for k in ks], "k_forward", "k_reverse")


def told_reversibilities(self, rfs, rrs):
    if len(rfs) != len(rrs):
        raise ValueError("length")
    self.__log_reversibilities([float(b/a) for a, b in zip(rfs, rrs)])


def told_tof(self, cvgs, relative_energies=None, gas_name=None):
    rates = self.get_net_rates(cvgs, relative_energies)
    _, m = self._owner.parser.get_stoichiometry_matrices()
    self.__log_tof((np.matrix(rates)*(-m)).tolist()[0], self._owner.gas_names)
    if gas_name is not None and gas_name not in self._owner.gas_names:
        raise ParameterError("unknown gas")


def theta_of(self, cvgs_tuple):
    o = self._owner
    theta = dict(zip(o.adsorbate_names, cvgs_tuple))
    for s in o.site_names:
        bound = sum(cvgs_tuple[i] for i in range(len(o.adsorbate_names)) if "*_" + ChemFormula(o.adsorbate_names[i]).site() == s)
        theta[s] = o.species_definitions[s]["total"] - bound
    return theta


def told_rates(self, cvgs_tuple, relative_energies=None, log=False):
    o = self._owner
    theta = theta_of(self, cvgs_tuple)
    p = {g: o.species_definitions[g]["pressure"] for g in o.gas_names}
    c = {l: o.species_definitions[l]["concentration"] for l in o.liquid_names}
    k = self.get_rate_constants(relative_energies)
    out = []
    for side in (0, -1):
        r = []
        for i in range(len(o.rxn_expressions)):
            x = k[0 if side == 0 else 1][i]
            for f in RxnEquation(o.rxn_expressions[i]).to_formula_list()[side]:
                name, n = f.species_site(), f.stoichiometry()
                if f.type() == "gas" and "*" not in f.species():
                    x *= p[name]**n
                elif f.type() == "liquid" and "*" not in f.species():
                    x *= c[name]**n
                else:
                    x *= theta[name]**n
            r.append(x)
        out.append(r)
    if o.log_allowed and log:
        self.__log_rates(out[0], out[1], "R_forward", "R_reverse")
