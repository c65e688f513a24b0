"""Reference semantics of the reaction-equation parser (read by the lifter, never executed)."""


# C02: ChemFormula ------------------------------------------------------------
def drv_formula(s):
    f = ChemFormula(s)
    return (f.stoichiometry(), f.nsite(), f.species(), f.site(), f.species_site(), f.formula(), f.type())


def formula(s):
    m = re.search(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))', s)
    if not m:
        raise ChemFormulaError("unexpected formula")
    n = int(m.group(1)) if m.group(1) else 1
    k = int(m.group(4)) if m.group(4) else 1
    site = m.group(5)
    if site == "g":
        t = "gas"
    elif site == "l":
        t = "liquid"
    elif "*" in m.group(2):
        t = "site"
    else:
        t = "adsorbate"
    return (n, k, m.group(3), site, m.group(2), s, t)


def drv_state(s):
    st = ChemState(s)
    return (st.split(), st.chem_state(), [f for f in st.tolist()])


def state(s):
    parts = [p.strip() for p in s.split('+')]
    return (parts, s, [ChemFormula(p) for p in parts])


def drv_equation(s):
    r = RxnEquation(s)
    return (r.tolist(), r.rxn_equation(), r.to_formula_list())


def equation(s):
    m = re.search(r'([^\<\>]*)(?:\<?\-\>)(?:([^\<\>]*)(?:\<?\-\>))?([^\<\>]*)', s)
    states = [ChemState(m.group(k).strip()) for k in (1, 2, 3) if m.group(k)]
    return (states, s, [st.tolist() for st in states])


# C03 --------------------------------------------------------------------------
def drv_revert(s):
    return RxnEquation(s).revert()


def revert(s):
    states = RxnEquation(s).tolist()
    names = [st.chem_state() for st in states]
    if len(states) == 2:
        return RxnEquation(names[-1] + " -> " + names[0])
    else:
        return RxnEquation(names[-1] + " <-> " + names[-2] + " -> " + names[0])


def adsorption(self):
    return [f for f in self.to_formula_list()[0] if f.site() == "g"]


def desorption(self):
    return [f for f in self.to_formula_list()[-1] if f.site() == "g"]


# C01 --------------------------------------------------------------------------
def species_elements(self, species=None):
    if not species:
        species = self.species()
    if species == "*":
        return {}
    d = {}
    for e, n in re.findall(r'([a-zA-Z\*])(\d*)', species):
        k = int(n) if n else 1
        if e in d:
            d[e] += k
        else:
            d[e] = k
    return d


def formula_elements(self):
    d = self.get_species_elements_dict()
    return {e: d[e]*self.stoichiometry() for e in d}


def formula_sites(self):
    return {self.site(): self.nsite()*self.stoichiometry()}


def state_elements(self):
    d = {}
    for f in self.tolist():
        for e, k in f.get_elements_dict().items():
            if e in d:
                d[e] += k
            else:
                d[e] = k
    return d


def state_sites(self):
    d = {}
    for f in self.tolist():
        for e, k in f.get_sites_dict().items():
            if e != "g" and e != "l":
                if e in d:
                    d[e] += k
                else:
                    d[e] = k
    return d


def conserve(self, another):
    if not isinstance(another, self.__class__):
        raise ParameterError("wrong type")
    if self.get_elements_dict() != another.get_elements_dict():
        raise ValueError("mass")
    if self.get_sites_dict() != another.get_sites_dict():
        raise ValueError("sites")
    return True


def check_conservation(self):
    states = self.tolist()
    for s in states[1:]:
        if states[0].get_elements_dict() != s.get_elements_dict():
            raise ValueError("mass")
        if states[0].get_sites_dict() != s.get_sites_dict():
            raise ValueError("sites")
    return True


def add(self, formula_inst):
    return ChemState(self.formula() + ' + ' + formula_inst.formula())


def species_site_list(self):
    return [f.species_site() for f in self.tolist()]
