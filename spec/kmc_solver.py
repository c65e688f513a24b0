"""Reference semantics for the kinetic Monte Carlo solver and its inputs."""


# C30 -------------------------------------------------------------------------
def processes(self):
    out, labels = [], []
    for definition in self._owner.process_dicts:
        d = check_process_dict(definition)
        reaction = d["reaction"]
        if reaction not in self._owner.rxn_expressions:
            raise SetupError("unknown reaction")
        for element in d["elements_before"] + d["elements_after"]:
            if element != '*' and element not in self._owner.possible_element_types:
                raise SetupError("unknown element")
        if self._owner.rate_algo == "CT":
            kf, kr = self.get_rxn_rates_CT(reaction, self._owner.relative_energies, include_pressure=True)
        elif self._owner.rate_algo == "TST":
            kf, kr = self.get_rxn_rates_TST(reaction, self._owner.relative_energies, include_pressure=True)
        else:
            raise SetupError("unknown algorithm")
        fast, redist = d.get("fast", False), d.get("redist", False)
        for site in d["basis_sites"]:
            for where in d["coordinates_group"]:
                out.append(KMCProcess(coordinates=where, elements_before=d["elements_before"], elements_after=d["elements_after"],
                                      basis_sites=[site], rate_constant=kf, fast=fast, redist=redist,
                                      redist_species=d.get("redist_species", None)))
                if not redist:
                    out.append(KMCProcess(coordinates=where, elements_before=d["elements_after"], elements_after=d["elements_before"],
                                          basis_sites=[site], rate_constant=kr, fast=fast))
                if not fast:
                    labels.append(reaction + "(->)")
                    if not redist:
                        labels.append(reaction + "(<-)")
    self.__process_mapping = labels
    return out


# C34 -------------------------------------------------------------------------
def control(self):
    o = self._owner
    settings = {"time_limit": o.time_limit, "number_of_steps": o.nstep, "dump_interval": o.trajectory_dump_interval,
                "seed": o.random_seed, "rng_type": o.random_generator, "analysis_interval": o.analysis_interval,
                "start_time": o.start_time, "extra_traj": o.extra_trajectories, "do_redistribution": o.do_redistribution}
    if o.do_redistribution:
        settings["redistribution_interval"] = o.redistribution_interval
        settings["fast_species"] = o.fast_species
        settings["nsplits"] = o.nsplits
        settings["distributor_type"] = o.distributor_type
        settings["empty_element"] = o.empty_type
    return KMCControlParameters(**settings)


def run(self, scripting=True, trajectory_type="lattice"):
    o = self._owner
    analysis = None
    if o.analysis:
        analysis = []
        for name in o.analysis:
            analysis.append(getattr(importlib.import_module('scaks.solvers.kmc_plugins'), name)(o))
    lattice_model = KMCLatticeModel(configuration=o.configuration, sitesmap=o.sitesmap,
                                    interactions=KMCInteractions(processes=self.processes, implicit_wildcards=True))
    if scripting:
        if o.log_allowed:
            self.script_lattice_model(lattice_model, script_name='kmc_model.py')
    lattice_model.run(control_parameters=self.get_control_parameters(),
                      trajectory_filename="auto_{}_trajectory.py".format(trajectory_type),
                      trajectory_type=trajectory_type, analysis=analysis)


# parser ----------------------------------------------------------------------
def lattice(self):
    o = self._owner
    return KMCLattice(unit_cell=KMCUnitCell(cell_vectors=np.array(o.cell_vectors), basis_points=np.array(o.basis_sites)),
                      repetitions=o.repetitions, periodic=o.periodic)


def sites(self):
    n = len(self._owner.basis_sites)
    for r in self._owner.repetitions:
        n *= r
    return n


def sitesmap(self, filename=None):
    known = self._owner.possible_site_types
    if filename is None:
        filename = "kmc_sites.py"
    types = None
    if os.path.exists(filename):
        globs, locs = {}, {}
        exec(open(filename, "rb").read(), globs, locs)
        if "site_types" in locs:
            types = locs["site_types"]
        else:
            types = [known[0] for i in range(sites(self))]
    else:
        types = [known[0] for i in range(sites(self))]
    if len(types) != sites(self):
        raise SetupError("wrong number")
    for t in types:
        if t not in known:
            raise SetupError("unknown type")
    return KMCSitesMap(lattice=self.construct_lattice(), types=types, possible_types=known)


def configuration(self, filename=None):
    known = self._owner.possible_element_types
    empty = self._owner.empty_type
    check_string(empty, known, "empty_type")
    if filename is None:
        filename = "kmc_configuration.py"
    if os.path.exists(filename):
        globs, locs = {}, {}
        exec(open(filename, "rb").read(), globs, locs)
        if "types" in locs:
            types = locs["types"]
        else:
            types = [empty]*sites(self)
    else:
        types = [empty]*sites(self)
    return KMCConfiguration(lattice=self.construct_lattice(), types=types, possible_types=known)


def process_file(self, filename=None):
    if filename is None:
        filename = "kmc_processes.py"
    globs, locs = {}, {}
    exec(open(filename, "rb").read(), globs, locs)
    return locs["processes"]


def parsed(self, energy_file="./rel_energy.py", processes_file=None, configuration_file=None, sitesmap_file=None):
    super(KMCParser, self).parse_data(energy_file)
    a = self.parse_processes(filename=processes_file)
    b = self.parse_configuration(filename=configuration_file)
    c = self.construct_sitesmap(filename=sitesmap_file)
    setattr(self._owner, mangled_name(self._owner, "process_dicts"), a)
    setattr(self._owner, mangled_name(self._owner, "configuration"), b)
    setattr(self._owner, mangled_name(self._owner, "sitesmap"), c)


# C31 -------------------------------------------------------------------------
def is_sequence_of(x, kind):
    if type(x) is not list and type(x) is not tuple:
        return False
    return all(isinstance(y, kind) for y in x)


def sequence(sequence, entry_type=None, param_name="Tested object"):
    if not is_sequence_of(sequence, entry_type):
        raise SetupError("bad")
    return sequence


def string(string, string_range=None, param_name="Tested object"):
    if isinstance(string, str) and string in string_range:
        return string
    raise SetupError("bad")


def species(species_definitions):
    if not isinstance(species_definitions, dict):
        raise SetupError("bad")
    for name in species_definitions:
        if name.endswith("_g"):
            if "pressure" not in species_definitions[name]:
                raise SetupError("bad")
    return species_definitions


def energies(ref_energies):
    if not isinstance(ref_energies, dict):
        raise SetupError("bad")
    for name in ref_energies:
        if not (isinstance(name, str) and isinstance(ref_energies[name], float)):
            raise SetupError("bad")
    return ref_energies


def interval(analysis_interval):
    if type(analysis_interval) is int:
        return analysis_interval
    if type(analysis_interval) is not list and type(analysis_interval) is not tuple:
        raise SetupError("bad")
    for x in analysis_interval:
        if type(x) is int:
            continue
        if type(x) is not list and type(x) is not tuple:
            raise SetupError("bad")
        if len(x) != 3 or any(type(i) is not int for i in x):
            raise SetupError("bad")
        if x[1] < x[0] or x[2] > x[1] - x[0]:
            raise SetupError("bad")
    return analysis_interval


def coordinates(coordinates):
    for pair in combinations(coordinates, 2):
        if all(abs(a - b) <= 1e-6 for a, b in zip(pair[0], pair[1])):
            raise SetupError("bad")
    return coordinates


def is_sequence(x, kind):
    pass


def all_differ(coords):
    pass


def sequence_contract(sequence, entry_type=None, param_name="Tested object"):
    if not is_sequence(sequence, entry_type):
        raise SetupError("bad")
    return sequence


def coordinates_contract(coordinates):
    if not all_differ(coordinates):
        raise SetupError("bad")
    return coordinates


def process(process_dict):
    for key in ("basis_sites", "reaction", "elements_after", "elements_before", "coordinates_group"):
        if key not in process_dict:
            raise SetupError("bad")
    group = process_dict["coordinates_group"]
    if not isinstance(process_dict["reaction"], str) or not is_sequence(group, list) or not is_sequence(process_dict["basis_sites"], int):
        raise SetupError("bad")
    for key in ("elements_before", "elements_after"):
        if not is_sequence(process_dict[key], str):
            raise SetupError("bad")
    for coords in group:
        if not is_sequence(coords, list):
            raise SetupError("bad")
        for c in coords:
            if not is_sequence(c, float) or len(c) != 3:
                raise SetupError("bad")
        if not all_differ(coords):
            raise SetupError("bad")
        if len(process_dict["elements_before"]) != len(coords) or len(process_dict["elements_after"]) != len(coords):
            raise SetupError("bad")
    return process_dict


def model_run(self, scripting=True, trajectory_type="lattice"):
    # the labels are made together with the processes
    self.__processes = self.solver.processes
    self.__process_mapping = self.solver.process_mapping
    self.solver.run(scripting=scripting, trajectory_type=trajectory_type)
