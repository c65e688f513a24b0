"""Reference semantics for the on-the-fly analyses of kinetic Monte Carlo runs."""


# CoveragesAnalysis -----------------------------------------------------------
def coverages_init(self, kmc_model, filename="auto_coverages.py", buffer_size=500):
    self.__kmc_model = kmc_model
    self.__coverage_ratios = kmc_model.coverage_ratios
    self.__possible_types = kmc_model.possible_element_types
    self.__times, self.__steps, self.__coverages = [], [], []
    self.__flush_counter = 0
    self.__filename, self.__buffer_size = filename, buffer_size
    if mpi.is_master:
        self.__logger = logging.getLogger("model.solvers.KMCSolver.CoveragesAnalysis")


def coverages_sample(self, step, time, configuration):
    self.__times.append(time)
    self.__steps.append(step)
    types = deepcopy(self.__possible_types)
    where = types.index(self.__kmc_model.empty_type)
    types.pop(where)
    values = list(collect_coverages(configuration.types(), types, self.__coverage_ratios))
    values.insert(where, 1.0 - sum(values))
    self.__coverages.append(values)


def coverages_setup(self, step, time, configuration, interactions):
    coverages_sample(self, step, time, configuration)
    if mpi.is_master:
        with open(self.__filename, "w") as f:
            f.write(file_header)
            f.write("times = []\nsteps = []\n")
            f.write("coverages = {}\n\n".format([[] for t in self.__possible_types]))
            f.write(get_list_string("possible_types", self.__possible_types))


def coverages_flush(self):
    k = self.__flush_counter
    with open(self.__filename, "a") as f:
        f.write("\n# -------------------- flush {} ---------------------\n".format(k))
        f.write(get_list_string("times_{}".format(k), self.__times))
        f.write("times.extend(times_{})\n\n".format(k))
        f.write(get_list_string("steps_{}".format(k), self.__steps, ncols=10))
        f.write("steps.extend(steps_{})\n\n".format(k))
        f.write(get_list_string("coverages_{}".format(k), zip(*self.__coverages), ncols=1))
        for i in range(len(self.__possible_types)):
            f.write("coverages[{}].extend(coverages_{}[{}])\n".format(i, k, i))
    self.__times, self.__steps, self.__coverages = [], [], []
    self.__flush_counter = k + 1


def coverages_step(self, step, time, configuration, interactions):
    coverages_sample(self, step, time, configuration)
    if mpi.is_master:
        if len(self.__coverages) >= self.__buffer_size:
            coverages_flush(self)


def coverages_finalize(self):
    # an empty chunk has no series per type, indexing it would make the file invalid
    if mpi.is_master and len(self.__coverages) > 0:
        coverages_flush(self)


# FrequencyAnalysis -----------------------------------------------------------
def frequency_init(self, kmc_model, filename="auto_frequency.py", tof_start=0):
    self.__kmc_model = kmc_model
    self.__filename = filename
    self.__times, self.__steps = [], []
    self.__process_occurencies = [0 for p in kmc_model.processes]
    self.__steady_process_occurencies = [0 for p in kmc_model.processes]
    self.__tof_start_time = 0.0
    self.__tof_end_time = 0.0
    if mpi.is_master:
        self.__logger = logging.getLogger("model.solvers.KMCSolver.FrequencyAnalysis")


def frequency_setup(self, step, time, configuration, interactions):
    if mpi.is_master:
        with open(self.__filename, "w") as f:
            f.write(file_header + "times = []\npicked_indices = []\nprocess_occurencies = []\n")


def frequency_step(self, step, time, configuration, interactions):
    picked = interactions.pickedIndex()
    self.__process_occurencies[picked] += 1
    self.__tof_end_time = time
    if step >= self.__kmc_model.tof_start:
        self.__steady_process_occurencies[picked] += 1
        if not self.__tof_start_time:
            self.__tof_start_time = time


def per_reaction(counts, mapping):
    total = {}
    for reaction in set(mapping):
        total[reaction] = 0
    for i in range(len(counts)):
        total[mapping[i]] += counts[i]
    return total


def frequency_finalize(self):
    mapping = self.__kmc_model.process_mapping
    everything = per_reaction(self.__process_occurencies, mapping)
    steady = per_reaction(self.__steady_process_occurencies, mapping)
    sites = len(self.__kmc_model.basis_sites)
    for n in self.__kmc_model.repetitions:
        sites *= n
    span = self.__tof_end_time - self.__tof_start_time
    rates = {}
    for reaction in steady:
        rates[reaction] = steady[reaction]/span/sites
    if mpi.is_master:
        with open(self.__filename, "a") as f:
            f.write(get_list_string("process_occurencies", self.__process_occurencies))
            f.write(get_dict_string("reaction_occurencies", everything))
            f.write(get_dict_string("steady_reaction_occurencies", steady))
            f.write(get_dict_string("reaction_rates", rates))


# TOFAnalysis -----------------------------------------------------------------
def tof_init(self, kmc_model, filename="auto_tofs.py", buffer_size=500, tof_start=0):
    self.__kmc_model = kmc_model
    self.__filename, self.__buffer_size = filename, buffer_size
    self.__steps = []
    self.__tofs, self.__times = [], []
    self.__occurencies = [0 for p in kmc_model.processes]
    self.__start_time = 0.0
    self.__tof_interval = kmc_model.tof_interval
    self.__flush_counter = 0
    sites = len(kmc_model.basis_sites)
    for n in kmc_model.repetitions:
        sites *= n
    self.__nsites = sites
    if mpi.is_master:
        self.__logger = logging.getLogger("model.solvers.KMCSolver.TOFAnalysis")


def tof_setup(self, step, time, configuration, interactions):
    if mpi.is_master:
        with open(self.__filename, "w") as f:
            f.write(file_header + "times = []\ntofs = []\n")
            f.write(get_list_string("processes", self.__kmc_model.process_mapping, 1))


def tof_flush(self):
    k = self.__flush_counter
    with open(self.__filename, "a") as f:
        f.write("\n# -------------------- flush {} ---------------------\n".format(k))
        f.write(get_list_string("times_{}".format(k), self.__times))
        f.write("times.extend(times_{})\n\n".format(k))
        f.write(get_list_string("tofs_{}".format(k), self.__tofs, ncols=1))
        f.write("tofs.extend(tofs_{})\n\n".format(k))
    self.__times, self.__tofs = [], []
    self.__flush_counter = k + 1


def tof_step(self, step, time, configuration, interactions):
    self.__occurencies[interactions.pickedIndex()] += 1
    window = time - self.__start_time
    if window > self.__tof_interval:
        self.__tofs.append([n/(self.__nsites*window) for n in self.__occurencies])
        self.__times.append(self.__start_time)
        self.__start_time = time
        self.__occurencies = [0 for p in self.__kmc_model.processes]
        if mpi.is_master and len(self.__times) >= self.__buffer_size:
            tof_flush(self)


def tof_finalize(self):
    if mpi.is_master and len(self.__times) > 0:
        tof_flush(self)


# EventAnalysis ---------------------------------------------------------------
def event_init(self, kmc_model, filename="auto_events.txt", buffer_size=50):
    self.__kmc_model = kmc_model
    self.__filename, self.__buffer_size = filename, buffer_size
    self.__buffer, self.__previous_table = "", []
    self.__field_names = ["process", "available sites", "total rate", "probability"]
    self.__flush_counter = 0
    if mpi.is_master:
        self.__logger = logging.getLogger("model.solvers.KMCSolver.EventAnalysis")


def event_setup(self, step, time, configuration, interactions):
    mapping = self.__kmc_model.solver.process_mapping
    title = "Visualized displaying of KMC Event Analysis"
    line = "="*len(title)
    table = PrettyTable()
    table.field_names = ["process index", "reaction"]
    table.align["reaction"] = "l"
    for i in range(len(mapping)):
        table.add_row([i, mapping[i]])
    text = table.get_string()
    if mpi.is_master:
        with open(self.__filename, "w") as f:
            f.write(line + "\n\n" + title + "\n\n" + line + "\n\n")
            f.write("{} processes listed below:\n".format(len(mapping)))
            f.write(text + "\n")


def event_table(self, interactions):
    labels = self.__kmc_model.solver.process_mapping
    sites = interactions.processAvailableSites()
    rates = [n*r for n, r in zip(sites, interactions.processRates())]
    return [[i, label, sites[i], rates[i], rates[i]/sum(rates)] for i, label in enumerate(labels)]


def event_text(self, step, previous, picked):
    text = u"\nStep: {}\nTotal available sites number: {}\n".format(step - 1, sum(row[2] for row in previous))
    table = PrettyTable()
    table.field_names = self.__field_names
    table.align["process"] = "l"
    for i, label, sites, rate, share in previous:
        mark = "-> " if i == picked else ""
        table.add_row(["{}({}) {}".format(mark, i, label), sites, "{:^6.2e}".format(rate), "{:.2f}%".format(100.0*share)])
    return text + table.get_string() + u"\n('->' points to the process picked in step {})\n".format(step)


def event_flush(self):
    with open(self.__filename, "a") as f:
        f.write(self.__buffer)
    self.__buffer = ""
    self.__flush_counter = 0


def event_step(self, step, time, configuration, interactions):
    current = event_table(self, interactions)
    if self.__previous_table:
        self.__buffer += event_text(self, step, self.__previous_table, interactions.pickedIndex())
        self.__flush_counter += 1
    self.__previous_table = current
    if mpi.is_master:
        if self.__flush_counter >= self.__buffer_size:
            event_flush(self)


def event_finalize(self):
    if mpi.is_master:
        event_flush(self)


# Coverage collector (C32) ----------------------------------------------------
def collector(types, possible_types, coverage_ratios):
    cells = len(types)//len(coverage_ratios)
    ratios = coverage_ratios*cells
    out = [0]*len(possible_types)
    # as many sites as lattice cells times basis sites
    for ratio, element in zip(ratios, types):
        if element in possible_types:
            out[possible_types.index(element)] += ratio
    return [x/cells for x in out]


# texts of the files -----------------------------------------------------------
def list_text(var_name, list_obj, ncols=5):
    # names in quotes, a sequence of its own per line, ncols of the others per line
    text = var_name + " = ["
    for i, x in enumerate(list_obj):
        if hasattr(x, "__iter__") and not isinstance(x, str):
            text += "\n    " + str(x) + ","
        else:
            if i % ncols == 0:
                text += "\n    "
            text += "'" + x + "', " if isinstance(x, str) else str(x) + ", "
    return text + "\n]\n\n"


def dict_text(var_name, dict_obj):
    text = var_name + " = {\n"
    for k in sorted(dict_obj):
        text += "    '{}': {},\n".format(k, dict_obj[k])
    return text + "}\n\n"


def ode_flush(self, flush_counter, times, coverages):
    k = flush_counter
    with open("auto_ode_coverages.py", "a") as f:
        f.write("\n# -------------------- flush {} ---------------------\n".format(k))
        f.write(get_list_string("times_{}".format(k), times))
        f.write("times.extend(times_{})\n\n".format(k))
        f.write(get_list_string("coverages_{}".format(k), coverages))
        f.write("coverages.extend(coverages_{})\n\n".format(k))
    return [], []
