"""Processes of a kinetic Monte Carlo run kept from one query to the next."""
KS = 'scaks/solvers/kmc_solver.py'
IF = "        if process_dicts is not self.__process_dicts or energies != self.__energies:\n"
BODY = IF + """            self.__processes = self.get_processes()
            self.__process_dicts = process_dicts
            self.__energies = copy.deepcopy(energies)

        return self.__processes
"""
EDITS = [
    ('C19', 'break', 'made again when both changed', [(KS, IF, IF.replace(' or ', ' and '))]),
    ('C19', 'break', 'made again when the same', [(KS, IF, IF.replace('is not', 'is'))]),
    ('C19', 'break', 'made once', [(KS, IF, "        if not self.__processes:\n")]),
    ('C19', 'break', 'made per definitions', [(KS, IF, "        if process_dicts is not self.__process_dicts:\n")]),
    ('C19', 'break', 'energies kept themselves', [(KS, "            self.__energies = copy.deepcopy(energies)\n", "            self.__energies = energies\n")]),
    ('C19', 'break', 'energies not kept', [(KS, "            self.__energies = copy.deepcopy(energies)\n", "            self.__energies = self.__energies or copy.deepcopy(energies)\n")]),
    ('C19', 'keep', 'made every time', [(KS, BODY, "        self.__processes = self.get_processes()\n        return self.__processes\n")]),
    ('C19', 'keep', 'returned early', [(KS, BODY, """        if process_dicts is self.__process_dicts and energies == self.__energies:
            return self.__processes
        self.__processes = self.get_processes()
        self.__process_dicts, self.__energies = process_dicts, copy.deepcopy(energies)
        return self.__processes
""")]),
    ('C19', 'keep', 'compared by value', [(KS, IF, "        if not (process_dicts == self.__process_dicts and energies == self.__energies):\n")]),
    ('C19', 'keep', 'compared by flags', [(KS, IF, "        same = process_dicts is self.__process_dicts\n        if same:\n            same = energies == self.__energies\n        if not same:\n")]),
]
EDITS += [
    ('C30', 'break', 'TST without its name', [(KS, 'elif self._owner.rate_algo == "TST"', 'elif self._owner.rate_algo != "TST"')]),
    ('C36', 'break', 'unknown algorithm of processes ignored', [(KS, """        else:
            msg = "Unknown rate algorithm '{}'.".format(self._owner.rate_algo)
            raise SetupError(msg)
""", "")]),
    ('C36', 'break', 'unknown algorithm of processes taken for TST', [(KS, 'elif self._owner.rate_algo == "TST"', 'elif self._owner.rate_algo')]),
    ('C36', 'keep', 'unknown algorithm of processes first', [(KS, '        if self._owner.rate_algo == "CT":\n            rf', '        if self._owner.rate_algo not in ("CT", "TST"):\n            raise SetupError("Unknown rate algorithm")\n        if self._owner.rate_algo == "CT":\n            rf'.replace('\\\n', '\n'))]),
]
