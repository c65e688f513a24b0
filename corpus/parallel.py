M = 'scaks/mpicommons.py'
EDITS = [
    ('C26', 'break', 'end by ceil of share', [(M, 'end = len(sequence)*(self.rank + 1)//self.size', 'end = start + len(sequence)//self.size')]),
    ('C26', 'break', 'start off by one', [(M, 'start = len(sequence)*self.rank//self.size', 'start = (len(sequence)*self.rank + self.size - 1)//self.size')]),
    ('C26', 'break', 'residual to last', [(M, 'for i in range(residual):', 'for i in range(residual - 1):')]),
    ('C26', 'break', 'gather only', [(M, 'merged_seq= mpi_comm.allgather(seq)', 'merged_seq= mpi_comm.gather(seq)')]),
    ('C26', 'break', 'zero padding', [(M, '[1]*size + [0]*(self.size - size)', '[0]*(self.size - size) + [1]*(size - 1)')]),
    ('C26', 'break', 'bcast from the last', [(M, 'mpi_comm.bcast(data, root=0)', 'mpi_comm.bcast(data, root=self.size - 1)')]),
    ('C26', 'break', 'master is last', [(M, 'return self.rank == 0', 'return self.rank == self.size - 1')]),
    ('C26', 'keep', 'divmod', [(M, "            residual = size % self.size\n            splited_sizes = [size // self.size]*self.size\n", "            base, residual = divmod(size, self.size)\n            splited_sizes = [base]*self.size\n")]),
    ('C26', 'keep', 'share function', [(M, "        start = len(sequence)*self.rank//self.size\n        end = len(sequence)*(self.rank + 1)//self.size\n", "        def bound(r):\n            return r*len(sequence)//self.size\n        start, end = bound(self.rank), bound(self.rank + 1)\n")]),
    ('C26', 'keep', 'merge loop', [(M, "        return list(chain(*merged_seq))", "        merged = []\n        for part in merged_seq:\n            merged.extend(part)\n        return merged")]),
    ('C26', 'keep', 'merge comprehension', [(M, "        return list(chain(*merged_seq))", "        return list(chain.from_iterable(merged_seq))")]),
    ('C26', 'keep', 'split_size direct', [(M, "        elif size % self.size != 0:\n            residual = size % self.size\n            splited_sizes = [size // self.size]*self.size\n            for i in range(residual):\n                splited_sizes[i] += 1\n", "        elif size % self.size:\n            residual = size % self.size\n            splited_sizes = [size // self.size + 1 if i < residual else size // self.size\n                             for i in range(self.size)]\n")]),
    ('C26', 'keep', 'start plus share', [(M, "        return sequence[start: end]", "        part = sequence[start:end]\n        return part")]),
]
KM, MK, KC = 'scaks/models/kinetic_model.py', 'scaks/models/micro_kinetic_model.py', 'scaks/models/kmc_model.py'
P = 'scaks/solvers/kmc_plugins/'
EDITS += [
    ('C27', 'break', 'barrier only where missing', [(KM, '''                if not os.path.exists("./log") and mpi.is_master:
                    os.mkdir("./log")
                mpi.barrier()
''', '''                if not os.path.exists("./log"):
                    if mpi.is_master:
                        os.mkdir("./log")
                    mpi.barrier()
''')]),
    ('C27', 'break', 'no barrier', [(KM, '                mpi.barrier()\n', '')]),
    ('C27', 'break', 'barrier of the others', [(KM, '''                    os.mkdir("./log")
                mpi.barrier()
''', '''                    os.mkdir("./log")
                elif not mpi.is_master:
                    mpi.barrier()
''')]),
    ('C27', 'break', 'barrier first', [(KM, '''                if not os.path.exists("./log") and mpi.is_master:
                    os.mkdir("./log")
                mpi.barrier()
''', '''                mpi.barrier()
                if not os.path.exists("./log") and mpi.is_master:
                    os.mkdir("./log")
''')]),
    ('C27', 'break', 'all create data', [(MK, 'if mpi.is_master and not os.path.exists("./data"):', 'if not os.path.exists("./data"):')]),
    ('C27', 'break', 'one data file', [(MK, '"./data/data_{}.pkl".format(mpi.rank)', '"./data/data_{}.pkl".format(mpi.size)')]),
    ('C27', 'break', 'data elsewhere', [(MK, '"./data/data_{}.pkl".format(mpi.rank)', '"./archive/data_{}.pkl".format(mpi.rank)')]),
    ('C27', 'break', 'rank 0 shares', [(MK, '        if mpi.size == 1:\n            return "data.pkl"', '        if mpi.size < 3:\n            return "data.pkl"')]),
    ('C27', 'break', 'handler before barrier', [(KM, '''                mpi.barrier()
                filename = "./log/out_{}.log".format(mpi.rank)

        # Create handlers.
        std_hdlr = logging.FileHandler(filename)
''', '''                filename = "./log/out_{}.log".format(mpi.rank)

        # Create handlers.
        std_hdlr = logging.FileHandler(filename)
        if mpi.size != 1:
            mpi.barrier()
''')]),
    ('C27', 'keep', 'helper', [(KM, '''                if not os.path.exists("./log") and mpi.is_master:
                    os.mkdir("./log")
                mpi.barrier()
''', '''                self._make_shared_dir("./log")
'''), (KM, '    def set_logger_level(self,', '''    def _make_shared_dir(self, path):
        if mpi.is_master:
            if not os.path.exists(path):
                os.mkdir(path)
        mpi.barrier()

    def set_logger_level(self,''')]),
    ('C27', 'keep', 'everyone makes', [(KM, '''                if not os.path.exists("./log") and mpi.is_master:
                    os.mkdir("./log")
                mpi.barrier()
''', '''                os.makedirs("./log", exist_ok=True)
''')]),
    ('C27', 'keep', 'name by percent', [(KM, '"./log/out_{}.log".format(mpi.rank)', '"./log/out_%d.log" % mpi.rank')]),
    ('C27', 'keep', 'larger than one', [(MK, 'if mpi.size != 1:', 'if mpi.size > 1:')]),
    ('C28', 'break', 'setup of coverages', [(P + 'coverages_analysis.py', '        if mpi.is_master:\n            # Create data file.', '        if mpi.rank >= 0:\n            # Create data file.')]),
    ('C28', 'break', 'or in flush', [(P + 'coverages_analysis.py', 'if mpi.is_master and buffer_full:', 'if mpi.is_master or buffer_full:')]),
    ('C28', 'break', 'tof finalize', [(P + 'tof_analysis.py', 'if mpi.is_master and (len(self.__times) > 0):', 'if len(self.__times) > 0:')]),
    ('C28', 'break', 'frequency counted on master', [(P + 'frequency_analysis.py', '        self.__process_occurencies[picked_index] += 1\n', '        if mpi.is_master:\n            self.__process_occurencies[picked_index] += 1\n')]),
    ('C28', 'break', 'start time of master', [(P + 'frequency_analysis.py', '''                self.__tof_start_time = time
                if mpi.is_master:
''', '''                if mpi.is_master:
                    self.__tof_start_time = time
''')]),
    ('C28', 'break', 'log allowed', [(KC, 'return True if mpi.is_master else False', 'return True')]),
    ('C28', 'break', 'script for all', [('scaks/solvers/kmc_solver.py', 'if self.log_allowed:', 'if True:') if False else (KC, 'return True if mpi.is_master else False', 'return mpi.rank < mpi.size')]),
    ('C28', 'keep', 'early return', [(P + 'event_analysis.py', '''        if mpi.is_master:
            self.__flush()
            msg =''', '''        if not mpi.is_master:
            return
        if True:
            self.__flush()
            msg =''')]),
    ('C28', 'keep', 'rank compared', [(P + 'frequency_analysis.py', '        if mpi.is_master:\n            with open', '        if mpi.rank == 0:\n            with open')]),
    ('C28', 'keep', 'log allowed is master', [(KC, 'return True if mpi.is_master else False', 'return mpi.is_master')]),
    ('C28', 'keep', 'decorated flush', [(P + 'coverages_analysis.py', '''        if mpi.is_master and buffer_full:
            self.__flush()''', '''        if buffer_full:
            self.__flush()'''), (P + 'coverages_analysis.py', '    def __flush(self):', '    @master_only\n    def __flush(self):'), (P + 'coverages_analysis.py', 'from ...mpicommons import mpi', 'from ...mpicommons import mpi, master_only')]),
]
