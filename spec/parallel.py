"""Reference semantics for the process-parallel helpers."""


def bcast(self, data):
    if MPI_INSTALLED:
        return MPI.COMM_WORLD.bcast(data, root=0)
    return data


def barrier(self):
    if MPI_INSTALLED:
        MPI.COMM_WORLD.barrier()


def rank(self):
    if MPI_INSTALLED:
        return MPI.COMM_WORLD.Get_rank()
    return 0


def size(self):
    if MPI_INSTALLED:
        return MPI.COMM_WORLD.Get_size()
    return 1


def is_master(self):
    return self.rank == 0


def split_seq(self, sequence):
    n = len(sequence)
    return sequence[n*self.rank//self.size:n*(self.rank + 1)//self.size]


def split_size(self, size):
    if size < self.size:
        if self.rank < size:
            return 1
        return 0
    if size % self.size == 0:
        return size // self.size
    if self.rank < size % self.size:
        return size // self.size + 1
    return size // self.size


def split_size_2(self, size):
    if self.rank < size % self.size:
        return size // self.size + 1
    return size // self.size


def merge_seq(self, seq):
    if self.size == 1:
        return seq
    return [x for part in MPI.COMM_WORLD.allgather(seq) for x in part]
