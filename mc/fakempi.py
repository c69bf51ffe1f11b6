"""Stand-in communicators that only answer topology questions: one process of an imagined mesh."""
import itertools
import numpy as np

class FakeCart:
    def __init__(self, dims, rank):
        self.dims = list(dims); self.dim = len(self.dims)
        self.allcoords = list(itertools.product(*[range(d) for d in self.dims]))   # row-major, as MPI_Cart_create without reordering
        self.rank = rank
        self.size = len(self.allcoords)
        self.coords = list(self.allcoords[rank])
    def Get_coords(self, rank):
        return list(self.allcoords[rank])
    def Sub(self, remain_dims):
        remain = remain_dims
        dims = [d for d, r in zip(self.dims, remain) if r]
        c = [x for x, r in zip(self.coords, remain) if r]
        size = int(np.prod(dims)) if dims else 1
        rank = 0
        for d, x in zip(dims, c): rank = rank*d + x
        return FakeCart(dims, rank)

class FakeComm:
    """With a dict `world`, the same program run once for every rank records its contributions to sums; run again, it gets the sums."""
    def __init__(self, size, rank, world=None):
        self.size, self.rank, self.world, self.calls = size, rank, world, 0
    def Get_size(self): return self.size
    def Get_rank(self): return self.rank
    def Create_cart(self, dims, **kw):
        return FakeCart(dims, self.rank)
    def allreduce(self, x, op=None): return x   # totals over processes are not available
    def Allreduce(self, send, recv, op=None):
        from mpi4py import MPI
        assert op is MPI.SUM
        got = self.world.setdefault(self.calls, {})
        self.calls += 1
        if self.rank not in got: got[self.rank] = np.array(send)
        recv[...] = sum(got[r] for r in sorted(got))
