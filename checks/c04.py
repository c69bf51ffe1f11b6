"""C04: transposes leave every process with exactly its slice of the same global array.

Every pair of adjacent layouts related by a transpose is exercised on real MPI processes, forwards and backwards, for every
small shape, mesh, data type, tensor rank, set of scales and transpose library, with single fields and with all small groups
of fields. The data name their own global position, so that a misplaced element shows bit for bit."""
import itertools
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of shapes, meshes, layouts, libraries and groups of fields on the implementation under MPI, against the global array"
NOTE = "Transposes are deterministic and collective, so that one schedule per configuration stands for all of them (the matching of the collectives on all schedules is decided in C06). Each process checks its own part against the block distribution computed independently from mesh coordinates."
BOUND = {"quick": "1 to 4 processes (2D: every mesh; 3D: every mesh of up to 2 axes, 6 processes on (2,3)/(3,2); 4D: mesh (2,2,2)), sizes up to 7 (2D) and a covering set of sizes (3D, 4D), real and complex Fourier, Chebyshev and constant axes, scales {1, 3/2, 1/2, mixed}, ranks 0..2, all sequences of up to 2 fields and selected groups of up to 5 out of a menu of 7, both libraries, in and out of place",
         "thorough": "sizes 1..9, 5 to 8 processes, all ordered groups of up to 3 fields"}
ASSUMPTIONS = ["FFTW and MPI move the bytes they are told to move"]
TIMEOUT = 850

WORKERS = 4
VARIANTS = {"FFTW": 1, "MPI": 2, "FFTW in place": 7, "FFTW measured": 6}

SIZES = {"C": {1: (1, 2, 3, 5, 7), 2: (1, 2, 3, 4, 5, 6, 7, 8, 9)}, "F": {1: (2, 4, 6), 2: (2, 4, 6, 8, 10)}, "R": {1: (4, 8), 2: (4, 8, 12)}, "-": {1: (1,), 2: (1,)}}

def factor(n, k):
    """Ordered factorizations of n into k factors."""
    if k == 1: return [(n,)]
    return [(d,) + r for d in range(1, n + 1) if n % d == 0 for r in factor(n // d, k - 1)]

def jobs(n, tier):
    t = 2 if tier == "thorough" else 1
    out = []
    for kinds in ["CC", "FC", "RC", "RR", "CF", "CR", "C-", "-C"]:
        shapes = itertools.product(*[SIZES[k][t] for k in kinds])
        for s in shapes: out.append(dict(kinds=kinds, shape=s, mesh=(n,)))
    meshes = {m for k in (1, 2) for m in factor(n, k)}
    S3 = [(4, 4, 3), (6, 4, 5), (2, 4, 1)] if t == 1 else [(a, b, c) for a in (2, 4, 6) for b in (4, 8) for c in (1, 2, 3, 5)]
    for m in sorted(meshes):
        for kinds in ["FRC", "CCC", "RRR", "F-C", "-CC"]:
            for s in S3:
                s = tuple(1 if k == "-" else (x if k == "C" else 4*(-(-x // 4)) if k == "R" else 2*(-(-x // 2))) for k, x in zip(kinds, s))
                out.append(dict(kinds=kinds, shape=s, mesh=m))
    if n in (1, 4, 8):
        for m in [m for m in factor(n, 3)]:
            for s in [(4, 3, 2, 5), (2, 1, 4, 3)]: out.append(dict(kinds="CCCC", shape=s, mesh=m))
    seen = set()
    return [j for j in out if not (repr(j) in seen or seen.add(repr(j)))]

def cases(tier, seed):
    out = []
    for n in ([1, 2, 3, 4, 6, 8] if tier == "quick" else range(1, 9)):
        J = jobs(n, tier)
        if n == 6 and tier == "quick": J = [j for j in J if len(j["kinds"]) == 3 and sorted(j["mesh"]) == [2, 3]]
        if n == 8 and tier == "quick": J = [j for j in J if len(j["kinds"]) == 4 and sorted(j["mesh"]) == [2, 2, 2]]
        for lib in VARIANTS:
            K = J[::VARIANTS[lib]]
            per = 45 if n < 5 else 12
            for i in range(0, len(K), per): out.append(dict(n=n, lib=lib, part=[i, i + per]))
    return out

def run_case(case, rec):
    from mc import mpi
    J = jobs(case["n"], rec.tier)
    if case["n"] == 6 and rec.tier == "quick": J = [j for j in J if len(j["kinds"]) == 3 and sorted(j["mesh"]) == [2, 3]]
    if case["n"] == 8 and rec.tier == "quick": J = [j for j in J if len(j["kinds"]) == 4 and sorted(j["mesh"]) == [2, 2, 2]]
    J = J[::VARIANTS[case["lib"]]][case["part"][0]:case["part"][1]]
    mpi.into(rec, case["n"], "checks.c04", "run", [dict(j, lib=case["lib"]) for j in J], timeout=400, label=case["lib"])

def run(case, rec, comm):
    import dedalus.public as d3
    from dedalus.core import distributor as D, transposes as T
    D.TransposePlanner = T.AlltoallvTranspose if case["lib"] == "MPI" else T.FFTWTranspose
    T.IN_PLACE = case["lib"] == "FFTW in place"
    T.PLANNING_RIGOR = "FFTW_MEASURE"[5:] if case["lib"] == "FFTW measured" else "ESTIMATE"
    kinds, shape, mesh = case["kinds"], tuple(case["shape"]), tuple(case["mesh"])
    dim = len(kinds)
    coords = d3.CartesianCoordinates(*"wxyz"[:dim])
    dist = d3.Distributor(coords, comm=comm, mesh=mesh, dtype=np.float64)
    # Cartesian numbering of processes
    full = tuple(mesh) + (1,)*(dim - len(mesh))
    mycoords = np.unravel_index(comm.rank, full)
    rec.check(tuple(dist.comm_coords) == tuple(c for c, m in zip(mycoords, full) if m > 1), "coords", f"process {comm.rank} has coordinates {tuple(dist.comm_coords)}")
    def bases(ks, dtype, alt=False):
        out = []
        for k, N, c in zip(ks, shape, coords.coords):
            if k == "C": out.append((d3.ChebyshevT if not alt else d3.Legendre)(c, N, bounds=(0, 1)))
            elif k == "F": out.append(d3.ComplexFourier(c, N, bounds=(0, 1)))
            elif k == "R": out.append(d3.RealFourier(c, N, bounds=(0, 1)))
        return tuple(out)
    rdt = np.complex128 if "F" in kinds else np.float64
    other = rdt if ("F" in kinds or "R" in kinds) else np.complex128
    B = bases(kinds, rdt)
    menu = []       # (bases, dtype, tensor signature, scales)
    menu.append((B, rdt, (), 1))
    menu.append((B, rdt, (coords,), 1))
    menu.append((B, rdt, (coords, coords), 1.5))
    menu.append((B, other, (), 1) if other != rdt else (B, rdt, (), 1))
    menu.append((B[:-1] or None, rdt, (), 1))
    menu.append((B, other, (coords,), tuple([1.5, 0.5, 1, 2][:dim])))
    menu.append((None, rdt, (coords,), 1))
    def make(i, k):
        b, dt, ts, sc = menu[i]
        f = dist.Field(bases=b, tensorsig=ts, dtype=dt)
        f.preset_scales(sc)
        return f, k
    groups = [(i,) for i in range(len(menu))]
    if rec.tier == "thorough": groups += [g for r in (2, 3) for g in itertools.product(range(len(menu)), repeat=r)]
    else: groups += list(itertools.product(range(len(menu)), repeat=2)) if dim == 2 and sum(shape) % 5 == 0 else [(0, 0), (0, 1), (1, 0), (0, 3), (3, 0), (0, 2), (0, 4), (4, 0), (5, 1), (6, 0), (2, 2)]
    groups += [(0, 1, 2, 3, 4), (3, 1, 0), (0, 3, 1), (5, 0, 1, 0), (6, 4, 6)]
    start_of = {}
    def expected(layout, f, k):
        """This process' part of the global array, by block distribution of chunks over the mesh."""
        gs = layout.global_shape(f.domain, f.scales)
        chunk = f.domain.chunk_shape(layout)
        sl, m = [], 0
        # mesh axes are assigned in order to the distributed axes
        dims = [x for x in full if x > 1]; cs = [c for c, x in zip(mycoords, full) if x > 1]
        for ax in range(dim):
            if layout.local[ax]: sl.append(np.arange(gs[ax])); continue
            blocks = -(-gs[ax] // chunk[ax]); per = -(-blocks // dims[m])
            lo, hi = cs[m]*per*chunk[ax], (cs[m] + 1)*per*chunk[ax]
            sl.append(np.arange(min(lo, gs[ax]), min(hi, gs[ax]))); m += 1
        lin = np.arange(int(np.prod(gs)), dtype=np.float64).reshape(gs)[np.ix_(*sl)]
        ts = tuple(c.dim for c in f.tensorsig)
        comp = np.arange(int(np.prod(ts)), dtype=np.float64).reshape(ts + (1,)*dim)
        out = 1 + lin + 2**17*comp + 2**22*k
        if f.dtype == np.complex128: out = out - 1j*(out + 0.25)
        return out
    paths = [p for p in dist.paths if isinstance(p, D.Transpose)]
    for pi, p in enumerate(paths):
        for mode in ("group", "ungrouped", "sync"):
            D.GROUP_TRANSPOSES = mode != "ungrouped"
            D.SYNC_TRANSPOSES = mode == "sync"
            for g in (groups if mode == "group" else groups[-5:]):
                fs = [make(i, k) for k, i in enumerate(g)]
                for f, k in fs:
                    f.preset_layout(p.layout0)
                    f.data[...] = expected(p.layout0, f, k)
                    rec.step(2)
                label = f"transpose {pi} ({p.layout0.index}->{p.layout1.index}) of {mode} {g}"
                for step in ("backward", "forward", "backward again"):
                    to = p.layout0 if step == "forward" else p.layout1
                    (p.decrement if step == "forward" else p.increment)([f for f, k in fs])
                    for f, k in fs:
                        E = expected(to, f, k)
                        rec.check(f.layout is to, "layout", f"{label}, {step}: layout {f.layout.index}, not {to.index}")
                        rec.check(f.data.shape == E.shape and bool((f.data == E).all()), "slice", f"{label}, {step}: field {k} of shape {f.data.shape} differs" + (f" at {np.argwhere(f.data != E)[:3].tolist()}" if f.data.shape == E.shape else f" from shape {E.shape}"))
                rec.evals += 1
                rec.nontriv()
    D.GROUP_TRANSPOSES, D.SYNC_TRANSPOSES = True, False
    rec.trace()
