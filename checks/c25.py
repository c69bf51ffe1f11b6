"""C25: seeded random fields do not depend on the decomposition.

(1) Random arrays: every slice of every small global array, with every chunk size, against one unbroken stream. (2) Fields:
every process of every mesh (topology answers come from a stand-in communicator; no communication takes place), in every
layout, scale, and tensor rank, against the global stream; a subset on real MPI processes. (3) Low and high pass filters:
every mode, for every truncation, in every layout."""
import itertools, json
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of slices, chunk sizes, decompositions, layouts, and truncations on the implementation, against the unbroken random stream and the set of requested modes"
NOTE = "Filling takes no communication, so that the processes of a mesh can be run one after another. Data are compared bit for bit."
BOUND = {"quick": "arrays of up to 24 elements in 1 to 3 dimensions, all slices and chunk sizes, 7 distributions; 14 domains, all meshes of up to 6 processes, all layouts, 3 scales, ranks 0 to 2; filters: 14 domains, all truncations of every axis",
         "thorough": "arrays of up to 60 elements; meshes of up to 9 processes"}
ASSUMPTIONS = ["the generators of numpy draw the same stream in pieces (checked for each distribution)", "modes of curvilinear bases that do not survive a round trip to the grid are not judged"]
TIMEOUT = 800

DISTS = [("standard_normal", {}), ("uniform", {}), ("uniform", dict(low=-1, high=3)), ("normal", dict(loc=2.0, scale=0.1)), ("standard_exponential", {}), ("integers", dict(low=-3, high=100)), ("exponential", dict(scale=2.0))]
SHAPES = [(1,), (7,), (24,), (3, 4), (1, 5), (2, 3, 2), (3, 1, 4)]
SPACES = [("rf", "float64", (8,)), ("cf", "complex128", (6,)), ("cheb", "float64", (5,)), ("rf_cheb", "float64", (8, 5)), ("cf_cheb", "complex128", (6, 4)), ("rf_none", "float64", (8, 1)), ("cheb_rf", "float64", (3, 4)), ("rf_rf_cheb", "float64", (4, 8, 3)), ("cf_cf_cheb", "complex128", (4, 2, 3)),
          ("disk", "float64", (8, 6)), ("annulus", "complex128", (4, 4)), ("sphere", "float64", (8, 6)), ("ball", "float64", (8, 6, 4)), ("shell", "complex128", (4, 4, 4)), ("cyl", "float64", (4, 4, 4))]

def cases(tier, seed):
    th = tier == "thorough"
    out = [dict(t="arrays", shape=s, th=th) for s in SHAPES + ([(60,), (5, 4, 3), (2, 3, 2, 2)] if th else [])]
    for name, dt, shape in SPACES:
        out.append(dict(t="fields", name=name, dtype=dt, shape=shape, n=9 if th else 6))
        out.append(dict(t="filters", name=name, dtype=dt, shape=shape))
    for n in (2, 4):
        out.append(dict(t="mpi", n=n, jobs=[dict(name=nm, dtype=dt, shape=sh, mesh=m) for nm, dt, sh in SPACES if len(sh) > 1 for m in ([(n,)] if len(sh) == 2 else [(n,), (1, n)] + ([(2, 2)] if n == 4 else []))]))
    return out

def run_case(case, rec):
    import logging, dedalus.public
    logging.disable(logging.CRITICAL)
    globals()["t_" + case["t"]](case, rec)
    rec.nontriv()

def stream(shape, seed, dist, kw):
    return getattr(np.random.default_rng(seed), dist)(size=int(np.prod(shape)), **kw).reshape(shape)

def t_arrays(case, rec):
    from dedalus.tools.random_arrays import ChunkedRandomArray, rng_element, rng_elements
    shape = tuple(case["shape"])
    size = int(np.prod(shape))
    def slices(n):
        ends = sorted(set(range(n + 1))) if n < 8 else [0, 1, 2, n // 2, n - 1, n]
        out = [slice(a, b) for a in ends for b in ends if a <= b] + [slice(None), slice(-1, None)]
        return out if len(shape) < 3 else out[::2] + out[-2:]
    for dist, kw in DISTS:
        for seed in (0, 1, 12345):
            full = stream(shape, seed, dist, kw)
            for chunk in range(1, size + 3):
                if seed and chunk not in (1, 3, size): continue
                A = ChunkedRandomArray(shape, seed, chunk, dist, **kw)
                label = f"{dist}{kw} seed {seed} chunk {chunk} shape {shape}"
                for key in itertools.product(*[slices(n) for n in shape]):
                    got = A[key]
                    rec.step(); rec.evals += 1
                    want = full[key]
                    rec.check(got.shape == want.shape and got.dtype == want.dtype and np.array_equal(got, want), "slice", f"{label}: slice {key} differs from the stream")
                rec.check(np.array_equal(A[0:1], full[0:1]), "partial key", f"{label}: trailing axes left out")
                for i in range(size):
                    rec.check(rng_element(i, seed, chunk, dist, **kw) == full.ravel()[i], "element", f"{label}: element {i}")
                for idx in ([size - 1, 0], [0, size - 1, size // 2, size // 2], [size // 3]):
                    rec.check(np.array_equal(rng_elements(idx, seed, chunk, dist, **kw), full.ravel()[idx]), "elements", f"{label}: elements {idx}")
                rec.trace()
            rec.state((shape, dist, seed))
        if dist != "integers" and size > 3:
            a, b = (ChunkedRandomArray(shape, s, 5, dist, **kw)[:] for s in (0, 1))
            rec.check(not np.any(a == b), "seeds", f"{dist}: seeds 0 and 1 give common values")
            a, b = (ChunkedRandomArray(shape, None, 5, dist, **kw)[:] for s in (0, 1))
            rec.check(not np.any(a == b), "seeds", f"{dist}: arrays without a seed have common values")

def meshes(n, d):
    out = [m for k in range(1, d) for m in itertools.product(range(1, n + 1), repeat=k) if np.prod(m) <= n and np.prod(m) > 1]
    return [()] + out

def fill_cases(S, d):
    """(rank, layout argument, scales argument)"""
    scs = [1, 1.5, tuple([1.5, 1, 0.5][:d])]
    for rank in ((0, 1, 2) if S.vec is not None else (0,)):
        for lay in [None, "c", "g"] + list(range(len(S.dist.layouts))):
            for sc in [None] + scs:
                yield rank, lay, sc

def fill_check(S, rec, label, ref, quick=False):
    d = S.dist.dim
    bases_sets = [S.bases] + ([S.bases[-1:]] if len(S.bases) > 1 else [])
    for ib, bs in enumerate(bases_sets):
        for k, (rank, lay, sc) in enumerate(fill_cases(S, d)):
            if (ib or quick) and k % 3: continue
            f = S.field(rank, bases=bs)
            start = k % len(S.dist.layouts)
            f.preset_layout(S.dist.layouts[start])
            layout = S.dist.layouts[lay] if isinstance(lay, int) else lay
            dist, kw = DISTS[:5][k % 5]
            chunk = [1, 3, 7, 2**20][k % 4]
            f.fill_random(layout, scales=sc, seed=42 + rank, chunk_size=chunk, distribution=dist, **kw)
            want_layout = S.dist.layouts[start] if lay is None else S.dist.coeff_layout if lay == "c" else S.dist.grid_layout if lay == "g" else S.dist.layouts[lay]
            scales = S.dist.remedy_scales(sc)
            rec.check(f.layout is want_layout, "layout", f"{label}: fill_random({lay}, {sc}) leaves the field in layout {f.layout.index}, expected {want_layout.index}")
            rec.check(tuple(f.scales) == tuple(scales), "scales", f"{label}: fill_random({lay}, {sc}) gives scales {f.scales}")
            shape = (tuple(c.dim for c in f.tensorsig) + tuple(want_layout.global_shape(f.domain, scales)))
            cplx = np.dtype(S.dtype).kind == "c"
            key = (shape, rank, dist, str(kw))
            if key not in ref:
                g = stream(shape + ((2,) if cplx else ()), 42 + rank, dist, kw)
                ref[key] = g[..., 0] + 1j*g[..., 1] if cplx else g
            el = want_layout.local_elements(f.domain, scales)
            want = ref[key][(slice(None),) * rank + np.ix_(*el)]
            rec.step(); rec.evals += 1
            ok = f.data.shape == want.shape and f.data.dtype == np.dtype(S.dtype) and np.array_equal(f.data, want)
            rec.check(ok, "fill", f"{label}: rank {rank}, layout {lay}, scales {sc}, {dist}: local data differ from the global stream")
    rec.trace()

def t_fields(case, rec):
    from mc import spaces, fakempi
    d = len(case["shape"])
    ref = {}
    for mesh in meshes(case["n"], d):
        size = int(np.prod(mesh)) if mesh else 1
        seen = {}
        for rank in range(size):
            try:
                S = spaces.make(case["name"], case["dtype"], tuple(case["shape"]), dealias=1.5, comm=fakempi.FakeComm(size, rank), mesh=mesh)
            except Exception as e:
                if rank == 0 and "mesh" in str(e).lower(): break
                raise
            rec.state((case["name"], mesh, rank))
            fill_check(S, rec, f"{case['name']} mesh {mesh} process {rank}", ref, quick=size > 4)
            # the parts of all processes make up the array
            f = S.field(0)
            for lay in S.dist.layouts:
                for idx in itertools.product(*lay.local_elements(f.domain, (1,) * d)):
                    seen.setdefault(lay.index, []).append(idx)
        for l, idxs in seen.items():
            gs = S.dist.layouts[l].global_shape(f.domain, (1,) * d)
            rec.check(sorted(idxs) == sorted(itertools.product(*[range(n) for n in gs])), "cover", f"{case['name']} mesh {mesh} layout {l}: the processes do not hold every element once")

def t_mpi(case, rec):
    from mc import mpi
    mpi.into(rec, case["n"], "checks.c25", "one", case["jobs"], timeout=700, label="random")

def one(job, rec, comm):
    import logging, dedalus.public
    logging.disable(logging.CRITICAL)
    from mc import spaces
    S = spaces.make(job["name"], job["dtype"], tuple(job["shape"]), dealias=1.5, comm=comm, mesh=tuple(job["mesh"]))
    fill_check(S, rec, json.dumps(job), {})
    # the same in all the other layouts: transforms of random data agree with those of one process
    from mpi4py import MPI
    S1 = spaces.make(job["name"], job["dtype"], tuple(job["shape"]), dealias=1.5, comm=MPI.COMM_SELF, mesh=())
    for lay in ("c", "g"):
        f, f1 = S.field(1), S1.field(1)
        f.fill_random(lay, seed=3); f1.fill_random(lay, seed=3)
        f.low_pass_filter(scales=0.5); f1.low_pass_filter(scales=0.5)
        for l in ("g", "c"):
            a, b = f.allgather_data(l), f1.allgather_data(l)
            rec.close(a, b, "filter mpi", f"{json.dumps(job)}: random data in layout {lay}, filtered, seen in {l}")

# Filters

def kept(basis, kind, n, s):
    """Mask over the coefficients along one axis of an interval basis of n modes: those that a grid of scale s resolves."""
    G = int(np.ceil(s * n)) if n > 1 else 1
    import dedalus.public as d3
    N = min(G, n)
    if isinstance(basis, d3.RealFourier):
        k = np.arange(n) // 2
        return k <= (N - 1) // 2
    if isinstance(basis, d3.ComplexFourier):
        k = np.where(np.arange(n) <= (n - 1) // 2, np.arange(n), np.arange(n) - n)
        return np.abs(k) <= (N - 1) // 2
    return np.arange(n) < N

def t_filters(case, rec):
    import dedalus.public as d3
    from mc import spaces
    name, shape = case["name"], tuple(case["shape"])
    d = len(shape)
    cart = name in spaces.CART
    S = spaces.make(name, case["dtype"], shape, dealias=1.5)
    axes = [k for b in S.bases for k in range(S.dist.first_axis(b), S.dist.first_axis(b) + b.dim)]
    menu = []
    for k in range(d):
        n = shape[k]
        menu.append([1] if k not in axes or n == 1 else sorted({j / n for j in range(1, n + 1)} | {1.5}))
    for rank in (0, 1):
        f = S.field(rank)
        f["c"] = spaces.random_coeffs(f, rec.seed + 1)
        g = f["g"].copy(); f["g"] = g
        x = f["c"].copy()                       # modes that survive a round trip
        allscales = list(itertools.product(*menu)) if np.prod([len(m) for m in menu]) < 120 else [tuple(1 if i != k else s for i in range(d)) for k in range(d) for s in menu[k]] + list(zip(*[[m[0], m[len(m)//2], m[-1]] for m in menu]))
        for sc in allscales:
            for how in ("scales", "shape"):
                for lay, s0 in (("c", 1), ("g", 1.5), ("g", 1)):
                    if how == "shape":
                        if any(s > 1 for s in sc): continue
                        arg = dict(shape=tuple(int(np.ceil(s * n - 1e-9)) for s, n in zip(sc, shape)))
                    else:
                        arg = dict(scales=sc)
                    label = f"{name} rank {rank}: filter {arg} from {lay} at scale {s0}"
                    def start():
                        f.change_scales(1); f["c"] = x; f.change_scales(s0); f[lay]
                    try:
                        start()
                        scales0 = f.scales
                        f.low_pass_filter(**arg)
                    except Exception as e:
                        if not cart: continue       # sizes a curvilinear basis does not have
                        rec.violate("filter fails", f"{label}: {type(e).__name__}: {e}"); continue
                    rec.check(tuple(f.scales) == tuple(scales0), "filter scales", f"{label}: scales {f.scales} afterwards, {scales0} before")
                    low = f["c"].copy()
                    rec.step(); rec.evals += 1
                    f.low_pass_filter(**arg)
                    if cart: rec.close(f["c"], low, "idempotent", f"{label}: filtering again changes the field")
                    if cart:
                        mask = np.ones(shape, dtype=bool)
                        for b in S.bases:
                            ax = S.dist.first_axis(b)
                            mask &= np.reshape(kept(b, None, shape[ax], sc[ax]), [-1 if i == ax else 1 for i in range(d)])
                        rec.close(low, x * mask, "low pass", f"{label}: kept modes", rtol=1e-11, atol=1e-12)
                    else:
                        # modes resolved in azimuth; nothing but truncation
                        b = S.bases[-1]
                        ax = S.dist.first_axis(b)
                        if all(s == 1 or i == ax for i, s in enumerate(sc)):
                            f.change_scales(1); f["c"] = x
                            G0 = np.fft.fft(f["g"], axis=rank + ax)
                            f["c"] = low
                            G1 = np.fft.fft(f["g"], axis=rank + ax)
                            n = G0.shape[rank + ax]
                            m = np.abs(np.fft.fftfreq(n, 1 / n))
                            top = (min(int(np.ceil(sc[ax] * shape[ax])), shape[ax]) - 1) // 2
                            want = G0 * np.reshape(m <= top, [-1 if i == rank + ax else 1 for i in range(G0.ndim)])
                            rec.close(G1, want, "low pass", f"{label}: kept azimuthal orders", rtol=1e-10, atol=1e-10)
                        if all(s >= 1 for s in sc):
                            rec.close(low, x, "no filter", f"{label}: a filter at full resolution changes the field", rtol=1e-10, atol=1e-11)
                    start()
                    f.high_pass_filter(**arg)
                    rec.close(f["c"], x - low, "high pass", f"{label}: removed modes", rtol=1e-10, atol=1e-11)
                    rec.trace()
            rec.state((name, rank, sc))
    f = S.field(0)
    try:
        f.low_pass_filter(shape=shape, scales=1)
        rec.violate("both", f"{name}: shape and scales together are accepted")
    except ValueError: pass
