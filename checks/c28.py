"""C28: global reductions and flow properties summarize the whole domain.

(1) Every division of small arrays among 1 to 4 processes, empty parts included, is reduced on real MPI processes. (2) Flow
properties of every domain and mesh are queried in every order, with evaluations in between, and compared with the global
data at the latest evaluation; the integrals are compared with quadratures computed here."""
import itertools, json, math, types
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of divisions of data among real MPI processes and of all query/evaluation histories up to a depth, against the global data"
NOTE = "Reductions are collective and deterministic, one schedule per configuration stands for all. A history is a word over {evaluate with new data, change the data without evaluating, min, max, grid average, volume integral, the same of a second property}."
BOUND = {"quick": "1 to 4 processes, arrays of up to 4 elements divided in every way, 6 data patterns with infinities and complex values; 12 domains on all meshes, all histories of 3 operations (2 on the larger meshes) out of 9, cadences 1 and 2",
         "thorough": "histories of 4, 5 and 6 processes, arrays of up to 6 elements"}
ASSUMPTIONS = ["minimum and maximum are asked of real data", "the volume average and integrals over spheres are not implemented (they raise NotImplementedError) and are left out"]
TIMEOUT = 800
WORKERS = 4

DOMAINS = [("rf", "float64"), ("rf_cheb", "float64"), ("cf_cheb", "complex128"), ("rf_leg", "float64"), ("rf_rf_cheb", "float64"), ("disk", "float64"), ("annulus", "complex128"), ("sphere", "float64"), ("ball", "float64"), ("shell", "float64"), ("ball", "complex128"), ("cyl", "float64"), ("rf_none", "float64")]
DIM = {"rf": 1, "rf_rf_cheb": 3, "ball": 3, "shell": 3, "cyl": 3}
SHAPES = {1: (4,), 2: (4, 5), 3: (4, 4, 4)}

def meshes(n, d):
    if d == 1: return [()] if n == 1 else []
    if n == 1: return [()]
    if d == 2: return [(n,)]
    return [(n,), (1, n)] + [(a, n // a) for a in (2, 3) if n % a == 0 and n // a > 1]

def cases(tier, seed):
    th = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4) + ((5, 6) if th else ()):
        out.append(dict(n=n, jobs=[dict(t="arrays", size=k) for k in range(0, 7 if th else 5)]))
        jobs = [dict(t="flow", name=nm, dtype=dt, mesh=m, depth=(4 if n < 4 else 3) if th else 3 if n == 1 or nm in ("rf_cheb", "ball") and m == meshes(n, DIM.get(nm, 2))[-1] and c == 1 else 2, cadence=c) for nm, dt in DOMAINS for m in meshes(n, DIM.get(nm, 2)) for c in ((1, 2) if nm in ("rf_cheb", "ball") else (1,))]
        out += [dict(n=n, jobs=jobs[i::3]) for i in range(3)]
    return out

def run_case(case, rec):
    from mc import mpi
    mpi.into(rec, case["n"], "checks.c28", "one", case["jobs"], timeout=700, label=case["jobs"][0]["t"])
    rec.trace()
    rec.nontriv()

def one(job, rec, comm):
    import logging, dedalus.public, warnings
    logging.disable(logging.CRITICAL)
    globals()[job["t"]](job, rec, comm)

def same(rec, comm, x, key, msg):
    """The value is the same on all processes."""
    xs = comm.allgather(complex(x))
    ok = all(y == xs[0] or (y != y and xs[0] != xs[0]) for y in xs)
    rec.check(ok, key, f"{msg}: differs between processes: {xs}")
    return ok

PATTERNS = [lambda k: [float(i + 1) for i in range(k)], lambda k: [-float(i + 1) for i in range(k)], lambda k: [(-1.0)**i * (2 + i) for i in range(k)], lambda k: [0.0] * k,
            lambda k: [math.inf if i == 1 else -3.0 + i for i in range(k)], lambda k: [complex(i, 1 - i) for i in range(k)]]

def arrays(job, rec, comm):
    from dedalus.extras.flow_tools import GlobalArrayReducer
    from mpi4py import MPI
    n, rank, k = comm.size, comm.rank, job["size"]
    R = GlobalArrayReducer(comm)
    for cuts in itertools.combinations_with_replacement(range(k + 1), n - 1):
        b = (0,) + cuts + (k,)
        for ip, pat in enumerate(PATTERNS):
            x = np.array(pat(k), dtype=complex if ip == 5 else float)
            mine = x[b[rank]:b[rank+1]]
            for shape in ((-1,), (-1, 1)):
                part = mine.reshape((mine.size,) + (1,) * (len(shape) - 1))
                label = f"{list(x)} divided at {b}"
                if ip != 5:
                    # the requested value for nothing is the identity of the reduction
                    for what, got, want in (("min", R.global_min(part), x.min() if k else np.inf), ("max", R.global_max(part), x.max() if k else -np.inf),
                                            ("min with default", R.global_min(part, empty=100.0), min([100.0] * any(b[i] == b[i+1] for i in range(n)) + list(x))),
                                            ("sum", R.reduce_scalar(part.sum(), MPI.SUM), x.sum()), ("product", R.reduce_scalar(part.prod(), MPI.PROD), x.prod())):
                        rec.check(got == want or abs(got - want) < 1e-12 * abs(want) or (got != got and want != want), "reduce " + what.split(" ")[0], f"{what} of {label} is {got}, expected {want}")
                        same(rec, comm, got, "reduce same", f"{what} of {label}")
                        rec.evals += 1
                if k:
                    RR = GlobalArrayReducer(comm, dtype=complex) if ip == 5 else R
                    got = RR.global_mean(part)
                    rec.check(got == x.mean() or abs(got - x.mean()) < 1e-12, "reduce mean", f"mean of {label} is {got}, expected {x.mean()}")
                    same(rec, comm, got, "reduce same", f"mean of {label}")
                    rec.evals += 1
                rec.step()
        rec.trace()

# Flow properties

def nodes_weights(b, G):
    """Grid quadrature of one basis: weights on its global grid at scale 1, one array per axis; products of them integrate."""
    import dedalus.public as d3
    from scipy.special import roots_jacobi
    def gauss_on(z, w):
        """Weights on nodes z which integrate polynomials against w."""
        from scipy.special import eval_legendre
        x, g = np.polynomial.legendre.leggauss(2 * len(z) + 4)
        V = np.array([eval_legendre(j, z) for j in range(len(z))])
        m = np.array([np.sum(g * w(x) * eval_legendre(j, x)) for j in range(len(z))])
        return np.linalg.solve(V, m)
    az = lambda N: np.full(N, 2 * np.pi / N)
    if isinstance(b, (d3.RealFourier, d3.ComplexFourier)):
        return [np.full(G[0], (b.bounds[1] - b.bounds[0]) / G[0])]
    if isinstance(b, d3.Jacobi):
        z = np.sort(roots_jacobi(G[0], b.a, b.b)[0])
        return [gauss_on(z, lambda x: (b.bounds[1] - b.bounds[0]) / 2 + 0*x)]
    if isinstance(b, d3.DiskBasis):
        z = np.sort(roots_jacobi(G[1], b.alpha, 0)[0])
        return [az(G[0]), gauss_on(z, lambda x: b.radius**2 / 4 + 0*x)]          # r dr = R^2 dz / 4
    ann = lambda p: (lambda x: (b.radii[1] - b.radii[0]) / 2 * ((b.radii[0] + b.radii[1]) / 2 + (b.radii[1] - b.radii[0]) / 2 * x)**p)
    if isinstance(b, d3.AnnulusBasis):
        z = np.sort(roots_jacobi(G[1], *b.alpha)[0])
        return [az(G[0]), gauss_on(z, ann(1))]
    def colat(N):
        x, w = np.polynomial.legendre.leggauss(N)
        return w[::-1]
    if isinstance(b, d3.SphereBasis):
        return [az(G[0]), colat(G[1]) * b.radius**2]
    if isinstance(b, d3.BallBasis):
        z, w = roots_jacobi(G[2], b.alpha, 0.5)
        return [az(G[0]), colat(G[1]), w * b.radius**3 / 2**2.5]                # r^2 dr, r = R sqrt((1+z)/2)
    if isinstance(b, d3.ShellBasis):
        z = np.sort(roots_jacobi(G[2], *b.alpha)[0])
        return [az(G[0]), colat(G[1]), gauss_on(z, ann(2))]

def integral(S, bases, g):
    """Integral of global grid data at scale 1."""
    g = np.array(g)
    for b in bases:
        ax = S.dist.first_axis(b)
        W = nodes_weights(b, g.shape[ax:ax+b.dim] if ax + b.dim <= g.ndim else None)
        for i, w in enumerate(W):
            g = np.sum(g * np.reshape(w, [-1 if k == ax + i else 1 for k in range(g.ndim)]), axis=ax + i, keepdims=True)
    return g.ravel()[0]

OPS = ["evaluate", "change", "min u", "max u", "mean u", "int u", "int p", "mean q", "max c"]

def flow(job, rec, comm):
    import dedalus.public as d3
    from dedalus.core.evaluator import Evaluator
    from dedalus.extras.flow_tools import GlobalFlowProperty
    from mpi4py import MPI
    from mc import spaces
    d = DIM.get(job["name"], 2)
    shape = SHAPES[d] if job["name"] not in ("disk", "annulus", "cyl") else (4, 4) if d == 2 else (4, 4, 4)
    mesh = tuple(job["mesh"])
    S = spaces.make(job["name"], job["dtype"], shape=shape, comm=comm, mesh=mesh or None)
    cplx = np.dtype(S.dtype).kind == "c"
    rng = np.random.default_rng(rec.seed + 10)
    u = S.dist.Field(bases=S.bases, name="u")
    c = S.dist.Field(bases=S.bases[-1] if len(S.bases) > 1 else (), name="c")
    dist = S.dist
    S1 = spaces.make(job["name"], job["dtype"], shape=shape, comm=MPI.COMM_SELF, mesh=())
    u1 = S1.dist.Field(bases=S1.bases); c1 = S1.dist.Field(bases=S1.bases[-1] if len(S1.bases) > 1 else ())
    datasets = []
    for k in range(4):
        row = []
        for f in (u1, c1):
            f["c"] = spaces.random_coeffs(f, rec.seed + 20 + k) 
            g = f["g"].copy(); f["g"] = g; f["c"]
            row.append(f["g"].copy())
        datasets.append(row)
    def put(f, data):
        f.preset_scales(1); f.preset_layout(dist.grid_layout)
        f.data[:] = data[np.ix_(*dist.grid_layout.local_elements(f.domain, scales=1))]
    def try_int():
        try:
            d3.Integrate(u); return True
        except NotImplementedError: return False
    has_int = try_int()
    label = json.dumps(job)
    solver = types.SimpleNamespace(dist=dist, evaluator=Evaluator(dist, {}), iteration=0)
    flow = GlobalFlowProperty(solver, cadence=job["cadence"])
    flow.add_property(u, name="u")
    flow.add_property(3*u if cplx else u*u, name="q")
    flow.add_property(2*u, name="p", precompute_integral=has_int)
    flow.add_property(c, name="c")
    h = flow.properties
    def resolved(x):
        """Outputs are truncated to the resolved modes."""
        u1["g"] = x; u1["c"]
        return u1["g"].copy()
    prop = {"u": lambda a, b: a, "q": (lambda a, b: 3*a) if cplx else (lambda a, b: resolved(a*a)), "p": lambda a, b: 2*a, "c": lambda a, b: b}
    ubase, cbase = S1.bases, (S1.bases[-1:] if len(S1.bases) > 1 else ())
    queries = {"min": flow.min, "max": flow.max, "mean": flow.grid_average, "int": flow.volume_integral}
    values = {}
    def want(op, which):
        if (op, which) not in values:
            kind, name = op.split(" ")
            x = prop[name](*datasets[which])
            values[op, which] = (np.min(x.real) if kind == "min" else np.max(x.real) if kind == "max" else np.mean(x) if kind == "mean" else integral(S1, cbase if name == "c" else ubase, x))
        return values[op, which]
    ops = [o for o in OPS if not (cplx and o[:3] in ("min", "max")) and not (o.startswith("int") and not has_int)]
    def evaluate(it):
        solver.evaluator.evaluate_scheduled(iteration=it, wall_time=0., sim_time=0., timestep=0.1)
    for word in itertools.product(ops, repeat=job["depth"]):
        h.last_iter_div = -1
        it, now, seen = 0, 0, 0
        put(u, datasets[0][0]); put(c, datasets[0][1])
        evaluate(0)
        for k, op in enumerate(word):
            if op == "change":
                now = (now + 1) % 4
                put(u, datasets[now][0]); put(c, datasets[now][1])
            elif op == "evaluate":
                now = (now + 1) % 4; it += 1
                put(u, datasets[now][0]); put(c, datasets[now][1])
                evaluate(it)
                if it % job["cadence"] == 0: seen = now
            else:
                kind, name = op.split(" ")
                got = queries[kind](name)
                w = want(op, seen)
                rec.evals += 1
                rec.check(abs(got - w) <= 1e-9 * (1 + abs(w)), f"flow {kind}", f"{label}: {op} after {word[:k]} is {got}, expected {w}")
                same(rec, comm, got, "flow same", f"{label}: {op}")
            rec.step()
        rec.trace()
        if rec.nviol > 6: return
