"""C23: the adaptive timestep obeys its limits for every velocity history.

Three parts. (1) Every history of flow amplitudes over a menu, up to a depth, is explored as a tree of states of a real CFL
object driven by a real evaluator, for every combination of limits, against a reference of the documented rule. (2) The
grid-crossing frequency of every velocity component at every grid point is compared with spacings computed here, for every
coordinate system, basis, padding, data type, and decomposition. (3) Every set of registered velocities and frequencies."""
import itertools, json, math, types
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all amplitude histories of the implementation against a reference model, and exhaustive enumeration of components, grids, decompositions, and registered sets"
NOTE = "A state is (stored timestep, position in the cadence, amplitude); the tree of histories runs on the CFL object itself, restored between branches. Frequencies are linear in the magnitude at each point, so that one field with distinct values per point and component, and each component alone, stand for all fields."
BOUND = {"quick": "all histories of 6 steps over 5 amplitudes (with zero) for 160 combinations of limits, cadences 1 to 3 and initial iterations; 22 domains x 2 data types x 3 paddings; all subsets of 5 registrations; 1 to 4 processes",
         "thorough": "histories of 8 steps, 480 combinations"}
ASSUMPTIONS = ["where lower and upper limits contradict each other, the lower limits win, as written in the code", "the given timestep is returned until the first step after the initial one, as written in the code"]
TIMEOUT = 800

AMPS = (0.0, 0.5, 1.0, 3.0, 40.0)
LIMITS = [dict(), dict(safety=0.5), dict(max_dt=0.3), dict(min_dt=0.05), dict(max_change=1.5), dict(min_change=0.5), dict(max_change=1.5, min_change=0.5), dict(threshold=0.1), dict(threshold=0.6),
          dict(safety=0.4, max_dt=0.2, min_dt=0.01, max_change=2.0, min_change=0.25, threshold=0.05), dict(max_dt=0.1, min_change=0.5), dict(safety=2.0, max_change=1.0), dict(min_change=1.0), dict(threshold=1.0, min_dt=0.02), dict(max_dt=0.25, max_change=1.1, threshold=0.05),
          dict(safety=0.25, min_dt=0.3, max_dt=0.3)]

DOMAINS = [("rf", "float64"), ("cf", "complex128"), ("cheb", "float64"), ("leg", "float64"), ("ultra", "float64"), ("rf_cheb", "float64"), ("cf_cheb", "complex128"), ("cheb_rf", "float64"), ("none_cheb", "float64"), ("rf_none", "float64"),
           ("rf_rf_cheb", "float64"), ("rf_none_cheb", "float64"), ("cf_cf_cheb", "complex128"), ("cheb_cheb", "complex128"),
           ("disk", "float64"), ("disk", "complex128"), ("annulus", "float64"), ("annulus", "complex128"), ("sphere", "float64"), ("sphere", "complex128"), ("ball", "float64"), ("ball", "complex128"), ("shell", "float64"), ("shell", "complex128"),
           ("z*disk:rf", "float64"), ("z*disk:cheb", "float64"), ("disk*z:cheb", "float64"), ("disk*z:rf", "float64"), ("annulus*z:cheb", "complex128"), ("z*annulus:leg", "float64"), ("sphere*z:cheb", "float64"), ("z*sphere:cheb", "complex128"), ("xy*z:cheb", "float64"), ("z*xy:cheb", "float64")]
TINY = [("disk", (1, 4)), ("annulus", (1, 4)), ("rf", (1,)), ("rf_cheb", (1, 4)), ("sphere", (1, 1)), ("sphere", (1, 4)), ("ball", (1, 1, 4)), ("shell", (1, 1, 4)), ("cheb", (1,)), ("cheb", (2,)), ("leg", (2,)), ("rf_leg", (4, 2)), ("annulus", (4, 2)), ("shell", (4, 4, 2)), ("ball", (4, 4, 2)), ("disk", (4, 3))]

def cases(tier, seed):
    out = []
    deep = 6 if tier == "quick" else 8
    for k, lim in enumerate(LIMITS):
        for cadence in (1, 2, 3):
            out.append(dict(t="history", limits=lim, cadence=cadence, depth=deep, init=[(0.25, 0), (0.02, 0), (5.0, 7), (0.25, 4)][:None if tier == "thorough" else 2 + (cadence == 1)]))
    for name, dt in DOMAINS:
        out.append(dict(t="spacing", name=name, dtype=dt))
    out.append(dict(t="tiny"))
    for name in ("rf_cheb", "disk", "shell", "cf_cheb", "z*disk:cheb"):
        out.append(dict(t="sets", name=name))
    out.append(dict(t="loop"))
    for n in (2, 3, 4):
        jobs = [dict(name=nm, dtype=dt, mesh=m) for nm, dt in DOMAINS for m in meshes(n, nm)]
        jobs += [dict(sets=nm, mesh=m) for nm in ("rf_cheb", "disk", "shell", "z*disk:cheb") for m in meshes(n, nm)]
        out.append(dict(t="mpi", n=n, jobs=jobs))
    return out

def dim(name):
    if "*" in name: return 3
    from mc.spaces import CART
    return len(CART[name]) if name in CART else 2 if name in ("disk", "annulus", "sphere") else 3

def meshes(n, name):
    try: d = dim(name)
    except Exception: d = 3 if "*" in name or name in ("ball", "shell") else 2 if name in ("disk", "annulus", "sphere") else len(name.split("_"))
    if d == 1: return []
    if d == 2: return [(n,)]
    return [(n,), (1, n)] + ([(2, 2)] if n == 4 else [])

def make(name, dtype, shape=None, dealias=1, comm=None, mesh=None):
    """(space, list of (first component, kind, basis parameters) per coordinate system of the domain)."""
    import dedalus.public as d3
    from mc import spaces
    if "*" not in name:
        return spaces.make(name, dtype, shape, dealias, comm=comm, mesh=mesh)
    order, kind = name.split(":")
    dt = np.dtype(dtype).type
    kw = {k: v for k, v in (("comm", comm), ("mesh", mesh)) if v is not None}
    parts = order.split("*")
    css, n = [], 0
    for p in parts:
        css.append(d3.Coordinate("z") if p == "z" else d3.CartesianCoordinates("x", "y") if p == "xy" else d3.S2Coordinates("phi", "theta") if p == "sphere" else d3.PolarCoordinates("phi", "r"))
    cs = d3.DirectProduct(*css)
    dist = d3.Distributor(cs, dtype=dt, **kw)
    bases = []
    for p, c in zip(parts, css):
        if p == "z":
            k = ("cf" if kind == "rf" and dt is np.complex128 else kind)
            bases.append(spaces.cart_basis(k, c, 6 if k != "rf" else 4, dealias=dealias, bounds=(0, 3)))
        elif p == "xy":
            bases.append(spaces.cart_basis("rf", c["x"], 4, dealias=dealias, bounds=(0, 2)))
            bases.append(spaces.cart_basis("cheb", c["y"], 5, dealias=dealias, bounds=(0, 1)))
        elif p == "disk": bases.append(d3.DiskBasis(c, shape=(4, 4), dtype=dt, radius=1.5, dealias=(dealias,)*2))
        elif p == "annulus": bases.append(d3.AnnulusBasis(c, shape=(4, 4), dtype=dt, radii=(0.5, 1.5), dealias=(dealias,)*2))
        elif p == "sphere": bases.append(d3.SphereBasis(c, shape=(4, 4), dtype=dt, radius=1.5, dealias=(dealias,)*2))
    return spaces.Space(name, dt, cs, dist, tuple(bases), vec=cs)

# Reference spacings

def gradient(x):
    """Second-order differences (one-sided differences at the ends), from parabolas through three neighbours."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    if n == 1: return np.array([np.inf])
    if n == 2: return np.array([x[1] - x[0]] * 2)
    g = np.empty(n)
    g[1:-1] = (x[2:] - x[:-2]) / 2
    g[0] = (-3*x[0] + 4*x[1] - x[2]) / 2
    g[-1] = (3*x[-1] - 4*x[-2] + x[-3]) / 2
    return g

def jacobi_nodes(n, a, b):
    from scipy.special import roots_jacobi
    return np.sort(roots_jacobi(n, a, b)[0])

def interval_spacing(b, L, dealias, N):
    import dedalus.public as d3
    G = int(np.ceil(dealias * N)) if N > 1 else 1
    if isinstance(b, (d3.RealFourier, d3.ComplexFourier)):
        return np.full(G, L / G * dealias)
    if b.a == -1/2 and b.b == -1/2:
        return dealias * (L/2) * np.sin(np.pi * (np.arange(G) + 0.5) / G) * np.pi / G
    return dealias * gradient((L/2) * jacobi_nodes(G, b.a0 if hasattr(b, "a0") else b.a, b.b0 if hasattr(b, "b0") else b.b))

def along(x, axis, d):
    return np.reshape(x, [-1 if k == axis else 1 for k in range(d)])

def reference(S, u):
    """Frequencies of the global velocity data u (components first) on the padded grid."""
    import dedalus.public as d3
    d = S.dist.dim
    out = np.zeros(u.shape[1:])
    comp = {c: k for k, c in enumerate(S.vec.coords)}
    for b in S.bases:
        ax = S.dist.get_basis_axis(b)
        if isinstance(b, d3.DiskBasis) or isinstance(b, d3.AnnulusBasis):
            c0 = comp[b.coordsys.coords[0]]
            G = u.shape[1 + ax + 1]
            mmax = (b.shape[0] - 1) // 2
            if isinstance(b, d3.DiskBasis):
                r = np.sqrt((1 + jacobi_nodes(G, b.alpha, 0)) / 2) * b.radius
                daz = np.full(G, b.radius / mmax if mmax else np.inf)
            else:
                r = b.radii[0] + (b.radii[1] - b.radii[0]) * (1 + jacobi_nodes(G, *b.alpha)) / 2
                daz = r / mmax if mmax else np.full(G, np.inf)
            out = out + np.abs(u[c0]) / along(daz, ax + 1, d) + np.abs(u[c0 + 1]) / along(b.dealias[1] * gradient(r), ax + 1, d)
        elif isinstance(b, d3.SphereBasis):
            c0 = comp[b.coordsys.coords[0]]
            L = b.shape[1] - 1 if np.dtype(S.dtype).kind == "c" else max(0, b.shape[1] - 2)
            out = out + np.hypot(np.abs(u[c0]), np.abs(u[c0+1])) * np.sqrt(L * (L + 1)) / b.radius
        elif isinstance(b, (d3.BallBasis, d3.ShellBasis)):
            L = b.shape[1] - 1 if np.dtype(S.dtype).kind == "c" else max(0, b.shape[1] - 2)
            G = u.shape[3]
            if isinstance(b, d3.BallBasis):
                r = np.sqrt((1 + jacobi_nodes(G, b.alpha, 0.5)) / 2) * b.radius
                rr = np.full(G, b.radius)
            else:
                r = b.radii[0] + (b.radii[1] - b.radii[0]) * (1 + jacobi_nodes(G, *b.alpha)) / 2
                rr = r
            out = out + np.hypot(np.abs(u[0]), np.abs(u[1])) * np.sqrt(L * (L + 1)) / along(rr, 2, 3) + np.abs(u[2]) / along(b.dealias[2] * gradient(r), 2, 3)
        else:
            L = b.bounds[1] - b.bounds[0]
            out = out + np.abs(u[comp[b.coord]]) / along(interval_spacing(b, L, b.dealias[0], b.size), ax, d)
    return out

def velocities(S, u, seed):
    """Global data with one component, and all of them, nonzero."""
    rng = np.random.default_rng(seed)
    full = S.dist.grid_layout.global_shape(u.domain, scales=u.domain.dealias)
    nc = sum(1 for _ in S.vec.coords)
    x = rng.uniform(0.5, 2, (nc,) + tuple(full)) * rng.choice([-1, 1], (nc,) + tuple(full))
    # On spheres the tests of the repository fix the square root of the sum of the squares of the complex components: see `circular`
    if np.dtype(S.dtype).kind == "c" and not spherical(S): x = x * np.exp(1j * rng.uniform(0, 6, x.shape))
    out = [(f"component {k}", np.where(np.arange(nc).reshape((nc,) + (1,)*len(full)) == k, x, 0)) for k in range(nc)]
    return out + [("all components", x), ("no flow", 0 * x)]

def spherical(S):
    import dedalus.public as d3
    return any(isinstance(b, (d3.SphereBasis, d3.BallBasis, d3.ShellBasis)) for b in S.bases)

def circular(S, rec, name):
    """Complex velocities (1, i) along the sphere move as much as (1, 0) and (0, i), so their frequency is not zero."""
    import dedalus.public as d3
    u = S.dist.VectorField(S.vec, bases=S.bases, name="u")
    u.preset_scales(u.domain.dealias)
    u.preset_layout(S.dist.grid_layout)
    b = next(b for b in S.bases if isinstance(b, (d3.SphereBasis, d3.BallBasis, d3.ShellBasis)))
    k = list(S.vec.coords).index(b.coordsys.coords[0])
    u.data[:] = 0
    u.data[k], u.data[k+1] = 1, 1j
    f = d3.AdvectiveCFL(u, S.vec).evaluate()
    rec.step(); rec.evals += 1
    rec.check(np.min(np.abs(f.data)) > 0, f"complex velocity (1, i): {type(b).__name__}", f"{name}: frequency of velocities (1, i) is {np.min(np.abs(f.data))}")

def local(S, u):
    return S.dist.grid_layout.local_elements(u.domain, scales=u.domain.dealias)

def compare(S, rec, label, dealias, seed):
    import dedalus.public as d3
    u = S.dist.VectorField(S.vec, bases=S.bases, name="u")
    el = np.ix_(*local(S, u))
    op = d3.AdvectiveCFL(u, S.vec)
    for what, x in velocities(S, u, seed):
        ref = reference(S, x)
        u.preset_scales(u.domain.dealias)
        u.preset_layout(S.dist.grid_layout)
        u.data[:] = x[(slice(None),) + el]
        f = op.evaluate()
        rec.step(); rec.evals += 1
        got = f.data
        want = np.broadcast_to(ref, x.shape[1:])[el]
        rec.check(f.layout is S.dist.grid_layout and got.shape == want.shape, f"frequency shape", f"{label}: {what}: frequencies of shape {got.shape}, expected {want.shape}")
        if got.shape == want.shape:
            rec.close(got, want, "frequency", f"{label}: frequency of {what}", rtol=1e-10, atol=1e-12)
        for b in S.bases:
            if not isinstance(b, (d3.DiskBasis, d3.AnnulusBasis, d3.SphereBasis, d3.BallBasis, d3.ShellBasis)): continue
            for nm, az in (("local", b.local_grid_spacing(S.dist, 0, scales=b.dealias)), ("global", b.global_grid_spacing(S.dist, 0, scales=b.dealias))):
                G = b.global_grids(S.dist, scales=b.dealias)[0].size
                if G > 1: rec.check(np.allclose(az, 2 * np.pi / G, rtol=1e-12), "spacing kept", f"{label}: {nm} azimuthal grid spacings after a CFL evaluation are {np.unique(az)}, expected {2*np.pi/G}")
        if what == "all components":
            solver = types.SimpleNamespace(dist=S.dist, evaluator=d3_evaluator(S), iteration=9, initial_iteration=0)
            cfl = make_cfl(solver, 0.1, safety=0.5)
            cfl.add_velocity(u)
            solver.evaluator.evaluate_scheduled(iteration=8, wall_time=0, sim_time=0, timestep=0.1)
            dt = cfl.compute_timestep()
            m = np.max(np.abs(ref)) if ref.size else 0
            want = 0.5 / m if m else np.inf
            rec.check(dt == want or abs(dt - want) <= 1e-10 * want, "timestep", f"{label}: timestep {dt}, expected {want}")

def d3_evaluator(S, vars=None):
    from dedalus.core.evaluator import Evaluator
    return Evaluator(S.dist, vars or {})

def make_cfl(solver, dt, **kw):
    from dedalus.extras import flow_tools
    return flow_tools.CFL(solver, dt, **kw)

def run_case(case, rec):
    import logging, dedalus.public
    logging.disable(logging.CRITICAL)
    globals()["t_" + case["t"]](case, rec)

def t_spacing(case, rec):
    for dealias in (1, 3/2, 2):
        S = make(case["name"], case["dtype"], dealias=dealias)
        rec.state((case["name"], case["dtype"], dealias))
        compare(S, rec, f"{case['name']} {case['dtype']} dealias {dealias}", dealias, rec.seed + 1)
        if spherical(S) and np.dtype(S.dtype).kind == "c" and dealias == 1: circular(S, rec, case["name"])
        rec.trace()
    n = S.dist.dim
    if "*" in case["name"] or n == 1: return rec.nontriv()
    for dealias in itertools.product((1, 3/2, 2), repeat=n):
        if len(set(dealias)) == 1: continue
        S = make(case["name"], case["dtype"], dealias=dealias)
        rec.state((case["name"], case["dtype"], dealias))
        compare(S, rec, f"{case['name']} {case['dtype']} dealias {dealias}", dealias, rec.seed + 1)
        rec.trace()
    rec.nontriv()

def t_tiny(case, rec):
    for name, shape in TINY:
        for dt in ("float64", "complex128"):
            for dealias in (1, 3/2):
                if name.startswith("cf") and dt == "float64" or name.startswith("rf") and dt == "complex128": continue
                rec.state((name, shape, dt, dealias))
                label = f"{name} {shape} {dt} dealias {dealias}"
                try:
                    S = make(name, dt, shape=shape, dealias=dealias)
                except Exception:
                    continue      # no such basis
                try:
                    compare(S, rec, label, dealias, rec.seed + 2)
                except Exception as e:
                    rec.violate(f"tiny {name} {shape}", f"{label}: {type(e).__name__}: {e}")
                rec.trace()

# Histories

def ref_step(p, stored, freq):
    """The documented rule, from the total frequency."""
    dt = math.inf if freq == 0 else 1 / freq
    dt = dt * p.get("safety", 1.0)
    dt = min(dt, p.get("max_dt", math.inf), p.get("max_change", math.inf) * stored)
    dt = max(dt, p.get("min_dt", 0.0), p.get("min_change", 0.0) * stored)
    return dt if abs(dt - stored) > p.get("threshold", 0.0) * stored else stored

def t_history(case, rec):
    import dedalus.public as d3
    S = make("rf", "float64", shape=(4,), dealias=1)
    u = S.dist.VectorField(S.vec, bases=S.bases, name="u")
    x, = S.dist.local_grids(*S.bases)
    shape = np.where(np.arange(x.size) == 1, -1.0, 0.5)      # the fastest point moves backwards
    unit = 4 / (2*np.pi)
    p, cad = case["limits"], case["cadence"]
    amp = AMPS
    for dt0, it0 in case["init"]:
        solver = types.SimpleNamespace(dist=S.dist, evaluator=d3_evaluator(S), iteration=it0, initial_iteration=it0)
        cfl = make_cfl(solver, dt0, cadence=cad, **p)
        cfl.add_velocity(u)
        h = cfl.frequencies
        memo = {}
        def visit(depth, it, stored, fresh, hist, key):
            """At iteration `it`, before a step. `fresh`: amplitude at the latest scheduled evaluation; key: implementation state."""
            if depth == case["depth"]: return
            k2 = (depth, it, stored, key)
            if k2 in memo: return
            memo[k2] = True
            rec.state((it, stored))
            for a in amp:
                # a step of the solver: scheduled tasks are evaluated with the state at its start
                cfl.stored_dt, h.last_iter_div = key
                u["g"] = a * shape
                solver.iteration = it
                solver.evaluator.evaluate_scheduled(iteration=it, wall_time=0., sim_time=0., timestep=stored)
                solver.iteration = it + 1
                got = cfl.compute_timestep()
                rec.step(); rec.evals += 1
                ran = it % cad == 0
                want = ref_step(p, stored, a * unit) if ran and it > it0 else stored
                ok = got == want or abs(got - want) <= 1e-12 * abs(want)
                rec.check(ok and got == cfl.stored_dt, "limits", f"{p} cadence {cad} initial dt {dt0} at iteration {it0}: after amplitudes {hist + [a]} timestep {got}, expected {want}")
                if not ok: continue
                visit(depth + 1, it + 1, got, a, hist + [a], (cfl.stored_dt, h.last_iter_div))
        # before any step
        got = cfl.compute_timestep()
        rec.check(got == dt0, "initial", f"{p} cadence {cad}: initial timestep {got}, expected {dt0}")
        visit(0, it0, dt0, None, [], (cfl.stored_dt, h.last_iter_div))
        rec.trace()

def t_loop(case, rec):
    """The same rule within real run loops: solvers of several schemes, from new and from loaded states."""
    import dedalus.public as d3
    for scheme in ("RK222", "SBDF2", "RK443", "CNAB1"):
        for cad, it0 in itertools.product((1, 2, 3), (0, 3)):
            for hist in itertools.product((0.5, 3.0, 0.0), repeat=4):
                S = cache(("loop", scheme), lambda: loop_problem(scheme))
                S_, u, s = S
                s.iteration = s.initial_iteration = it0
                s.sim_time = s.initial_sim_time = 0.0
                s.evaluator.handlers[:] = s.evaluator.handlers[:S_.nh]
                p = dict(safety=0.5, max_dt=0.4, max_change=2.0, threshold=0.05)
                from dedalus.extras import flow_tools
                cfl = flow_tools.CFL(s, 0.1, cadence=cad, **p)
                cfl.add_velocity(u)
                want, fresh = 0.1, None
                for k, a in enumerate(hist):
                    if k: 
                        it = it0 + k - 1
                        if it % cad == 0 and it > it0: want = ref_step(p, want, fresh * 4 / (2*np.pi) )
                    got = cfl.compute_timestep()
                    rec.check(abs(got - want) <= 1e-10 * want, "run loop", f"{scheme} cadence {cad} from iteration {it0}: timestep {got} at step {k} of {hist}, expected {want}")
                    u["g"] = a
                    fresh = a
                    s.step(got)
                    rec.step(); rec.evals += 1
                rec.trace()
        rec.state((scheme,))

_cache = {}
def cache(k, f):
    if k not in _cache: _cache[k] = f()
    return _cache[k]

def loop_problem(scheme):
    import dedalus.public as d3
    S = make("rf", "float64", shape=(4,), dealias=1.5)
    u = S.dist.VectorField(S.vec, bases=S.bases, name="u")
    p = d3.IVP([u])
    p.add_equation((d3.dt(u), 0))
    s = p.build_solver(scheme)
    S.nh = len(s.evaluator.handlers)
    return S, u, s

# Sets of registrations

def menu(S):
    """(name, register, total frequency as global data) of each entry."""
    import dedalus.public as d3
    rng = np.random.default_rng(5)
    dist = S.dist
    cplx = np.dtype(S.dtype).kind == "c"
    dl = 1.5
    def fill(f):
        """Resolved data, drawn by global coefficient."""
        shape = tuple(c.dim for c in f.tensorsig) + tuple(dist.coeff_layout.global_shape(f.domain, scales=1))
        x = rng.uniform(-1, 1, shape)
        if cplx: x = x + 1j * rng.uniform(-1, 1, shape)
        f["c"] = x[(slice(None),) * len(f.tensorsig) + np.ix_(*dist.coeff_layout.local_elements(f.domain, scales=1))]
        f.change_scales(f.domain.dealias)
        g = f["g"].copy()
        f["g"] = g; f["c"]; f.change_scales(f.domain.dealias)
        return f, f.allgather_data("g")
    u, xu = fill(dist.VectorField(S.vec, bases=S.bases, name="u"))
    v, xv = fill(dist.VectorField(S.vec, bases=S.bases, name="v"))
    w, xw = fill(dist.VectorField(S.vec, bases=S.bases, name="u"))         # another field of the same name
    f, xf = fill(dist.Field(bases=S.bases, name="f"))
    out = [("u", lambda c: c.add_velocity(u), lambda: reference(S, xu)), ("v", lambda c: c.add_velocity(v), lambda: reference(S, xv)),
           ("other u", lambda c: c.add_velocity(w), lambda: reference(S, xw)), ("f", lambda c: c.add_frequency(f), lambda: np.abs(xf))]
    if len(S.bases) > 1 or S.name == "shell":
        b = S.bases[-1] if len(S.bases) > 1 else S.bases[0].radial_basis
        g, xg = fill(dist.Field(bases=b, name="g"))                                  # varies along some axes only
        out.append(("g", lambda c: c.add_frequency(g), lambda: np.abs(xg)))
    return out, (u, v, w)

def t_sets(case, rec):
    sets(case["name"], rec)

def sets(name, rec, comm=None, mesh=None):
    dt = "complex128" if name.startswith("cf") else "float64"
    S = make(name, dt, dealias=1.5, comm=comm, mesh=mesh)
    m, keep = menu(S)
    for k in range(0, len(m) + 1):
        for sub in itertools.combinations(range(len(m)), k):
            solver = types.SimpleNamespace(dist=S.dist, evaluator=d3_evaluator(S), iteration=3, initial_iteration=0)
            cfl = make_cfl(solver, 0.1, max_dt=50.0)
            names = [m[i][0] for i in sub]
            for i in sub: m[i][1](cfl)
            solver.evaluator.evaluate_scheduled(iteration=2, wall_time=0, sim_time=0, timestep=0.1)
            ref = sum((m[i][2]() for i in sub), np.zeros((1,) * S.dist.dim))
            want = min(50.0, 1 / np.max(ref) if np.max(ref) else np.inf)
            rec.state((name, sub)); rec.step(); rec.evals += 1
            key = "same name" if {"u", "other u"} <= set(names) else "none" if not names else "mixed" if "g" in names and len(names) > 1 else "sets"
            try:
                got = cfl.compute_timestep()
            except Exception as e:
                rec.violate(f"{key}", f"{name}: timestep of {names}: {type(e).__name__}: {e}")
                continue
            rec.check(abs(got - want) <= 1e-10 * want, key, f"{name}: timestep of {names} is {got}, expected {want}")
            rec.trace()

# Processes

def t_mpi(case, rec):
    from mc import mpi
    mpi.into(rec, case["n"], "checks.c23", "one", case["jobs"], timeout=700, label="cfl")

def one(job, rec, comm):
    import logging, dedalus.public
    logging.disable(logging.CRITICAL)
    if "sets" in job:
        return sets(job["sets"], rec, comm, tuple(job["mesh"]))
    S = make(job["name"], job["dtype"], dealias=3/2, comm=comm, mesh=tuple(job["mesh"]))
    compare(S, rec, json.dumps(job), 3/2, rec.seed + 3)
    rec.trace()
