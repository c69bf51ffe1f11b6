"""C10: loading a checkpoint restores exactly the stored state, and self-starting schemes continue the same trajectory."""
import hashlib, itertools, json, os, pathlib, shutil, tempfile
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all sequences of checkpoint loads (file, index, prior field layout and scales, solver age) against the stored data, and every restart point of every scheme's run replayed to the end"
NOTE = "Every write of every stored layout/scale arrangement is loaded, in every order of two loads and every prior field condition; every restart point of runs with every self-starting scheme is continued and compared with the uninterrupted run; files written on one process count are loaded on others."
BOUND = {"quick": "17 spaces x dtypes, 2 file kinds, 6 storage arrangements, 5 writes in 3 sets, all sequences of 2 loads; 8 self-starting schemes x 5 problems x every restart point of 5 steps; process counts 1-4",
         "thorough": "all sequences of 3 loads; 8 steps and all timestep patterns"}
ASSUMPTIONS = ["stored grid data resolves the coefficients (scales of at least 1)", "parallel HDF5 (mpio) is not available in this h5py build"]
TIMEOUT = 850

SPACES = [("rf", "float64"), ("cf", "complex128"), ("cheb", "float64"), ("cheb", "complex128"), ("rf_cheb", "float64"), ("cf_cheb", "complex128"), ("rf_none_cheb", "float64"), ("rf_rf_cheb", "float64"),
          ("disk", "float64"), ("disk", "complex128"), ("annulus", "float64"), ("sphere", "float64"), ("sphere", "complex128"),
          ("ball", "float64"), ("ball", "complex128"), ("shell", "float64"), ("shell", "complex128"), ("cyl", "float64")]
# Storage of (u, v, tau): layout and scales
STORE = [dict(u=("g", 1), v=("g", 1), p=("g", 1)), dict(u=("c", 1), v=("c", 1), p=("c", 1)), dict(u=("g", 1.5), v=("g", 2), p=("g", 1.5)),
         dict(u=("g", 2), v=("c", 1), p=("g", 1)), dict(u=("c", 1), v=("g", 1.5), p=("c", 1)), dict(u=("g", "mix"), v=("g", "mix"), p=("g", "mix"))]
RK = ["RK111", "RK222", "RK443", "RKSMR", "RKGFY", "SBDF1", "CNAB1", "SBDF1"]

def cases(tier, seed):
    q = tier == "quick"
    out = []
    for n, m in ((1, 2), (2, 1), (2, 3), (4, 2)) if q else itertools.permutations((1, 2, 3, 4), 2):
        out.append(dict(t="mpi", n=n, m=m))
    for sp, dt in SPACES:
        for par in ("gather", "virtual"):
            out.append(dict(t="load", space=sp, dtype=dt, par=par, n=2 if q else 3))
    for scheme in ("RK111", "RK222", "RK443", "RKSMR", "RKGFY", "SBDF1", "CNAB1", "MCNAB2", "SBDF2", "SBDF4", "CNLF2", "CNAB2", "SBDF3"):
        out.append(dict(t="traj", scheme=scheme, steps=5 if q else 8))
    out.append(dict(t="missing"))
    out.append(dict(t="resize"))
    out.append(dict(t="reject"))
    return out

def run_case(case, rec):
    import logging
    logging.disable(logging.CRITICAL)
    globals()["t_" + case["t"]](case, rec)

def build(space, dtype, comm=None, mesh=None, shape=None):
    """A solver with a scalar, a vector and a variable without bases; and fields that are not state."""
    from mc import spaces
    import dedalus.public as d3
    S = spaces.make(space, dtype, dealias=1.5, comm=comm, mesh=mesh, shape=shape)
    u, v = S.field(name="u"), S.field(name="v", rank=1)
    p = S.dist.Field(name="p", dtype=S.dtype)
    g = S.field(name="g")
    prob = d3.IVP([u, v, p])
    prob.add_equation((d3.dt(u), 0*g if False else 0))
    prob.add_equation((d3.dt(v), 0))
    prob.add_equation((d3.dt(p), 0))
    s = prob.build_solver("RK111")
    return S, u, v, p, g, s

def data(S, f, k, seed):
    from mc import spaces
    f.preset_scales(1)
    f["c"] = spaces.random_coeffs(f, 100*seed + 7*k + 1 + len(f.tensorsig))
    if f.domain.bases:
        f.change_scales(f.domain.dealias)
        f["g"]
        f.change_scales(1); f["g"]; f["c"]; f.change_scales(f.domain.dealias); f["g"]
    return f["c"].copy()

PRIOR = [("c", 1), ("g", 1), ("g", 1.5), ("g", 2), ("c", 1.5)]

def t_load(case, rec):
    S, u, v, p, g, s = build(case["space"], case["dtype"])
    dim = S.dist.dim
    curv = S.name in ("disk", "annulus", "sphere", "ball", "shell", "cyl")
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
        base = pathlib.Path(td)
        stores = []
        for si, st in enumerate(STORE):
            h = s.evaluator.add_file_handler(base/f"s{si}", parallel=case["par"], max_writes=2)
            for f in (u, v, p):
                lay, sc = st[f.name]
                if sc == "mix": sc = tuple([1, 1.5, 2][:dim]) if not curv else tuple([2] + [1.5, 1][:dim-1])
                h.add_task(f, name=f.name, layout=lay, scales=sc)
            h.add_task(2*u, name="2u", layout="c"); h.add_task(g, name="g", layout="c")
            stores.append(h)
        X, meta = [], []
        for k in range(5):
            X.append({f.name: data(S, f, k, rec.seed) for f in (u, v, p)})
            G = data(S, g, 50 + k, rec.seed)
            m = dict(iteration=3*k + 1, sim_time=(k*k - 1)/8, timestep=2.0**-k)
            for h in stores:
                h_eval(s, h, m)
            meta.append(m)
        before = {q: q.read_bytes() for q in base.rglob("*.h5")}
        points = [(si, k) for si in range(len(STORE)) for k in range(5)]
        # The same write by its positive and negative index in its set
        def where(si, k, neg):
            n = 2 if k < 4 else 1
            return base/f"s{si}"/f"s{si}_s{k//2+1}.h5", (k % 2) - (n if neg else 0)
        G = g["c"].copy()
        seqs = itertools.product(points, repeat=case["n"])
        for q, seq in enumerate(seqs):
            lay, sc = PRIOR[q % len(PRIOR)]
            for j, (si, k) in enumerate(seq):
                if j == 0:
                    for i, f in enumerate((u, v, p)):
                        f.change_scales(sc if (curv is False or sc != 0.5) else 1)
                        f[PRIOR[(q + i) % len(PRIOR)][0]]
                path, idx = where(si, k, (q + j) % 2)
                s.stop_iteration, s.stop_sim_time = 77, 8.5
                r = s.load_state(path if q % 3 else str(path), idx)
                rec.step()
                what = f"{case} loads {seq[:j+1]} of {STORE[si]} index {idx}"
                rec.check((int(r[0]), float(r[1])) == (k + 1, meta[k]["timestep"]), "returned", f"{what}: returned {r}")
                rec.check(s.iteration == meta[k]["iteration"] and s.initial_iteration == s.iteration, "iteration", f"{what}: {s.iteration}, initial {s.initial_iteration}")
                t = meta[k]["sim_time"]
                rec.check(s.sim_time == t and s.initial_sim_time == t and float(np.ravel(s.problem.time["g"])[0]) == t, "sim_time", f"{what}: {s.sim_time} {s.initial_sim_time} {s.problem.time['g']}, expected {t}")
                rec.check(s.stop_iteration == 77 and s.stop_sim_time == 8.5, "other", f"{what}: stop criteria changed")
                if j == len(seq) - 1:
                    for f in (u, v, p):
                        rec.close(f["c"], X[k][f.name], "state", f"{what}: {f.name}", rtol=1e-11, atol=1e-11)
                    rec.close(g["c"], G, "other", f"{what}: a field that is not state changed", rtol=1e-13, atol=1e-13)
            rec.trace(); rec.state((case["space"], seq))
            if rec.nviol > 5: return
        rec.check({q: q.read_bytes() for q in base.rglob("*.h5")} == before, "file", "loading changed the files")

def h_eval(s, h, m):
    s.evaluator.evaluate_handlers([h], iteration=m["iteration"], wall_time=0.0, sim_time=m["sim_time"], timestep=m["timestep"])

def t_traj(case, rec):
    """Every restart point of a run, into the same solver, a fresh one and one that ran something else."""
    from checks.c17 import Prob
    selfstart = case["scheme"] in ("RK111", "RK222", "RK443", "RKSMR", "RKGFY", "SBDF1", "CNAB1")
    dts = [0.05, 0.02, 0.02, 0.08, 0.05, 0.01, 0.03, 0.03][:case["steps"]]
    for pname, dtype in (("ode", "float64"), ("linear", "float64"), ("heat", "float64"), ("wave", "complex128"), ("disk", "float64")):
        def new():
            P = Prob(pname, dtype)
            return P, P.problem.build_solver(case["scheme"])
        P, s = new()
        rng = np.random.default_rng(rec.seed)
        init = []
        from mc import spaces
        for f in P.state + [P.g]:
            f.preset_scales(1)
            f["c"] = spaces.random_coeffs(f, 3 + rec.seed)*0.3
            if f.domain.bases: f.change_scales(f.domain.dealias); f["g"]; f["c"]
            init.append(f["c"].copy())
        with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
            H = []
            for nm, lay, sc in (("c", "c", 1), ("g", "g", 1.5)):
                h = s.evaluator.add_file_handler(os.path.join(td, nm), iter=1, max_writes=3)
                for f in P.state: h.add_task(f, name=f.name, layout=lay, scales=sc)
                H.append(h)
            traj, times = [], []
            for dt in dts:
                traj.append([f["c"].copy() for f in P.state]); times.append(s.sim_time)
                s.step(dt); rec.step()
            s.evaluate_handlers(H)
            traj.append([f["c"].copy() for f in P.state]); times.append(s.sim_time)
            P2, s2 = new()
            for f, x in zip(P2.state + [P2.g], init): f["c"] = x
            for dt in (0.03, 0.05): s2.step(dt)      # ran something else
            others = [("same", P, s), ("other", P2, s2)]
            if pname in ("ode", "heat"): others.append(("fresh",) + new())
            for kind, Q, t in others:
                Q.g["c"] = init[-1]
                for h in list(t.evaluator.handlers):
                    if h in H: h.iter = None
                for j in range(len(dts) + 1):
                    for nm in ("c", "g"):
                        w, dt = t.load_state(os.path.join(td, nm, f"{nm}_s{j//3+1}.h5"), j % 3)
                        what = f"{case['scheme']} {pname} restart at {j} from {nm} in the {kind} solver"
                        rec.check(int(w) == j + 1 and t.iteration == j and t.sim_time == times[j] and (j == len(dts) or dt == dts[j]), "meta", f"{what}: write {w} iteration {t.iteration} time {t.sim_time} dt {dt}")
                        for f, x in zip(Q.state, traj[j]): rec.close(f["c"], x, "state", what, rtol=1e-12, atol=1e-12)
                        if selfstart:
                            for i in range(j, len(dts)):
                                t.step(dts[i]); rec.step()
                                for f, x in zip(Q.state, traj[i+1]): rec.close(f["c"], x, "trajectory", f"{what}, step {i}: {f.name}", rtol=1e-10, atol=1e-10)
                                rec.check(abs(t.sim_time - times[i+1]) < 1e-14 and t.iteration == i + 1, "meta", what)
                        elif j < len(dts):
                            # Not self-starting: the run restarts its history, exactly like a fresh solver with this state
                            if kind != "fresh": 
                                R = restarted.setdefault((case["scheme"], pname, dtype), None) or restarted.__setitem__((case["scheme"], pname, dtype), new()) or restarted[(case["scheme"], pname, dtype)]
                                PR, sR = restarted[(case["scheme"], pname, dtype)]
                                PR.g["c"] = init[-1]
                                sR.load_state(os.path.join(td, nm, f"{nm}_s{j//3+1}.h5"), j % 3)
                                for i in range(j, len(dts)):
                                    t.step(dts[i]); sR.step(dts[i]); rec.step(2)
                                    for f, x in zip(Q.state, PR.state): rec.close(f["c"], x["c"], "restart", f"{what}, step {i}", rtol=1e-11, atol=1e-11)
                        rec.trace(); rec.state((pname, kind, j, nm))
                        if rec.nviol > 5: return

restarted = {}

def t_missing(case, rec):
    S, u, v, p, g, s = build("rf_cheb", "float64")
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
        for stored in itertools.chain.from_iterable(itertools.combinations("uvp", r) for r in range(1, 4)):
            nm = "".join(stored)
            h = s.evaluator.add_file_handler(os.path.join(td, nm))
            h.add_task(2*u, name="other")
            for f in (u, v, p):
                if f.name in stored: h.add_task(f, name=f.name, layout="c")
            X = {f.name: data(S, f, 1, rec.seed) for f in (u, v, p)}
            h_eval(s, h, dict(iteration=5, sim_time=2.5, timestep=0.5))
            Y = {f.name: data(S, f, 2, rec.seed) for f in (u, v, p)}
            path = os.path.join(td, nm, f"{nm}_s1.h5")
            rec.step(); rec.trace(); rec.state(nm)
            if len(stored) < 3:
                try:
                    s.load_state(path)
                    rec.violate("missing", f"a file with {stored} loads although variables are missing")
                except IOError:
                    rec.evals += 1
                for f in (u, v, p): f["c"] = Y[f.name]
            s.load_state(path, allow_missing=True)
            for f in (u, v, p):
                rec.close(f["c"], X[f.name] if f.name in stored else Y[f.name], "missing", f"stored {stored}: {f.name}", rtol=1e-12, atol=1e-12)
        # Tasks that are not purely grid or coefficient data are refused
        h = s.evaluator.add_file_handler(os.path.join(td, "mixed"))
        h.add_task(u, name="u", layout=S.dist.layouts[1]); h.add_task(v, name="v"); h.add_task(p, name="p")
        h_eval(s, h, dict(iteration=5, sim_time=2.5, timestep=0.5))
        try:
            s.load_state(os.path.join(td, "mixed", "mixed_s1.h5"))
            rec.violate("mixed", "data in a mixed layout is loaded")
        except ValueError:
            rec.evals += 1

def t_resize(case, rec):
    """Grid data stored at another resolution that resolves the same functions."""
    for space, dtype in (("rf", "float64"), ("cf", "complex128"), ("cheb", "float64"), ("rf_cheb", "float64"), ("disk", "float64"), ("annulus", "float64"), ("sphere", "float64"), ("ball", "float64"), ("shell", "float64")):
        dim = 1 if space in ("rf", "cf", "cheb") else 3 if space in ("ball", "shell") else 2
        for n1, sc, n2 in ((4, 2, 8), (4, 1.5, 4), (4, 2, 4), (4, 3, 12), (8, 1.5, 8), (4, 3, 8), (4, 2.5, 8)):
            if (n1*sc) % 2 or (space not in ("rf", "cf", "cheb", "rf_cheb") and n1*sc % 4 and False): continue
            A = build(space, dtype, shape=(n1,)*dim)
            B = build(space, dtype, shape=(n2,)*dim)
            S, u, v, p, g, s = A
            for f in (u, v, p): data(S, f, 3, rec.seed)
            with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
                h = s.evaluator.add_file_handler(os.path.join(td, "o"))
                for f in (u, v, p): h.add_task(f, name=f.name, scales=sc)
                h_eval(s, h, dict(iteration=5, sim_time=2.5, timestep=0.5))
                S2, u2, v2, p2, g2, s2 = B
                s2.load_state(os.path.join(td, "o", "o_s1.h5"))
                rec.step(); rec.trace(); rec.state((space, n1, sc, n2))
                # Compare on a common fine grid
                N = 24
                for f, f2 in ((u, u2), (v, v2), (p, p2)):
                    f.change_scales(N/n1); f2.change_scales(N/n2)
                    rec.close(f2["g"], f["g"], "resize", f"{space}: size {n1} stored at scale {sc} loaded into size {n2}: {f.name}", rtol=1e-10, atol=1e-10)

def t_reject(case, rec):
    """Coefficient data of any other shape is refused, and a refused load leaves the field alone."""
    import h5py
    for space, dtype, sizes in (("rf", "float64", (4, 6, 8)), ("cheb", "float64", (1, 3, 4, 6)), ("rf_cheb", "float64", (1, 2, 4, 8)), ("cheb_cheb", "float64", (1, 2, 4, 8)), ("rf_rf_cheb", "float64", (4, 8)), ("disk", "float64", (4, 8)), ("annulus", "float64", (4, 8)), ("sphere", "float64", (4, 8)), ("ball", "float64", (4, 8)), ("shell", "float64", (4, 8))):
        dim = {"rf": 1, "cheb": 1, "ball": 3, "shell": 3, "rf_rf_cheb": 3}.get(space, 2)
        built = {}
        for shape in itertools.product(sizes, repeat=dim):
            if space in ("disk", "ball") and shape[0]//2 - 1 > 2*(shape[-1] - 1): continue
            if space in ("sphere", "ball", "shell") and shape[0]//2 - 1 > shape[1] - 1: continue
            built[shape] = build(space, dtype, shape=shape)
        with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
            for i, (shape, (S, u, v, p, g, s)) in enumerate(built.items()):
                for f in (u, v, p): data(S, f, i, rec.seed)
                h = s.evaluator.add_file_handler(os.path.join(td, f"o{i}"))
                for f in (u, v, p): h.add_task(f, name=f.name, layout="c")
                h_eval(s, h, dict(iteration=5, sim_time=2.5, timestep=0.5))
            for i, shape in enumerate(built):
                for target, (S, u, v, p, g, s) in built.items():
                    for f in (u, v):
                        before = data(S, f, 40, rec.seed)
                        same = f["c"].shape == built[shape][1 if f is u else 2]["c"].shape
                        for how in ("hdf5", "array"):
                            f["c"] = before
                            with h5py.File(os.path.join(td, f"o{i}", f"o{i}_s1.h5"), "r") as file:
                                try:
                                    if how == "hdf5": f.load_from_hdf5(file, 0)
                                    else: f.load_from_global_coeff_data(file["tasks"][f.name][0])
                                    ok = True
                                except Exception as e:
                                    ok = False
                            rec.step(); rec.trace(); rec.state(("reject", space, shape, target, f.name, how))
                            what = f"{space}: coefficients of shape {shape} loaded ({how}) into {f.name} of shape {target}"
                            rec.check(ok == same, "reject", f"{what}: {'accepted' if ok else 'rejected'}")
                            if not ok: rec.close(f["c"], before, "reject-changed", what, rtol=1e-13, atol=1e-13)

# --- Process counts

def t_mpi(case, rec):
    from mc import mpi
    td = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        jobs = []
        for sp, dt, shape in (("rf_cheb", "float64", (8, 4)), ("cf_cf_cheb", "complex128", (4, 4, 4)), ("disk", "float64", (8, 4)), ("ball", "float64", (8, 4, 4)), ("sphere", "complex128", (4, 4))):
            for par in ("gather", "virtual"):
                jobs.append(dict(space=sp, dtype=dt, shape=shape, par=par, dir=os.path.join(td, f"{sp}-{par}"), mesh=[2, 2] if case["n"] == 4 and len(shape) == 3 else None))
        if mpi.into(rec, case["n"], "checks.c10", "mpi_write", jobs, timeout=200) is None: return
        jobs = [dict(j, mesh=[2, 2] if case["m"] == 4 and len(j["shape"]) == 3 else None) for j in jobs]
        mpi.into(rec, case["m"], "checks.c10", "mpi_load", jobs, timeout=200, label=f"written by {case['n']}")
    finally:
        shutil.rmtree(td, ignore_errors=True)

_m = {}
def mpi_build(case, comm):
    from mpi4py import MPI
    key = (case["space"], case["dtype"], tuple(case["shape"]), tuple(case["mesh"] or ()))
    if key not in _m:
        from mc import spaces
        A = build(case["space"], case["dtype"], comm=comm, mesh=tuple(case["mesh"]) if case["mesh"] else None, shape=tuple(case["shape"]))
        B = build(case["space"], case["dtype"], comm=MPI.COMM_SELF, mesh=(), shape=tuple(case["shape"]))
        _m[key] = (A, B)
    return _m[key]

def mpi_write(case, rec, comm):
    (S, u, v, p, g, s), R = mpi_build(case, comm)
    H = []
    for si, st in enumerate(STORE[:5]):
        h = s.evaluator.add_file_handler(os.path.join(case["dir"], f"s{si}"), parallel=case["par"], max_writes=1)
        for f in (u, v, p): h.add_task(f, name=f.name, layout=st[f.name][0], scales=st[f.name][1])
        H.append(h)
    for k in range(2):
        for f, fr in zip((u, v, p), R[1:4]):
            X = data(R[0], fr, k, rec.seed)
            f.preset_scales(1); f.load_from_global_coeff_data(X)
        for h in H: h_eval(s, h, dict(iteration=k, sim_time=k/4, timestep=0.5)); rec.step()
    rec.trace()
    comm.Barrier()

def mpi_load(case, rec, comm):
    (S, u, v, p, g, s), R = mpi_build(case, comm)
    for si in range(5):
        for k in (1, 0):
            s.load_state(os.path.join(case["dir"], f"s{si}", f"s{si}_s{k+1}.h5"))
            rec.step()
            rec.check(s.iteration == k and s.sim_time == k/4, "meta", f"{case} store {si} write {k}")
            for f, fr in zip((u, v, p), R[1:4]):
                X = data(R[0], fr, k, rec.seed)
                loc = X[tuple(slice(None) for _ in f.tensorsig) + S.dist.coeff_layout.slices(f.domain, (1,)*S.dist.dim)]
                rec.close(f["c"], loc, "mpistate", f"{case} {STORE[si]} write {k}: {f.name}", rtol=1e-11, atol=1e-11)
    rec.trace()
