"""C08: every scheduled write lands once, in order, with the right values and scales."""
import hashlib, itertools, json, os, pathlib, shutil, tempfile
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all sequences of writes by two file handlers against a reference model of the directory, and all task kinds x layouts x scales on every basis family; the same writes under MPI on several meshes"
NOTE = "Every sequence of write operations up to the stated length for every combination of set sizes and file kinds: all files, all datasets, all scales and attributes compared with the model, and files of other sets and handlers compared byte for byte."
BOUND = {"quick": "all sequences of length 3 (4 for one) over {write A, write B, both, both reversed, their group} for 4 set-size pairs x 2 file kinds; 13 spaces x dtypes x 2 file kinds x all layouts x 6 scales; MPI: 6 spaces on 2-4 processes",
         "thorough": "sequences of length 6; 12 set-size pairs; MPI on 2, 3, 4, 6 processes"}
ASSUMPTIONS = ["parallel HDF5 (mpio) is not available in this h5py build", "reference values come from direct evaluation of the same expressions on a separate serial distributor (C11, C02 decide those)"]
TIMEOUT = 800

SPACES = [("rf", "float64"), ("cf", "complex128"), ("cheb", "float64"), ("rf_cheb", "float64"), ("cf_cheb", "complex128"), ("rf_none_cheb", "float64"), ("rf_rf_cheb", "float64"),
          ("disk", "float64"), ("disk", "complex128"), ("annulus", "float64"), ("annulus", "complex128"), ("sphere", "float64"), ("sphere", "complex128"),
          ("ball", "float64"), ("ball", "complex128"), ("shell", "float64"), ("shell", "complex128"), ("cyl", "float64"), ("cylann", "float64")]
MPI_SPACES = [("rf_cheb", "float64"), ("rf_rf_cheb", "float64"), ("cf_cf_cheb", "complex128"), ("disk", "float64"), ("sphere", "float64"), ("ball", "float64"), ("shell", "float64")]

def cases(tier, seed):
    q = tier == "quick"
    out = []
    for k in (2, 3, 4) if q else (2, 3, 4, 6):
        for par in ("gather", "virtual"):
            out.append(dict(t="mpi", n=k, par=par))
    pairs = [(None, 2), (1, 3), (2, 1), (3, None)] if q else list(itertools.product((None, 1, 2, 3), repeat=2))
    for par in ("gather", "virtual"):
        for p in pairs:
            for first in range(len(OPS)):
                out.append(dict(t="hist", par=par, mw=p, n=(4 if p == (2, 1) and par == "gather" else 3) if q else 6, first=first))
    for sp, dt in SPACES:
        for par in ("gather", "virtual"):
            out.append(dict(t="matrix", space=sp, dtype=dt, par=par))
    for par in ("gather", "virtual"):
        out.append(dict(t="names", par=par))
        out.append(dict(t="solver", par=par))
    return out

def run_case(case, rec):
    import logging
    logging.disable(logging.CRITICAL)
    globals()["t_" + case["t"]](case, rec)

# --- Reference: the tasks of a space, built identically on any distributor

def tasks_of(S, u, v, d3):
    """name -> operand or field."""
    out = {"u": u, "v": v, "2u": 2*u, "uu": u*u}
    if S.name not in ("none",):
        out["vu"] = v*u
    if S.name.startswith(("rf", "cf", "cheb", "leg")) and len(S.name.split("_")) == 1:
        c = S.vec["x"]
        out["int"] = d3.Integrate(u, c)
        out["interp"] = d3.Interpolate(u, c, 0.25)
    elif S.name.startswith(("rf", "cf")):
        for c in S.vec.coords:
            if any(b.coord == c for b in S.bases):
                out["interp_" + c.name] = d3.Interpolate(u, c, 0.25)
                out["vint_" + c.name] = d3.Integrate(v, c)
        out["int"] = d3.Integrate(u)
    elif S.name in ("disk", "annulus"):
        out["r"] = d3.Interpolate(u, S.vec["r"], 1.0)
        out["phi"] = d3.Interpolate(u, S.vec["phi"], 0.5)
        out["vr"] = d3.Interpolate(v, S.vec["r"], 1.5)
        out["int"] = d3.Integrate(u)
        out["lap"] = d3.Laplacian(u)
    elif S.name == "sphere":
        out["int"] = d3.Average(u, S.vec)
        out["grad"] = d3.Gradient(u)
    elif S.name in ("ball", "shell"):
        out["r"] = d3.Interpolate(u, S.vec["r"], 1.0)
        out["theta"] = d3.Interpolate(u, S.vec["theta"], 1.0)
        out["phi"] = d3.Interpolate(u, S.vec["phi"], 0.5)
        out["int"] = d3.Integrate(u)
        out["vr"] = d3.Interpolate(v, S.vec["r"], 1.5)
    return out

def fill(S, u, v, k, seed):
    """Data number k: representable fields, the same on every distributor."""
    from mc import spaces
    for i, f in enumerate((u, v)):
        f.preset_scales(1)
        f["c"] = spaces.random_coeffs(f, 1000*seed + 10*k + i)
        f.change_scales(f.domain.dealias if S.name in ("disk", "ball", "sphere", "shell") else 1)
        f["g"]; f["c"]

_cache = {}
def get_space(name, dtype, comm=None, mesh=None, shape=None):
    key = (name, dtype, comm is not None, mesh, shape)
    if key not in _cache:
        from mc import spaces
        import dedalus.public as d3
        S = spaces.make(name, dtype, dealias=1.5, comm=comm, mesh=mesh, shape=shape)
        u, v = S.field(name="u"), S.field(name="v", rank=0 if S.name in ("none",) else 1)
        T = tasks_of(S, u, v, d3)
        _cache[key] = (S, u, v, T)
    return _cache[key]

_ref = {}
def reference(space, name, k, gs, scales, seed):
    """Value and axis scales of a task of data k in the layout with the given grid_space flags."""
    (sp, dt, shape) = space
    key = (space, name, k, gs, scales, seed)
    if key not in _ref:
        from mpi4py import MPI
        from dedalus.core.field import LockedField
        S, u, v, T = get_space(sp, dt, comm=MPI.COMM_SELF, mesh=(), shape=shape)
        vk = ("vals", space, name, k, seed)
        if vk not in _ref:
            fill(S, u, v, k, seed)
            op = T[name]
            f = op.evaluate() if hasattr(op, "evaluate") else op.copy()
            locked = isinstance(f, LockedField)
            f = f.copy()
            if not locked:
                f["c"]
            _ref[vk] = f, locked
        f, locked = _ref[vk]
        f = f.copy()
        lay = [l for l in S.dist.layouts if tuple(map(bool, l.grid_space)) == gs][0]
        if locked:
            scales = f.domain.dealias
        else:
            f.change_scales(scales)
        f.change_layout(lay)
        data = f.data.copy()
        axes = []
        for ax in range(S.dist.dim):
            b = f.domain.full_bases[ax]
            if b is None:
                axes.append(("constant", np.zeros(1)))
            else:
                sub = ax - S.dist.first_axis(b)
                cn = b.coordsys.coords[sub].name
                if lay.grid_space[ax]:
                    g = S.dist.local_grids(b, scales=scales)[sub]
                    axes.append((cn, g.ravel()))
                else:
                    axes.append(("k" + cn, lay.local_group_arrays(f.domain, scales)[ax].astype(float)))
        _ref[key] = (data, axes, tuple(scales) if isinstance(scales, (tuple, list, np.ndarray)) else (scales,)*S.dist.dim, bool(np.all(f.domain.constant)), tuple(map(bool, f.domain.constant)))
    return _ref[key]

def verify_set(rec, path, tag, space, tasks, writes, set_number, hname, seed):
    """tasks: list of (dataset, task name, grid_space flags, scales); writes: list of dict(k=data number, **metadata)."""
    import h5py
    n = len(writes)
    with h5py.File(path, "r") as f:
        rec.check(int(f.attrs["set_number"]) == set_number and f.attrs["handler_name"] == hname and int(f.attrs["writes"]) == n, "attrs", f"{tag}: attributes {dict(f.attrs)}, expected set {set_number} of {hname} with {n} writes")
        for m in ("sim_time", "timestep", "wall_time", "iteration", "write_number"):
            got = f["scales"][m][:]
            rec.check(got.tolist() == [w[m] for w in writes], "meta", f"{tag}: {m} {got.tolist()}, expected {[w[m] for w in writes]}")
        rec.check(sorted(f["tasks"]) == sorted(t[0] for t in tasks), "tasks", f"{tag}: tasks {sorted(f['tasks'])}")
        for dname, tname, gs, scales in tasks:
            d = f["tasks"][dname]
            ref = [reference(space, tname, w["k"], gs, scales, seed) for w in writes]
            ttag = f"{tag} task {tname} layout {gs} scales {scales}"
            data = d[:]
            if rec.check(data.shape == (n,) + ref[0][0].shape, "shape", f"{ttag}: shape {data.shape}, expected {n} x {ref[0][0].shape}"):
                for i in range(n):
                    rec.close(data[i], ref[i][0], "value", f"{ttag} write {i}:", rtol=1e-10, atol=1e-10)
            _, axes, sc, _, const = ref[0]
            rec.check(d.dtype == ref[0][0].dtype, "dtype", f"{ttag}: {d.dtype}")
            rec.check(tuple(map(bool, d.attrs["grid_space"])) == gs, "gridspace", f"{ttag}: {d.attrs['grid_space']}")
            rec.check(tuple(map(bool, d.attrs["constant"])) == const, "constant", f"{ttag}: {d.attrs['constant']}")
            rec.check(np.allclose(d.attrs["scales"], sc), "scalesattr", f"{ttag}: {d.attrs['scales']} expected {sc}")
            rec.check(d.dims[0].label == "t" and sorted(d.dims[0].keys()) == sorted(["sim_time", "wall_time", "timestep", "iteration", "write_number"]), "timedim", ttag)
            for m in ("sim_time", "write_number"):
                rec.check(d.dims[0][m][:].tolist() == [w[m] for w in writes], "timedim", ttag)
            r0 = len(d.shape) - 1 - len(axes)
            for ax, (label, vals) in enumerate(axes):
                dim = d.dims[1 + r0 + ax]
                if rec.check(dim.label == label and len(dim) == 1, "dimlabel", f"{ttag} axis {ax}: label {dim.label} with {len(dim)} scales, expected {label}"):
                    rec.close(dim[0][:].astype(float) * ok(vals), np.ma.filled(vals, 0), "dimscale", f"{ttag} axis {ax} ({label}):", rtol=1e-12, atol=1e-12)

def ok(vals):
    return 1 - np.ma.getmaskarray(vals)

def digest_tree(base):
    return {str(p.relative_to(base)): hashlib.sha1(p.read_bytes()).hexdigest() for p in base.rglob("*") if p.is_file()}

OPS = ["A", "B", "AB", "BA", "group"]

class Model:
    def __init__(self, mw):
        self.mw, self.sets, self.total = mw, [], 0
    def write(self, w):
        if not self.sets or (self.mw is not None and len(self.sets[-1]) >= self.mw):
            self.sets.append([])
        self.total += 1
        self.sets[-1].append(dict(w, write_number=self.total))

def t_hist(case, rec):
    for seq in itertools.product(OPS, repeat=case["n"] - 1):
        one_hist(case, rec, (OPS[case["first"]],) + seq)
        rec.trace()
        if rec.nviol > 3: return

def one_hist(case, rec, seq):
    from dedalus.core.evaluator import Evaluator
    space = ("rf_cheb", "float64", None)
    S, u, v, T = get_space(*space[:2])
    G, C = (True, True), (False, False)
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
        base = pathlib.Path(td)
        # Files that are nobody's sets
        for p in ("A/A_notes.txt", "A/A_s1x.h5", "A_s1.h5", "B/A_s1.h5", "A/sA_s1.h5"):
            (base/p).parent.mkdir(exist_ok=True); (base/p).write_text(p)
        ev = Evaluator(S.dist, {})
        tl = {"A": [("u", "u", G, (1.5, 1.5)), ("vu c", "vu", C, (1, 1))], "B": [("u", "u", C, (1, 1)), ("int", "int", G, (1, 1))]}
        H, M = {}, {}
        for h, mw in zip("AB", case["mw"]):
            H[h] = ev.add_file_handler(base/h, parallel=case["par"], max_writes=mw, group="grp")
            M[h] = Model(mw)
            for dn, tn, gs, sc in tl[h]:
                H[h].add_task(T[tn], layout="g" if gs is G else "c", name=dn, scales=sc)
        k = 0
        for op in seq:
            k += 1
            if k > 1:
                before = digest_tree(base)
            fill(S, u, v, k % 3, rec.seed)
            meta = dict(iteration=3*k, wall_time=10.0*k, sim_time=k/8, timestep=2.0**-k)
            if op == "group": ev.evaluate_group("grp", **meta); order = "AB"
            else: ev.evaluate_handlers([H[h] for h in op], **meta); order = op
            rec.step()
            for h in order: M[h].write(dict(meta, k=k % 3))
            if k > 1:
                after = digest_tree(base)
                touched = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
                allowed = set()
                for h in order:
                    s = f"{h}_s{len(M[h].sets)}"
                    allowed |= {f"{h}/{s}.h5", f"{h}/{s}/{s}_p0.h5"}
                rec.check(touched <= allowed, "untouched", f"{case['par']} max_writes {case['mw']} {seq}: {op} changed {sorted(touched - allowed)}")
        want = {"A/A_notes.txt", "A/A_s1x.h5", "A_s1.h5", "B/A_s1.h5", "A/sA_s1.h5"}
        for h in "AB":
            for i, w in enumerate(M[h].sets):
                s = f"{h}_s{i+1}"
                want.add(f"{h}/{s}.h5")
                if case["par"] == "virtual": want.add(f"{h}/{s}/{s}_p0.h5")
        got = {str(p.relative_to(base)) for p in base.rglob("*") if p.is_file()}
        tag = f"{case['par']} max_writes {case['mw']} {seq}"
        if rec.check(got == want, "files", f"{tag}: missing {sorted(want - got)}, extra {sorted(got - want)}"):
            for h in "AB":
                for i, w in enumerate(M[h].sets):
                    verify_set(rec, base/h/f"{h}_s{i+1}.h5", f"{tag} {h} set {i+1}", space, tl[h], w, i + 1, h, rec.seed)
        rec.state((case["par"], case["mw"], seq))

def scale_list(dim):
    return [1, 1.5, 2, 0.5, tuple([1, 1.5, 2][:dim]), tuple([2, 1, 0.5][:dim])]

def t_matrix(case, rec):
    from dedalus.core.evaluator import Evaluator
    from dedalus.core.field import LockedField
    space = (case["space"], case["dtype"], None)
    S, u, v, T = get_space(*space[:2])
    dim = S.dist.dim
    curv = S.name in ("disk", "annulus", "sphere", "ball", "shell", "cyl", "cylann")
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
        base = pathlib.Path(td)
        ev = Evaluator(S.dist, {})
        # Azimuthal sizes must suit the basis: skip the scales that give too few points
        scs = [s for s in scale_list(dim) if not (curv and (s == 0.5 or (isinstance(s, tuple))))]
        if curv:
            scs += [tuple([2] + [1.5]*(dim-1)), tuple([1]*(dim-1) + [2])]
        for si, sc in enumerate(scs):
            sct = tuple(sc) if isinstance(sc, tuple) else (sc,)*dim
            h = ev.add_file_handler(base/f"h{si}", parallel=case["par"], max_writes=2)
            tl = []
            for tn, op in T.items():
                locked = type(op).__mro__ and any("Locked" in c.__name__ for c in type(op).__mro__)
                if locked and sct != (1,)*dim and sct != (1.5,)*dim:
                    continue
                seen = set()
                for l in S.dist.layouts:
                    gs = tuple(map(bool, l.grid_space))
                    if gs in seen or (locked and not all(gs)): continue
                    seen.add(gs)
                    dn = f"{tn} {l.index}"
                    h.add_task(op, layout=l, name=dn, scales=sc)
                    tl.append((dn, tn, gs, sct))
            w = []
            for k in range(3):
                fill(S, u, v, k, rec.seed)
                u.change_scales(1.5 if k == 1 else 1); u["g" if k else "c"]
                meta = dict(iteration=k, wall_time=1.0*k, sim_time=k/8, timestep=0.5)
                ev.evaluate_handlers([h], **meta); rec.step()
                w.append(dict(meta, k=k, write_number=k+1))
            for i in (0, 1):
                verify_set(rec, base/f"h{si}"/f"h{si}_s{i+1}.h5", f"{case['space']} {case['dtype']} {case['par']}", space, tl, w[2*i:2*i+2], i+1, f"h{si}", rec.seed)
            rec.trace(); rec.state((case["space"], case["dtype"], case["par"], sc))

def t_names(case, rec):
    """Handler names with dots, spaces and pattern characters, nested and relative paths."""
    from dedalus.core.evaluator import Evaluator
    space = ("rf", "float64", None)
    S, u, v, T = get_space(*space[:2])
    for name in ("snap", "snap.v2", "a.b.c", "run 1", "x[1]", "s_s1", "deep/er/s", "Ra1.0e6_s2", "q*", "p_p0"):
        with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
            base = pathlib.Path(td)/name
            ev = Evaluator(S.dist, {})
            h = ev.add_file_handler(base if name != "snap" else str(base), parallel=case["par"], max_writes=2)
            h.add_task(u, name="u", layout="c")
            w = []
            for k in range(5):
                fill(S, u, v, k % 3, rec.seed)
                meta = dict(iteration=k, wall_time=1.0*k, sim_time=k/8, timestep=0.5)
                ev.evaluate_handlers([h], **meta); rec.step()
                w.append(dict(meta, k=k % 3, write_number=k+1))
            stem = base.stem
            ok = True
            for i in range(3):
                p = base/f"{stem}_s{i+1}.h5"
                if rec.check(p.exists(), "nameset", f"{name}: no set file {p.name}; there are {sorted(q.name for q in base.iterdir())}"):
                    verify_set(rec, p, f"name {name}", space, [("u", "u", (False,), (1,))], w[2*i:2*i+2], i+1, stem, rec.seed)
            rec.trace(); rec.state((name, case["par"]))

def t_solver(case, rec):
    """Through a solver: every scheduled write is of the state at the start of the step, or explicit at the end."""
    import h5py
    from checks.c18 import problem, Clock
    for scheme in ("SBDF2", "RK222"):
        for its, mw in itertools.product((1, 2, 3), (None, 1, 2)):
            with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
                clock = Clock()
                s, u = problem("float64", clock, scheme=scheme)
                u["c"] = [1, 0, 1, 0.5]
                h = s.evaluator.add_file_handler(os.path.join(td, "o"), iter=its, max_writes=mw, parallel=case["par"])
                h.add_task(u, name="u", layout="c"); h.add_task(u, name="ug")
                want = []
                for i in range(5):
                    dt = [0.25, 0.5, 0.25, 0.125, 1.0][i]
                    if i % its == 0: want.append((i, s.sim_time, dt, u["c"].copy()))
                    s.step(dt); rec.step()
                s.evaluate_handlers([h], dt=0.75)
                want.append((5, s.sim_time, 0.75, u["c"].copy()))
                got, nums = [], []
                files = sorted(pathlib.Path(td, "o").glob("*.h5"), key=lambda p: int(p.stem.split("_s")[1]))
                for p in files:
                    with h5py.File(p) as f:
                        for j in range(f.attrs["writes"]):
                            got.append((int(f["scales/iteration"][j]), float(f["scales/sim_time"][j]), float(f["scales/timestep"][j]), f["tasks/u"][j]))
                            nums.append(int(f["scales/write_number"][j]))
                        rec.check(mw is None or f.attrs["writes"] <= mw, "setsize", f"{scheme} {its} {mw}")
                rec.check(nums == list(range(1, len(want)+1)), "solverwrites", f"{scheme} iter={its} max_writes={mw}: writes {nums}")
                if rec.check([g[:3] for g in got] == [w[:3] for w in want], "solverwrites", f"{scheme} iter={its} max_writes={mw}: {[g[:3] for g in got]} expected {[w[:3] for w in want]}"):
                    for g, w in zip(got, want):
                        rec.close(g[3], w[3], "solvervalue", f"{scheme} iter={its}")
            rec.trace(); rec.state((scheme, its, mw))

def t_mpi(case, rec):
    from mc import mpi
    jobs = []
    only = {2: None, 3: ("rf_rf_cheb", "sphere", "ball"), 4: ("rf_rf_cheb", "cf_cf_cheb", "shell")}.get(case["n"]) if rec.tier == "quick" else None
    meshes = {2: [None], 3: [None], 4: [None, (2, 2)], 6: [None, (2, 3)]}[case["n"]]
    for sp, dt in MPI_SPACES:
        if only and sp not in only: continue
        dim = 3 if sp in ("ball", "shell") or sp.count("_") == 2 else 2
        for mesh in meshes:
            if mesh is not None and dim < 3: continue
            jobs.append(dict(space=sp, dtype=dt, par=case["par"], mesh=mesh, shape={2: (8, 4), 3: (8, 8, 4)}[dim]))
    mpi.into(rec, case["n"], "checks.c08", "mpi_job", jobs, timeout=240, label=f"mpi {case['par']}")

def mpi_job(case, rec, comm):
    from mpi4py import MPI
    from dedalus.core.evaluator import Evaluator
    shape = tuple(case["shape"])
    mesh = tuple(case["mesh"]) if case["mesh"] else None
    space = (case["space"], case["dtype"], shape)
    S, u, v, T = get_space(case["space"], case["dtype"], comm=comm, mesh=mesh, shape=shape)
    # COMM_SELF reference has its own cache entry
    Sr, ur, vr, Tr = (lambda x: x)(reference_space(space))
    td = comm.bcast(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]) if comm.rank == 0 else None)
    base = pathlib.Path(td)
    ev = Evaluator(S.dist, {})
    dim = S.dist.dim
    G, C = (True,)*dim, (False,)*dim
    tl = []
    h = ev.add_file_handler(base/"h", parallel=case["par"], max_writes=2)
    for tn, op in T.items():
        locked = any("Locked" in c.__name__ for c in type(op).__mro__)
        for gs, sc in ((G, (1,)*dim), (C, (1,)*dim), (G, (1.5,)*dim)):
            if locked and (gs is C or sc != (1.5,)*dim): continue
            dn = f"{tn} {gs[0]} {sc[0]}"
            h.add_task(op, layout="g" if gs is G else "c", name=dn, scales=sc)
            tl.append((dn, tn, gs, sc))
    w = []
    for k in range(3):
        fill(Sr, ur, vr, k, rec.seed)
        for f, fr in ((u, ur), (v, vr)):
            f.preset_scales(1)
            f.load_from_global_coeff_data(fr["c"])
        meta = dict(iteration=k, wall_time=1.0*k, sim_time=k/8, timestep=0.5)
        ev.evaluate_handlers([h], **meta); rec.step()
        w.append(dict(meta, k=k, write_number=k+1))
    comm.Barrier()
    if comm.rank == 0:
        for i in (0, 1):
            verify_set(rec, base/"h"/f"h_s{i+1}.h5", f"{case}", space, tl, w[2*i:2*i+2], i+1, "h", rec.seed)
        names = sorted(str(p.relative_to(base)) for p in base.rglob("*") if p.is_file())
        rec.check([n for n in names if n.count("/") == 1] == ["h/h_s1.h5", "h/h_s2.h5"], "files", f"{names}")
        shutil.rmtree(td)
        rec.trace(); 
    comm.Barrier()

def reference_space(space):
    from mpi4py import MPI
    return get_space(space[0], space[1], comm=MPI.COMM_SELF, mesh=(), shape=space[2])
