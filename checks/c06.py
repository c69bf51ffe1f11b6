"""C06: all processes reach the same collective operations on every schedule.

Small parallel programs covering the collective parts of the code run on real MPI processes with every collective and every
file operation recorded (mc/native/trace.c). The traces are explored exhaustively: every schedule of the processes is a path
through the product of their traces. Rank-local sources of nondeterminism are enumerated: the clocks of the processes (every
combination of one late process and reading), hash seeds that differ between processes, and processes without data."""
import itertools, os, pathlib, shutil, tempfile
import numpy as np, h5py

LEVEL = "model_checking"
TECHNIQUE = "exploration of all interleavings of the recorded collective and file operations of real MPI executions, over enumerated programs, meshes and clock readings"
NOTE = "States are cuts of the product of the traces. Each process' behaviour is a function of what it receives by collectives, files and its clock; clocks are enumerated, and the exploration shows that collectives and files give the same on all schedules, so that one execution per configuration binds the model to the code. Deadlock freedom is decided with collectives that wait for all members, races with the weakest guarantees (roots of broadcasts and leaves of gathers go ahead)."
BOUND = {"quick": "20 programs (output, run loops, problems, transposes, gathers, tools) on 2 to 4 processes and 1- and 2-D meshes, with up to one process without data; clocks: each process late from each of the first 8 readings, for three schedules",
         "thorough": "up to 6 processes, all problem families, clocks of two processes jointly"}
ASSUMPTIONS = ["a process' own actions depend on the others only through collectives, the recorded file operations and the clock"]
TIMEOUT = 850
WORKERS = 4

SPACES2 = [("rf_cheb", "float64", (8, 4)), ("cf_cheb", "complex128", (4, 3)), ("disk", "float64", (8, 6)), ("sphere", "float64", (8, 6)), ("rf_rf", "float64", (4, 8))]
SPACES3 = [("ball", "float64", (8, 6, 4)), ("shell", "float64", (4, 4, 4)), ("rf_rf_cheb", "float64", (8, 4, 3)), ("cyl", "float64", (4, 4, 4))]
PROBLEMS2 = ["slab", "gauge", "cond", "disk", "annulus", "sphere", "diskncc", "channelncc", "stokes"]
PROBLEMS3 = ["ball", "shell", "slab3", "cyl", "shellncc"]

def meshes(n, dim):
    out = [(n,)] if dim == 2 else [(n,)] + ([(2, 2)] if n == 4 else [(2, 3)] if n == 6 else []) + [(1, n)]
    return out

def jobs(n, tier):
    th = tier == "thorough"
    out = []
    for sp in SPACES2 + SPACES3:
        for m in meshes(n, len(sp[2])):
            out.append(dict(p="fields", space=sp, mesh=m))
            out.append(dict(p="exprs", space=sp, mesh=m))
            for par in ("gather", "virtual"):
                out.append(dict(p="output", space=sp, mesh=m, par=par))
    for name in PROBLEMS2: out.append(dict(p="bvp", name=name, mesh=(n,)))
    for name in PROBLEMS3:
        for m in meshes(n, 3)[:(3 if th else 2)]: out.append(dict(p="bvp", name=name, mesh=m))
    for par in ("gather", "virtual"):
        for late in [(None, 0)] + [(r, j) for r in range(n) for j in range(16 if th else 8)]:
            out.append(dict(p="ivp", par=par, late=late, mesh=(n,)))
    for prof in ("none", "root", "parallel"): out.append(dict(p="profile", profile=prof, mesh=(n,)))
    out.append(dict(p="nlbvp", mesh=(n,)))
    out.append(dict(p="evp", mesh=(n,)))
    out.append(dict(p="tools", mesh=(n,)))
    return out

def cases(tier, seed):
    out = []
    for n in ((2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6)):
        J = jobs(n, tier)
        if tier == "quick" and n == 3: J = [j for j in J if j["p"] not in ("exprs",)]
        if tier == "quick" and n == 4: J = [j for j in J if j["p"] != "ivp" or j["late"][1] % 3 == 0]
        per = 22
        for i in range(0, len(J), per): out.append(dict(n=n, jobs=J[i:i + per]))
    return out

def run_case(case, rec):
    from mc import mpi, mpitrace
    so = mpitrace.library(os.environ["VERIF_SCRATCH"])
    mpi.into(rec, case["n"], "checks.c06", "run", case["jobs"], timeout=500, label="program", preload=so)

def run(case, rec, comm):
    from mc import mpitrace
    td = comm.bcast(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]) if comm.rank == 0 else None)
    base = pathlib.Path(td)/"out"
    if comm.rank == 0: base.mkdir()
    comm.Barrier()
    here = os.getcwd()
    os.chdir(base)
    junk = [object() for _ in range(1000*comm.rank)]
    program = Programs(case, comm, base, rec)
    prog = getattr(program, "p_" + case["p"])
    try:
        with mpitrace.Tracer(comm, str(base)) as T:
            prog()
    finally:
        os.chdir(here)
    traces = T.gather()
    if comm.rank == 0:
        n = mpitrace.check(rec, traces, case["p"])
        rec.check(n > 0, "empty", "no operation recorded")
        rec.nontriv()
        shutil.rmtree(td)
    comm.Barrier()

class LateClock:
    """Process clock: one second per reading; the late process' readings jump from the j-th on."""
    def __init__(self, late, rank):
        self.n, self.late, self.rank = 0, late, rank
    def time(self):
        self.n += 1
        r, j = self.late
        return 1000.0 + self.n + (500.0 if r == self.rank and self.n > j else 0.0)
    def __getattr__(self, n):
        import time
        return getattr(time, n)

class Programs:
    def __init__(self, case, comm, base, rec):
        self.case, self.comm, self.base, self.rec = case, comm, base, rec
        self.mesh = tuple(case["mesh"])
    def space(self):
        from mc import spaces
        name, dtype, shape = self.case["space"]
        return spaces.make(name, dtype, tuple(shape), dealias=1.5, comm=self.comm, mesh=self.mesh)

    def p_fields(self):
        import dedalus.public as d3
        S = self.space(); comm = self.comm
        subs = [S.bases, S.bases[:1], (), S.bases[-1:]]
        for bs in subs:
            for ts in ((), (S.coords,)) if not isinstance(S.coords, d3.DirectProduct) else ((),):
                f = S.dist.Field(bases=bs or None, tensorsig=ts, dtype=S.dtype)
                if bs: f.fill_random("g", seed=3)
                f["c"]; f["g"]
                f.change_scales(1.5)
                for root in range(comm.size): f.gather_data(root=root)
                f.allgather_data(); f.allgather_data("c")
                f.allreduce_data_norm("c", 2); f.allreduce_data_norm("g", np.inf); f.allreduce_data_max()
                if bs and not ts and len(bs) == len(S.bases):
                    if not isinstance(S.coords, d3.SphericalCoordinates): f.allreduce_L2_norm()
                f.require_scales(1) if hasattr(f, "require_scales") else f.change_scales(1)
                if bs: f.low_pass_filter(scales=0.5)

    def p_exprs(self):
        from mc import exprs
        name, dtype, shape = self.case["space"]
        if name in ("cyl",): name, shape = "rf_rf_cheb", (4, 4, 3)
        E = exprs.Env(name, dtype, tuple(shape), comm=self.comm, mesh=self.mesh)
        for leaf in ("f", "u"):
            X = getattr(E, leaf, None)
            if X is None: continue
        for tree in E.depth1()[::2]:
            try: op = E.build(tree)
            except Exception: continue
            out = op.evaluate() if hasattr(op, "evaluate") else op
            if hasattr(out, "change_layout"):
                try: out["c"]; out["g"]
                except Exception: pass

    def tasks(self, S):
        import dedalus.public as d3
        f = S.dist.Field(name="f", bases=S.bases, dtype=S.dtype); f.fill_random("g", seed=1)
        c = S.dist.Field(name="c", dtype=S.dtype); c["g"] = 2
        T = [("f", f), ("f*f", f*f), ("c", c), ("lap", d3.Laplacian(f) if not isinstance(S.coords, d3.DirectProduct) else f*f*f)]
        if not isinstance(S.coords, d3.S2Coordinates): T.append(("int", d3.Integrate(f)))
        if not isinstance(S.coords, d3.DirectProduct): T.append(("grad", d3.Gradient(f)))
        return f, T

    def p_output(self):
        from dedalus.core.evaluator import Evaluator
        S = self.space()
        f, T = self.tasks(S)
        par = self.case["par"]
        def handler(name, **kw):
            ev = Evaluator(S.dist, {})
            h = ev.add_file_handler(self.base/name, parallel=par, **kw)
            for n, op in T:
                h.add_task(op, layout="g", name=n)
            h.add_task(f, layout="c", name="coeff"); h.add_task(f, layout="g", scales=1.5, name="fine")
            return ev, h
        def write(ev, hs, k):
            for i in range(k): ev.evaluate_handlers(hs, iteration=i, wall_time=0.5*i, sim_time=float(i), timestep=0.1)
        ev, h = handler("a", max_writes=2); write(ev, [h], 3)
        ev, h = handler("a", max_writes=1, mode="append"); write(ev, [h], 2)
        ev, h = handler("a", mode="overwrite"); write(ev, [h], 1)
        ev2, h2 = handler("b"); ev.handlers += ev2.handlers; write(ev, [h, h2], 2)
        with h5py.File(self.base/"b"/"b_s1.h5", "r") as file: f.load_from_hdf5(file, 0, task="f")
        ev, h = handler("a"); write(ev, [h], 1)
        with h5py.File(self.base/"a"/"a_s1.h5", "r") as file: f.load_from_hdf5(file, 0, task="f")

    def heat(self, clock=None, **kw):
        import dedalus.public as d3
        import dedalus.core.solvers as solvers
        from mc import spaces
        if clock is not None: solvers.time = clock
        S = spaces.make("rf_cheb", "float64", (8, 4), dealias=1.5, comm=self.comm, mesh=self.mesh)
        xb, yb = S.bases
        u = S.dist.Field(name="u", bases=(xb, yb)); t1 = S.dist.Field(name="t1", bases=xb); t2 = S.dist.Field(name="t2", bases=xb)
        v = S.dist.VectorField(S.coords, name="v", bases=(xb, yb))
        ns = dict(lift=lambda A, n: d3.Lift(A, yb.derivative_basis(2), n), u=u, t1=t1, t2=t2, lap=d3.Laplacian)
        P = d3.IVP([u, t1, t2], namespace=ns)
        P.add_equation("dt(u) - lap(u) + lift(t1,-1) + lift(t2,-2) = - u*u")
        P.add_equation("u(y='left') = 0"); P.add_equation("u(y='right') = 0")
        solver = P.build_solver(d3.SBDF2, **kw)
        u.fill_random("g", seed=2); v.fill_random("g", seed=5)
        return S, solver, u, v

    def p_ivp(self):
        import dedalus.public as d3
        import dedalus.core.solvers as solvers, time
        clock = LateClock(self.case["late"], self.comm.rank)
        try:
            S, solver, u, v = self.heat(clock)
            par = self.case["par"]
            solver.stop_iteration = 9; solver.stop_wall_time = 30.0
            h = solver.evaluator.add_file_handler(self.base/"snap", wall_dt=3.0, max_writes=2, parallel=par)
            h.add_task(u, name="u"); h.add_task(u*u, name="uu")
            s = solver.evaluator.add_file_handler(self.base/"sim", sim_dt=0.01, parallel=par); s.add_task(d3.Integrate(u), name="I")
            cu = solver.evaluator.add_file_handler(self.base/"cust", custom_schedule=lambda wall_time=0, **kw: wall_time % 4 < 2, parallel=par); cu.add_task(u, name="u")
            c = solver.evaluator.add_file_handler(self.base/"check", iter=2, wall_dt=7.0, parallel=par); c.add_tasks(solver.state)
            cfl = d3.CFL(solver, initial_dt=1e-3, cadence=2, safety=0.5, max_change=2.0, threshold=0.05); cfl.add_velocity(v)
            flow = d3.GlobalFlowProperty(solver, cadence=2); flow.add_property(u*u, name="uu")
            while solver.proceed:
                dt = cfl.compute_timestep()
                solver.step(dt)
                if solver.iteration % 2 == 1:
                    flow.max("uu"); flow.min("uu"); flow.grid_average("uu"); flow.volume_integral("uu")
            solver.evaluate_handlers()
            solver.load_state(self.base/"check"/"check_s1.h5")
            solver.log_stats()
        finally:
            solvers.time = time

    def p_profile(self):
        kw = dict(none={}, root=dict(profile=True), parallel=dict(profile=True, parallel_profile=True))[self.case["profile"]]
        import dedalus.core.solvers as solvers
        solvers.PROFILE_DIRECTORY = self.base/"prof"
        S, solver, u, v = self.heat(**kw)
        solver.warmup_iterations = 1
        for i in range(3): solver.step(1e-3)
        solver.log_stats()

    def p_bvp(self):
        from mc.problems import Problem, ALL
        shape = ALL[self.case["name"]][2]
        P = Problem(self.case["name"], comm=self.comm, mesh=self.mesh)
        prob = P.lbvp()
        solver = prob.build_solver()
        solver.solve()
        for v in P.vars: v["g"]; v.allgather_data("c")
        solver.solve()

    def p_nlbvp(self):
        import dedalus.public as d3
        from mc import spaces
        S = spaces.make("rf_cheb", "float64", (8, 5), dealias=1.5, comm=self.comm, mesh=self.mesh)
        xb, yb = S.bases
        u = S.dist.Field(name="u", bases=yb); t1 = S.dist.Field(name="t1"); t2 = S.dist.Field(name="t2")
        m = S.dist.Field(name="m", bases=yb); m["g"] = 1 + S.dist.local_grid(yb)**2
        ns = dict(lift=lambda A, n: d3.Lift(A, yb.derivative_basis(2), n), u=u, t1=t1, t2=t2, lap=d3.Laplacian, m=m)
        P = d3.NLBVP([u, t1, t2], namespace=ns)
        P.add_equation("lap(u) + lift(t1,-1) + lift(t2,-2) = m*u*u - 1")
        P.add_equation("u(y='left') = 0"); P.add_equation("u(y='right') = 0")
        u["g"] = 0.1*S.dist.local_grid(yb)
        solver = P.build_solver()
        norm, k = np.inf, 0
        while norm > 1e-8 and k < 6:
            solver.newton_iteration()
            norm = sum(p.allreduce_data_norm("c", 2) for p in solver.perturbations); k += 1

    def p_evp(self):
        import dedalus.public as d3
        from mc import spaces
        S = spaces.make("rf_cheb", "float64", (8, 5), dealias=1.5, comm=self.comm, mesh=self.mesh)
        xb, yb = S.bases
        u = S.dist.Field(name="u", bases=(xb, yb)); t1 = S.dist.Field(name="t1", bases=xb); t2 = S.dist.Field(name="t2", bases=xb); s = S.dist.Field(name="s")
        P = d3.EVP([u, t1, t2], eigenvalue=s, namespace=dict(lift=lambda A, n: d3.Lift(A, yb.derivative_basis(2), n), u=u, t1=t1, t2=t2, lap=d3.Laplacian, s=s))
        P.add_equation("s*u + lap(u) + lift(t1,-1) + lift(t2,-2) = 0")
        P.add_equation("u(y='left') = 0"); P.add_equation("u(y='right') = 0")
        solver = P.build_solver()
        solver.build_matrices(solver.subproblems, ["M", "L"])     # collective; the solutions are not
        for sp in solver.subproblems:
            solver.solve_dense(sp); solver.solve_sparse(sp, N=2, target=-1.0)
            solver.set_state(0, sp.subsystems[0])

    def p_tools(self):
        from dedalus.tools.parallel import Sync, RotateProcesses, parallel_mkdir
        from dedalus.extras.flow_tools import GlobalArrayReducer
        comm = self.comm
        parallel_mkdir(self.base/"new", comm=comm)
        (self.base/"new"/f"p{comm.rank}").write_text("x")
        with RotateProcesses(comm):
            with open(self.base/"log", "a") as f: f.write(str(comm.rank))
        with Sync(comm):
            if comm.rank == 0: (self.base/"ready").write_text("1")
        self.rec.check((self.base/"ready").read_text() == "1", "ready", "file written inside Sync is not complete")
        R = GlobalArrayReducer(comm)
        for data in (np.arange(3.0)*comm.rank, np.zeros(0) if comm.rank else np.ones(2)):
            R.global_min(data); R.global_max(data); R.global_mean(data)
