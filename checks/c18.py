"""C18: run-loop bookkeeping matches the steps actually taken.

All sequences over an alphabet of run-loop operations run on a real solver with a controlled clock, against a reference
of (iteration, sim_time, initial values, stop criteria, wall clock, enforcement count)."""
import itertools, os, tempfile
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all sequences of run-loop operations under a controlled clock, against a reference model of the bookkeeping"
NOTE = "All sequences of a 21-operation alphabet up to the stated depth on real solvers of one multistep and one Runge-Kutta scheme; evolve() over all combinations of stop criteria and failing steps."
BOUND = {"quick": "all operation sequences of length 3 from 21 operations, 3 schemes x 2 dtypes; evolve: all (stop_iteration, stop_sim_time, stop_wall_time, warmup, failing step) combinations from small sets",
         "thorough": "length 4; larger sets"}
ASSUMPTIONS = ["the clock is replaced by a controlled non-decreasing clock"]
TIMEOUT = 800

OPS = [("step", 0.5), ("step", 0.25), ("step", "nan"), ("step", "inf"), ("stop_it", 2), ("stop_it", 41), ("stop_it", "inf"), ("stop_sim", 0.5), ("stop_sim", 0.75), ("stop_sim", "inf"),
       ("stop_wall", 10.0), ("stop_wall", "inf"), ("tick", 6.0), ("load", 0), ("load", 2), ("settime", 0.125), ("setiter", 7), ("failrhs", None), ("stats", None), ("evolve", 2), ("loadmissing", 0)]
ITS = (0, 1, 40)
SCHEMES = [("SBDF2", "float64"), ("SBDF3", "float64"), ("RK222", "float64"), ("RK443", "complex128")]

def cases(tier, seed):
    depth = 3 if tier == "quick" else 4
    out = []
    for s, d in SCHEMES:
        for k in range(len(OPS)):
            out.append(dict(t="ops", scheme=s, dtype=d, first=k, depth=depth))
    for s in ("SBDF1", "SBDF4", "RK222", "RKSMR", "CNAB2"):
        for warm in (0, 1, 2, 3, 10):
            out.append(dict(t="evolve", scheme=s, warm=warm))
    for s in ("SBDF1", "SBDF2", "SBDF3", "SBDF4", "CNLF2", "RK111", "RK443"):
        out.append(dict(t="cadence", scheme=s, dtype="float64"))
        out.append(dict(t="cadence", scheme=s, dtype="complex128"))
    for s in ("RK111", "RK222", "RK443", "RKSMR", "RKGFY", "SBDF1", "SBDF3", "CNAB2"):
        out.append(dict(t="stagefail", scheme=s))
    out.append(dict(t="project"))
    out.append(dict(t="bvp"))
    return out

class Clock:
    def __init__(self):
        self.t = 1000.0
        self.tickstep = 0.0
        self.reads = 0
    def time(self):
        self.reads += 1
        self.t += self.tickstep
        return self.t
    def __getattr__(self, name):
        import time
        return getattr(time, name)

class Boom(Exception):
    pass

def problem(dtype, clock, n=4, scheme="SBDF2", fail=None, **kw):
    import dedalus.public as d3
    from dedalus.core import solvers
    solvers.time = clock
    dtype = np.dtype(dtype).type
    c = d3.Coordinate("x")
    dist = d3.Distributor(c, dtype=dtype)
    basis = (d3.RealFourier if dtype is np.float64 else d3.ComplexFourier)(c, size=n, bounds=(0, 2*np.pi), dealias=1.5)
    u = dist.Field(name="u", bases=basis)
    dx = lambda A: d3.Differentiate(A, c)
    def gf(*args):
        if fail is not None and fail["on"]:
            raise Boom()
        return np.zeros(6, dtype=dtype)
    F = d3.GeneralFunction(dist, u.domain, (), dtype, "g", gf) if fail is not None else None
    p = d3.IVP([u])
    p.add_equation((d3.dt(u) - dx(dx(u)), F if F is not None else 0))
    s = p.build_solver(scheme, **kw)
    return s, u

def run_case(case, rec):
    import logging
    logging.disable(logging.CRITICAL)
    globals()["t_" + case["t"]](case, rec)

def checkpoint(dtype, d):
    """A file with three writes of known metadata."""
    clock = Clock()
    s, u = problem(dtype, clock)
    h = s.evaluator.add_file_handler(os.path.join(d, "ck"), iter=1)
    h.add_task(u, name="u", layout="c")
    u["g"] = 1.0
    for k in range(3):
        s.iteration = ITS[k]        # the last write is far beyond any warmup
        s.step(0.25)
    return os.path.join(d, "ck", "ck_s1.h5")

def t_ops(case, rec):
    with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
        path = checkpoint(case["dtype"], d)
        missing = os.path.join(d, "nofile.h5")
        for seq in itertools.product(range(len(OPS)), repeat=case["depth"] - 1):
            run_seq(case, rec, [OPS[case["first"]]] + [OPS[k] for k in seq], path, missing)
            rec.trace()
            if rec.nviol > 4:
                return

def run_seq(case, rec, seq, path, missing):
    clock, fail = Clock(), dict(on=False)
    key = (case["scheme"], case["dtype"])
    # One solver per process and scheme, put back to its initial bookkeeping through its public attributes
    cache = run_seq.__dict__.setdefault("cache", {})
    if key not in cache:
        s, u = problem(case["dtype"], clock, scheme=case["scheme"], fail=fail)
        cache[key] = (s, u, clock, fail)
    s, u, clock, fail = cache[key]
    from dedalus.core import solvers
    solvers.time = clock
    fail["on"] = False
    clock.tickstep = 0.0
    s.stop_sim_time = s.stop_wall_time = s.stop_iteration = np.inf
    s.sim_time = s.initial_sim_time = 0.0
    s.iteration = s.initial_iteration = 0
    s.start_time_end = None; s.run_time_start = None
    s.init_time = clock.t
    m = dict(it=0, t=0.0, sit=np.inf, sst=np.inf, swt=np.inf, dt=None, t0=clock.t)
    if hasattr(s, "dt"):
        del s.dt
    u["g"] = 1.0
    num = lambda x: {"nan": np.nan, "inf": np.inf}.get(x, x)
    for op, a in seq:
        rec.step()
        before = u["c"].copy()
        if op == "step":
            x = num(a)
            try:
                s.step(x)
                rec.check(np.isfinite(x), "badstep", f"{seq}: step({x}) accepted")
                m["it"] += 1; m["t"] += x; m["dt"] = x
            except ValueError:
                rec.check(not np.isfinite(x), "badstep", f"{seq}: step({x}) rejected")
                rec.check(np.array_equal(before, u["c"]), "badstep:state", f"{seq}: a rejected step changes the state")
        elif op == "stop_it":
            s.stop_iteration = m["sit"] = num(a)
        elif op == "stop_sim":
            s.stop_sim_time = m["sst"] = num(a)
        elif op == "stop_wall":
            s.stop_wall_time = m["swt"] = num(a)
        elif op == "tick":
            clock.t += a
        elif op == "load":
            w, dt = s.load_state(path, index=a)
            m["it"], m["t"] = ITS[a], 0.25*a
            rec.check(w == a + 1 and dt == 0.25, "load", f"{seq}: write {w} dt {dt}")
        elif op == "loadmissing":
            try:
                s.load_state(missing)
                rec.violate("loadmissing", "a missing file loads")
            except OSError:
                pass
        elif op == "settime":
            s.sim_time = m["t"] = a
        elif op == "setiter":
            s.iteration = m["it"] = a
        elif op == "failrhs":
            fail["on"] = True
            try:
                s.step(0.5)
                rec.violate("failrhs", f"{seq}: an exception in the right-hand side is lost")
            except Boom:
                pass
            fail["on"] = False
        elif op == "stats":
            s.log_stats()
        elif op == "evolve":
            s.stop_iteration = m["sit"] = m["it"] + a
            n = 0
            while m["it"] < m["sit"] and m["t"] < m["sst"] and clock.t - m["t0"] < m["swt"]:
                m["it"] += 1; m["t"] += 0.125; m["dt"] = 0.125
            s.evolve(lambda: 0.125)
        where = f"{seq} after {op} {a}"
        rec.check(s.iteration == m["it"], "iteration", f"{where}: iteration {s.iteration}, steps taken {m['it']}")
        rec.check(abs(s.sim_time - m["t"]) < 1e-12, "sim_time", f"{where}: sim_time {s.sim_time}, expected {m['t']}")
        rec.check(abs(float(np.ravel(s.problem.time["g"])[0]) - m["t"]) < 1e-12, "time field", f"{where}: time field {s.problem.time['g']}, expected {m['t']}")
        proceed = not (m["t"] >= m["sst"] or clock.t - m["t0"] >= m["swt"] or m["it"] >= m["sit"])
        rec.check(bool(s.proceed) == proceed, "proceed", f"{where}: proceed {s.proceed}, expected {proceed} for {m}")
        rec.check(abs(s.wall_time - (clock.t - m["t0"])) < 1e-9, "wall_time", f"{where}")
        if m["dt"] is not None:
            rec.check(s.dt == m["dt"], "dt", f"{where}: dt {s.dt}, last step {m['dt']}")
        rec.check(np.all(np.isfinite(u["c"])), "finite", f"{where}")
        rec.state((m["it"], m["t"], m["sit"], m["sst"], m["swt"], clock.t - m["t0"]))

def t_evolve(case, rec):
    inf = np.inf
    fail = dict(on=False)
    clock = Clock()
    for sit, sst, swt, dtseq, it0 in itertools.product((0, 1, 2, 3, 4, 5, 18, 20, inf), (0, 0.3, 1.0, inf), (0, 2.5, 6.5, inf), ((0.25,), (0.5, 0.25), (0.1, 0.2, np.nan)), (0, 17)):
        s, u = cached(("ev", case["scheme"], case["warm"]), lambda: problem("float64", clock, scheme=case["scheme"], warmup_iterations=case["warm"])) 
        clock = cached_clock(case, clock)
        s.stop_iteration, s.stop_sim_time, s.stop_wall_time = sit, sst, swt
        s.sim_time = s.initial_sim_time = 0.0
        s.iteration = s.initial_iteration = it0
        s.start_time_end = None; s.run_time_start = None
        clock.tickstep = 1e-6
        u["g"] = 1.0
        s.init_time = clock.t
        calls = []
        def dtfun():
            calls.append(1)
            clock.t += 1.0
            return dtseq[(len(calls) - 1) % len(dtseq)]
        # Reference
        it, t, w, n, outcome = it0, 0.0, 0.0, 0, "done"
        if sit == inf and sst == inf and swt == inf:
            outcome = "valueerror"
        else:
            while True:
                if t >= sst or w >= swt or it >= sit:
                    break
                dt = dtseq[n % len(dtseq)]; n += 1; w += 1.0
                if not np.isfinite(dt):
                    outcome = "valueerror"; break
                it += 1; t += dt
        rec.step(); rec.trace()
        try:
            s.evolve(dtfun)
            got = "done"
        except ValueError:
            got = "valueerror"
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        what = f"{case['scheme']} from iteration {it0} warmup {case['warm']} stop {sit} {sst} {swt} dts {dtseq}"
        rec.check(got == outcome, "evolve", f"{what}: {got}, expected {outcome}")
        rec.check(s.iteration == it and len(calls) == n, "evolve:steps", f"{what}: iteration {s.iteration} after {len(calls)} timesteps, expected {it} after {n}")
        rec.check(abs(s.sim_time - t) < 1e-12, "evolve:time", f"{what}: {s.sim_time} expected {t}")
        rec.state((sit, sst, swt, dtseq, it0))

_cache = {}
def cached(key, make):
    if key not in _cache:
        _cache[key] = make()
    return _cache[key]
def cached_clock(case, clock):
    return cached(("clock", case["scheme"], case["warm"]), lambda: clock)

def t_cadence(case, rec):
    """Symmetry enforcement happens for `steps` iterations out of every cadence, on real problems only."""
    clock = Clock()
    for cad in (0, None, 1, 2, 3, 5, 7):
        for start in (0, 3, 6):
            s, u = problem(case["dtype"], clock, scheme=case["scheme"], enforce_real_cadence=cad)
            s.iteration = s.initial_iteration = start
            calls = []
            orig = s.enforce_hermitian_symmetry
            s.enforce_hermitian_symmetry = lambda fields: (calls.append((s.iteration, list(fields))), orig(fields))
            u["g"] = 1.0
            for i in range(12):
                it = s.iteration
                n = len(calls)
                s.step(0.01)
                rec.step()
                expect = bool(cad) and case["dtype"] == "float64" and (it % cad) < s.timestepper.steps
                rec.check((len(calls) - n) == int(expect), "cadence", f"{case['scheme']} {case['dtype']} cadence {cad} iteration {it}: enforced {len(calls)-n} times, expected {int(expect)}")
                if len(calls) > n:
                    rec.check(calls[-1][1] == list(s.state), "cadence:fields", "not exactly the state is enforced")
                rec.state((cad, it))
            rec.trace()

def t_stagefail(case, rec):
    """The right-hand side fails at each evaluation of each of the first steps in turn; a later step repeats it."""
    for nstep, nfail in itertools.product(range(4), range(4)):
        clock, fail = Clock(), dict(on=False)
        s, u = problem("float64", clock, scheme=case["scheme"], fail=fail)
        s0, u0 = problem("float64", clock, scheme=case["scheme"], fail=dict(on=False))
        if nfail >= s.timestepper.stages:
            continue
        for f in (u, u0):
            f["c"] = [1, 0, 0.5, 0.25]
        for i in range(nstep):
            s.step(0.1); s0.step(0.1)
        class Count:
            def __init__(self): self.n = 0
            def __getitem__(self, k):
                self.n += 1
                return self.n - 1 == nfail
        cnt = Count()
        class F(dict):        # fails at evaluation number nfail of this step
            def __getitem__(self, k): return cnt[k]
        fail_func_cells(s, F())
        before, t, it = u["c"].copy(), s.sim_time, s.iteration
        key = "stagefail:later" if nfail else "stagefail:first"
        try:
            s.step(0.1)
            rec.violate("stagefail:lost", f"{case['scheme']}: the exception is lost")
            continue
        except Boom:
            pass
        rec.step(); rec.state((nstep, nfail)); rec.trace()
        what = f"{case['scheme']} step {nstep}, right-hand side evaluation {nfail} fails:"
        rec.check(s.iteration == it and s.sim_time == t, key, f"{what} sim_time {t} -> {s.sim_time}, iteration {it} -> {s.iteration}")
        rec.check(np.array_equal(u["c"], before), key, f"{what} the state changes")
        if nfail == 0:
            s.step(0.1); s0.step(0.1)
            s.step(0.1); s0.step(0.1)
            rec.close(u["c"], u0["c"], "stagefail:retry", f"{what} repeating it gives another trajectory")

def fail_func_cells(solver, holder):
    """Points the failure switch read by the right-hand side at another holder."""
    import dedalus.public as d3
    for g in solver.problem.equations[0]["F"].atoms(d3.GeneralFunction) or [solver.problem.equations[0]["F"]]:
        fn = g.func
        for cell in fn.__closure__:
            if isinstance(cell.cell_contents, dict):
                cell.cell_contents = holder

def t_project(case, rec):
    """Enforcement changes no Hermitian-symmetric state, removes exactly the rest, and leaves other fields alone."""
    from mc import spaces
    import dedalus.public as d3
    clock = Clock()
    s, u = problem("float64", clock)
    for name in ("rf", "rf_cheb", "rf_rf", "disk", "annulus", "sphere", "ball", "shell", "cyl"):
        for rank in (0, 1, 2) if name in ("disk", "sphere", "ball", "shell", "rf_cheb") else (0, 1):
            for dealias in (1, 1.5):
                S = spaces.make(name, "float64", dealias=dealias)
                for k, (sc, lay) in enumerate(itertools.product((1, dealias, 2), ("c", "g"))):
                    f, h = S.field(rank), S.field(rank)
                    X = spaces.random_coeffs(f, 5 + k + rec.seed)
                    f["c"] = X; h["c"] = X
                    if lay == "g":
                        f.change_scales(sc); f["g"]; f["c"]
                    f.change_scales(dealias); f["g"]; P = f["c"].copy()      # projection
                    f["c"] = X
                    f.change_scales(sc); f[lay]
                    from dedalus.core.solvers import InitialValueSolver
                    class Shell: pass
                    sh = Shell()
                    from dedalus.core.evaluator import Evaluator
                    sh.evaluator = Evaluator(S.dist, {})
                    InitialValueSolver.enforce_hermitian_symmetry(sh, [f])
                    rec.step(); rec.state((name, rank, dealias, k))
                    rec.check(f.layout is S.dist.coeff_layout, "project:layout", f"{name}")
                    rec.close(f["c"], P, "project", f"{name} rank {rank} dealias {dealias} from {lay} scale {sc}:")
                    rec.close(h["c"], X, "project:bystander", f"{name}")
                    InitialValueSolver.enforce_hermitian_symmetry(sh, [f])
                    rec.close(f["c"], P, "project:idempotent", f"{name} rank {rank}")
                    rec.trace()

def t_bvp(case, rec):
    """Boundary value solvers count their iterations and re-evaluate their right-hand sides at each."""
    import dedalus.public as d3
    from dedalus.core import solvers
    c = d3.Coordinate("x")
    dist = d3.Distributor(c, dtype=np.float64)
    b = d3.RealFourier(c, size=4, bounds=(0, 2*np.pi))
    dx = lambda A: d3.Differentiate(A, c)
    alphabet = ["solve", "change", "reset", "handlers"]
    for seq in itertools.product(alphabet, repeat=4):
        u, g = dist.Field(name="u", bases=b), dist.Field(name="g", bases=b)
        p = d3.LBVP([u]); p.add_equation((u - dx(dx(u)), 2*g))
        s = p.build_solver()
        g["c"] = [1, 0, 2, 3]
        it = 0
        G = np.array([1, 0, 2, 3.])
        for op in seq + ("solve",):
            rec.step()
            if op == "solve":
                s.solve(); it += 1
                rec.close(u["c"], 2*G/np.array([1, 1, 2, 2]), "lbvp", f"{seq}: solution is not that of the current right-hand side")
            elif op == "change":
                G = G + np.array([1, 0, 0.5, -1]); g["c"] = G
            elif op == "reset":
                s.iteration = it = 0
            elif op == "handlers":
                s.evaluate_handlers()
            rec.check(s.iteration == it, "lbvp:iteration", f"{seq}: {s.iteration} expected {it}")
        rec.trace(); rec.state(seq)
