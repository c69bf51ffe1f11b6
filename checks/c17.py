"""C17: every timestepper follows its scheme for every timestep history.

Every timestep sequence over a finite set of timesteps, optionally with one disturbance between two steps, runs on real
solvers of every registered scheme; after every step the state is compared with a dense reference recurrence whose
variable-step coefficients are derived here from the interpolation and order conditions that define each scheme."""
import itertools
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all timestep sequences x one disturbance, against reference recurrences derived from the schemes' defining conditions"
NOTE = "All sequences over a 3- or 4-element timestep alphabet up to the stated length, for all 13 schemes, on ODE systems with known matrices and on PDEs (singular mass matrices, boundary conditions, complex data); PDE matrices are taken from the solver (decided in C13)."
BOUND = {"quick": "timestep sequences of length 5 over 3 values (ODE), length 4 over 3 values (PDEs), one disturbance of 10 kinds at each position of length-5 runs; coefficient order conditions on 5^3 ratio grids",
         "thorough": "length 7 over 3 values and length 5 over 5 values (ODE), length 5 over 3 (PDEs), two disturbances"}
ASSUMPTIONS = ["matrices and right-hand sides of the PDE problems are decided in C13/C11"]
TIMEOUT = 800

SCHEMES = ["CNAB1", "SBDF1", "CNAB2", "MCNAB2", "SBDF2", "CNLF2", "SBDF3", "SBDF4", "RK111", "RK222", "RK443", "RKSMR", "RKGFY"]
ORDER = dict(CNAB1=1, SBDF1=1, CNAB2=2, MCNAB2=2, SBDF2=2, CNLF2=2, SBDF3=3, SBDF4=4, RK111=1, RK222=2, RK443=3, RKSMR=2, RKGFY=2)
DISTURB = ["scales", "gridlayout", "modify", "modify_hi", "forcing", "handlers", "handlers_expr", "settime", "badstep", "rebuild", "solver2", "sametype"]

def cases(tier, seed):
    out = []
    q = tier == "quick"
    for s in SCHEMES:
        out.append(dict(t="coeffs", scheme=s))
        for stored in (True, False):
            out.append(dict(t="seq", scheme=s, prob="ode", stored=stored, alpha=[1, 0.5, 2], n=5 if q else 7, dtype="float64"))
        if not q:
            out.append(dict(t="seq", scheme=s, prob="ode", stored=True, alpha=[1, 0.5, 2, 1/3, 4], n=5, dtype="float64"))
        out.append(dict(t="seq", scheme=s, prob="ode", stored=True, alpha=[1, 0.5], n=4, dtype="complex128"))
        for prob, dtype in (("heat", "float64"), ("wave", "complex128"), ("disk", "float64")):
            out.append(dict(t="seq", scheme=s, prob=prob, stored=True, alpha=[1, 0.5, 2] if prob != "disk" else [1, 2], n=3 if q else 5, dtype=dtype))
        for prob in ("ode", "heat", "linear"):
            out.append(dict(t="disturb", scheme=s, prob=prob, stored=prob != "ode", n=5, dtype="float64", two=not q))
    out.sort(key=lambda c: -(len(c.get("alpha", [0])) ** c["n"] if c["t"] == "seq" else 100))
    return out

# ---- reference coefficients -------------------------------------------------------------------------------------

def lagrange_value(ts, t):
    """Weights w with p(t) = sum w_j p(ts_j) for polynomials of degree < len(ts)."""
    n = len(ts)
    V = np.vander(ts, n, increasing=True).T
    return np.linalg.solve(V, [t**p for p in range(n)])

def lagrange_deriv(ts, t):
    n = len(ts)
    V = np.vander(ts, n, increasing=True).T
    return np.linalg.solve(V, [p * t**(p-1) if p else 0 for p in range(n)])

def ref_coeffs(scheme, dts):
    """(a, b, c) by age for the step of size dts[0]; dts: all timesteps so far, latest first."""
    start = {"CNAB2": "CNAB1", "MCNAB2": "CNAB1", "CNLF2": "CNAB1", "SBDF2": "SBDF1", "SBDF3": "SBDF2", "SBDF4": "SBDF3"}
    need = {"CNAB1": 1, "SBDF1": 1, "CNAB2": 2, "MCNAB2": 2, "CNLF2": 2, "SBDF2": 2, "SBDF3": 3, "SBDF4": 4}
    while len(dts) < need[scheme]:
        scheme = start[scheme]
    s = need[scheme]
    # Times in units of the current step, origin at the previous time level
    k = dts[0]
    ts = [1.0, 0.0]
    for d in dts[1:s]:
        ts.append(ts[-1] - d / k)
    ts = np.array(ts)
    a = np.zeros(s+1); b = np.zeros(s+1); c = np.zeros(s+1)
    if scheme.startswith("SBDF"):
        a[:] = lagrange_deriv(ts, 1.0) / k
        b[0] = 1
        c[1:] = lagrange_value(ts[1:], 1.0)
    elif scheme == "CNLF2":
        a[:] = lagrange_deriv(ts, 0.0) / k
        # Second-order average with weight 1/2 on the oldest level
        b[2] = 0.5
        b[0] = -b[2] * ts[2]        # sum b_j t_j = 0
        b[1] = 1 - b[0] - b[2]
        c[1] = 1
    else:
        a[:2] = np.array([1, -1]) / k
        if scheme == "MCNAB2":
            b[2] = 1/16
            b[0] = 0.5 - b[2] * ts[2]      # sum b_j t_j = 1/2
            b[1] = 1 - b[0] - b[2]
        else:
            b[:2] = 0.5
        c[1:] = lagrange_value(ts[1:], 0.5) if s == 2 else [1]
    return a, b, c

class Ref:
    """Dense recurrence for M.dt(X) + L.X = F(X, t) over independent blocks."""
    def __init__(self, scheme, cls, prob):
        self.scheme, self.cls, self.prob = scheme, cls, prob
        self.multistep = hasattr(cls, "compute_coefficients")
        self.hist = []
        self.dts = []

    def step(self, X, t, dt):
        P = self.prob
        M, L = P.M(), P.L()
        if self.multistep:
            self.dts.insert(0, dt)
            a, b, c = ref_coeffs(self.scheme, self.dts)
            self.hist.insert(0, ([m @ x for m, x in zip(M, X)], [l @ x for l, x in zip(L, X)], P.F(X, t)))
            out = []
            for i in range(len(X)):
                rhs = 0
                for j in range(1, len(a)):
                    mx, lx, f = (h[i] for h in self.hist[j-1])
                    rhs = rhs + c[j]*f - a[j]*mx - b[j]*lx
                out.append(np.linalg.solve(a[0]*M[i] + b[0]*L[i], rhs))
            return out, t + dt
        s = self.cls.stages
        A, H, c = TABLEAU[self.scheme]
        X0 = X
        Ls, Fs = [], []
        for i in range(1, s+1):
            Ls.append([l @ x for l, x in zip(L, X)])
            Fs.append(P.F(X, t + dt*c[i-1]))
            new = []
            for n in range(len(X)):
                rhs = M[n] @ X0[n]
                for j in range(i):
                    rhs = rhs + dt*A[i][j]*Fs[j][n] - dt*H[i][j]*Ls[j][n]
                new.append(np.linalg.solve(M[n] + dt*H[i][i]*L[n], rhs))
            X = new
        return X, t + dt

g_ = 1 - 1/np.sqrt(2)
d_ = 1 - 1/(2*g_)
TABLEAU = {
    # scheme: (explicit A, implicit H, c), from the publications named in the documentation
    "RK111": ([[0, 0], [1, 0]], [[0, 0], [0, 1]], [0, 1]),
    "RK222": ([[0, 0, 0], [g_, 0, 0], [d_, 1-d_, 0]], [[0, 0, 0], [0, g_, 0], [0, 1-g_, g_]], [0, g_, 1]),
    "RK443": ([[0]*5, [1/2, 0, 0, 0, 0], [11/18, 1/18, 0, 0, 0], [5/6, -5/6, 1/2, 0, 0], [1/4, 7/4, 3/4, -7/4, 0]],
              [[0]*5, [0, 1/2, 0, 0, 0], [0, 1/6, 1/2, 0, 0], [0, -1/2, 1/2, 1/2, 0], [0, 3/2, -3/2, 1/2, 1/2]], [0, 1/2, 2/3, 1/2, 1]),
    # Spalart, Moser & Rogers 1991: u' = u + dt [L(alpha u + beta u') + gamma N + zeta N_prev] over three substeps
    "RKSMR": (None, None, None),
    "RKGFY": ([[0, 0, 0], [1, 0, 0], [0.5, 0.5, 0]], [[0, 0, 0], [0.5, 0.5, 0], [0.5, 0, 0.5]], [0, 1, 1]),
}
def _smr():
    al, be, ga, ze = [29/96, -3/40, 1/6], [37/160, 5/24, 1/6], [8/15, 5/12, 3/4], [0, -17/60, -5/12]
    A = np.zeros((4, 4)); H = np.zeros((4, 4)); c = np.zeros(4)
    for i in range(3):     # substep i+1 adds to the previous stage
        A[i+1] = A[i]; H[i+1] = H[i]
        A[i+1, i] += ga[i]
        if i: A[i+1, i-1] += ze[i]
        H[i+1, i] += al[i]; H[i+1, i+1] += be[i]
        c[i+1] = c[i] + al[i] + be[i]
    return A.tolist(), H.tolist(), c.tolist()
TABLEAU["RKSMR"] = _smr()

# ---- problems ---------------------------------------------------------------------------------------------------

class Prob:
    """One problem instance: fields, problem, RHS evaluation on arbitrary states."""
    def __init__(self, name, dtype):
        import dedalus.public as d3
        self.name, self.dtype = name, np.dtype(dtype).type
        getattr(self, "p_" + name)(d3)
        self.d3 = d3
        self.solver = None

    def common(self, coords):
        d3 = __import__("dedalus.public").public
        self.dist = d3.Distributor(coords, dtype=self.dtype)
        self.nu = self.dist.Field(name="nu"); self.nu["g"] = 1.0
        self.time = self.dist.Field(name="t", dtype=np.float64)

    def p_ode(self, d3):
        c = d3.CartesianCoordinates("x")
        self.common(c)
        D = self.dist
        u, v, g, nu = D.Field(name="u"), D.Field(name="v"), D.Field(name="g"), self.nu
        t = self.time
        self.state, self.g = [u, v], g
        self.rhs = [-u*v + (t*t + g if self.dtype is np.float64 else t*t*g), u*u*u - 2*t*g]
        p = d3.IVP([u, v], time=t)
        p.add_equation((d3.dt(u) + 0.3*d3.dt(v) + 2*nu*u - v, self.rhs[0]))
        p.add_equation((d3.dt(v) + 1.5*v + 0.5*u, self.rhs[1]))
        self.problem = p

    def p_linear(self, d3):
        """No dependence of the right-hand side on the state, so that evaluating it leaves the state alone."""
        c = d3.Coordinate("x")
        self.common(c)
        b = d3.RealFourier(c, size=4, bounds=(0, 2*np.pi))
        D = self.dist
        u, g, nu = D.Field(name="u", bases=b), D.Field(name="g", bases=b), self.nu
        self.state, self.g = [u], g
        dx = lambda A: d3.Differentiate(A, c)
        self.rhs = [1*g]
        p = d3.IVP([u], time=self.time)
        p.add_equation((d3.dt(u) - nu*dx(dx(u)) + dx(u), self.rhs[0]))
        self.problem = p

    def p_heat(self, d3):
        c = d3.CartesianCoordinates("x", "z")
        self.common(c)
        D, nu, t = self.dist, self.nu, self.time
        xb = d3.RealFourier(c["x"], size=4, bounds=(0, 2*np.pi), dealias=1.5)
        zb = d3.ChebyshevT(c["z"], size=4, bounds=(0, 1), dealias=1.5)
        u = D.Field(name="u", bases=(xb, zb))
        t1, t2 = D.Field(name="t1", bases=xb), D.Field(name="t2", bases=xb)
        g = D.Field(name="g", bases=(xb, zb))
        ez, = [lambda A: d3.Differentiate(A, c["z"])]
        dx = lambda A: d3.Differentiate(A, c["x"])
        lift = lambda A, n: d3.Lift(A, zb.derivative_basis(2), n)
        self.state, self.g = [u, t1, t2], g
        self.rhs = [-u*dx(u) + t*g, t*t, u(z=0.5)*0.1]
        p = d3.IVP([u, t1, t2], time=t)
        p.add_equation((d3.dt(u) - nu*(dx(dx(u)) + ez(ez(u))) + lift(t1, -1) + lift(t2, -2), self.rhs[0]))
        p.add_equation((u(z=0), self.rhs[1]))
        p.add_equation((u(z=1) - ez(u)(z=1), self.rhs[2]))
        self.problem = p

    def p_wave(self, d3):
        c = d3.Coordinate("x")
        self.common(c)
        D, nu, t = self.dist, self.nu, self.time
        b = d3.ComplexFourier(c, size=6, bounds=(0, 2*np.pi), dealias=1.5)
        u, v, g = (D.Field(name=n, bases=b) for n in "uvg")
        dx = lambda A: d3.Differentiate(A, c)
        self.state, self.g = [u, v], g
        self.rhs = [u*v - 1j*g, t*u*u]
        p = d3.IVP([u, v], time=t)
        p.add_equation((d3.dt(u) - 1j*nu*dx(dx(u)) + v, self.rhs[0]))
        p.add_equation((d3.dt(v) + 2*dx(u), self.rhs[1]))
        self.problem = p

    def p_disk(self, d3):
        c = d3.PolarCoordinates("phi", "r")
        self.common(c)
        D, nu, t = self.dist, self.nu, self.time
        b = d3.DiskBasis(c, shape=(4, 4), dtype=self.dtype, radius=1, dealias=(1.5, 1.5))
        u, tau = D.VectorField(c, name="u", bases=b), D.VectorField(c, name="tau", bases=b.edge)
        g = D.VectorField(c, name="g", bases=b)
        self.state, self.g = [u, tau], g
        self.rhs = [-u@d3.grad(u) + t*g, 0]
        p = d3.IVP([u, tau], time=t)
        p.add_equation((d3.dt(u) - nu*d3.lap(u) + d3.lift(tau, b, -1), self.rhs[0]))
        p.add_equation((u(r=1), self.rhs[1]))
        self.problem = p

    def init(self, seed):
        from mc.spaces import random_coeffs
        for i, f in enumerate(self.state + [self.g]):
            f["c"] = 0.3 * random_coeffs(f, 100*i + seed) * f.valid_modes
            f["g"]; f["c"]      # Hermitian part only
        self.nu["g"] = 1.0

    def build(self, scheme, stored=True):
        self.solver = self.problem.build_solver(scheme, store_expanded_matrices=stored)
        return self.solver

    # Reference side (on a shadow instance)
    def sps(self):
        return [sp for sp in self.solver.subproblems if sp.size]

    def pack(self):
        for f in self.state: f.change_layout("c")
        out = []
        for sp in self.sps():
            cols = []
            for ss in sp.subsystems:
                x = np.concatenate([f.data[ss.field_slices(f)].ravel() for f in self.state])
                cols.append(sp.pre_right_pinv @ x)
            out.append(np.array(cols).T)
        return out

    def unpack(self, X):
        for f in self.state:
            f.preset_scales(1); f["c"] = 0
        for sp, x in zip(self.sps(), X):
            for j, ss in enumerate(sp.subsystems):
                y = sp.pre_right @ x[:, j]
                i = 0
                for f in self.state:
                    sl = ss.field_slices(f)
                    n = f.data[sl].size
                    f.data[sl] = y[i:i+n].reshape(f.data[sl].shape)
                    i += n

    def M(self):
        if self.name == "ode":
            return [np.array([[1, 0.3], [0, 1]])]
        return [sp.M_min.toarray() for sp in self.sps()]

    def L(self):
        nu = self.nu["g"].ravel()[0]
        if self.name == "ode":
            return [np.array([[2*nu, -1], [0.5, 1.5]])]
        return [sp.L_min.toarray() for sp in self.sps()]

    def F(self, X, t):
        if self.name == "ode":
            (u,), (v,) = X[0]
            g = self.g["g"].ravel()[0]
            return [np.array([[-u*v + (t*t + g if self.dtype is np.float64 else t*t*g)], [u**3 - 2*t*g]])]
        self.unpack(X)
        self.time["g"] = t
        fs = []
        for eq, r in zip(self.problem.equations, self.rhs):
            if isinstance(r, int):
                fs.append(None); continue
            e = eq["F"].evaluate()
            e.change_layout("c")
            fs.append(e.data.copy())
        out = []
        for sp in self.sps():
            cols = []
            for ss in sp.subsystems:
                parts = []
                for eq, f in zip(self.problem.equations, fs):
                    sl = ss.field_slices(eq["F"])
                    if f is None:
                        parts.append(np.zeros(int(np.prod(ss.field_shape(eq["F"])))))
                    else:
                        parts.append(f[sl].ravel())
                cols.append(sp.pre_left @ np.concatenate(parts))
            out.append(np.array(cols).T)
        return out

class Run:
    """A real solver and its reference, stepped together."""
    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.P = Prob(case["prob"], case["dtype"])
        self.S = Prob(case["prob"], case["dtype"])     # shadow: never stepped
        self.S.build("RK111")
        self.h = 0.05

    def start(self):
        from dedalus.core import timesteppers
        P, S, case = self.P, self.S, self.case
        P.init(3 + self.rec.seed); S.init(3 + self.rec.seed)
        P.time["g"] = 0.25
        P.problem.time["g"] = 0.25
        self.reset_nu = False
        self.solver = P.build(case["scheme"], case["stored"])
        if case["t"] == "disturb":
            ev = self.solver.evaluator
            self.dict = ev.add_dictionary_handler(iter=2)
            for r in P.rhs:
                if not isinstance(r, int):
                    self.dict.add_task(r, layout="g", scales=3, name="rhs%d" % P.rhs.index(r))
            self.dict2 = ev.add_dictionary_handler(sim_dt=0.1)
            self.dict2.add_task(P.state[0], layout="c", scales=2, name="u")
        self.ref = Ref(case["scheme"], timesteppers.schemes.get(case["scheme"]) or getattr(timesteppers, case["scheme"]), S)
        self.X = S.pack()
        self.t = 0.25
        self.it = 0

    def refresh_ref_matrices(self):
        self.S.solver.build_matrices()

    def step(self, dt, where):
        self.solver.step(dt)
        self.rec.step()
        self.X, self.t = self.ref.step(self.X, self.t, dt)
        self.it += 1
        return self.compare(where)

    def compare(self, where):
        rec, case = self.rec, self.case
        got = self.P.pack()
        key = f"{case['scheme']}:{case['t']}"
        ok = True
        for i, (x, y) in enumerate(zip(got, self.X)):
            ok &= rec.close(x, y, key, f"{case['prob']} {where} subproblem {i}:", rtol=1e-8, atol=1e-9)
        ok &= rec.check(abs(self.solver.sim_time - self.t) < 1e-12 and abs(self.P.problem.time["g"].ravel()[0] - self.t) < 1e-12,
                        key + ":time", f"{where}: sim_time {self.solver.sim_time}, expected {self.t}")
        return ok

    def resync(self):
        self.X = self.S.pack()

    def disturb(self, kind):
        P, S, s, rec = self.P, self.S, self.solver, self.rec
        if kind == "scales":
            for f in P.state: f.change_scales(4); f["g"]
        elif kind == "gridlayout":
            for f in P.state: f.change_scales(1); f["g"]
        elif kind in ("modify", "modify_hi"):
            S.unpack(self.X)
            sc = 1 if kind == "modify" else 3
            for Q in (P, S):
                f = Q.state[0]
                f.change_scales(sc)
                d = f["g"].copy()
                f["g"] = 0.5*d + 0.01
            self.resync()
            # The grid round trip may drop invalid modes in both alike
        elif kind == "forcing":
            for Q in (P, S):
                d = Q.g["c"].copy()
                Q.g.change_scales(3); Q.g["g"]
                Q.g["c"] = -1.5*d
        elif kind == "handlers":
            s.evaluate_handlers()
        elif kind == "handlers_expr":
            s.evaluate_handlers([self.dict])
            self.dict["rhs0"].change_scales(4); self.dict["rhs0"]["g"]
        elif kind == "settime":
            s.sim_time = self.t = 1.75
        elif kind == "badstep":
            for bad in (np.nan, np.inf, -np.inf):
                try:
                    s.step(bad)
                    rec.violate("badstep", f"step({bad}) is accepted")
                except ValueError:
                    pass
        elif kind == "rebuild":
            for Q in (P, S): Q.nu["g"] = 2.0
            if P.name != "ode":
                S.solver.build_matrices()
            s.build_matrices()
        elif kind == "solver2":
            other = P.problem.build_solver("RK111")
            other.sim_time = s.sim_time
            other.evaluator.evaluate_group("F")
        elif kind == "sametype":
            pass

def run_case(case, rec):
    import logging
    logging.disable(logging.WARNING)
    globals()["t_" + case["t"]](case, rec)

def t_seq(case, rec):
    from mc.rec import digest
    R = Run(case, rec)
    for seq in itertools.product(case["alpha"], repeat=case["n"]):
        R.start()
        for i, a in enumerate(seq):
            dt = a * R.h
            rec.state((seq[:i+1],))
            if not R.step(dt, f"dts {seq[:i+1]}"):
                break
        rec.trace()
        if rec.nviol > 4:
            return
    rec.sample(dict(sequence=list(seq), state=repr(R.X[0].ravel()[:3])))

def t_disturb(case, rec):
    kinds = [k for k in DISTURB if k != "sametype"]
    n = case["n"]
    plans = [{}] + [{i: [k]} for i in range(n) for k in kinds]
    if case["two"]:
        plans += [{i: [k1], j: [k2]} for i in range(n) for j in range(i, n) for k1 in kinds for k2 in kinds if not (i == j and k1 == k2) and i in (1, 2)]
        plans = [p if len(p) > 1 or not p else p for p in plans]
    R = Run(case, rec)
    for plan in plans:
        for dts in ([1, 1, 1, 1, 1], [1, 0.5, 0.5, 2, 1]):
            R.start()
            R.S.solver.build_matrices() if case["prob"] != "ode" else None
            for i, a in enumerate(dts):
                for k in plan.get(i, []):
                    R.disturb(k)
                if not R.step(a * R.h, f"disturbances {plan} dts {dts} step {i}"):
                    break
            rec.state((tuple((i, tuple(k)) for i, k in plan.items()), tuple(dts)))
            rec.trace()
            # The handlers saw the fields of their call
            if rec.nviol > 6:
                return

def t_coeffs(case, rec):
    """Order conditions of the coefficients themselves."""
    from dedalus.core import timesteppers
    name = case["scheme"]
    rec.check(name in timesteppers.schemes, "registered", f"{name} cannot be selected by name")
    cls = getattr(timesteppers, name)
    rec.check(name in timesteppers.__all__, "exported", name)
    if hasattr(cls, "compute_coefficients"):
        from collections import deque
        s = cls.steps
        for ratios in itertools.product([0.25, 0.5, 1, 2, 4], repeat=s-1):
            dts = [0.1]
            for r in ratios:
                dts.append(dts[-1] * r)
            for it in range(0, s + 2):
                rec.step(); rec.state((ratios, it))
                a, b, c = cls.compute_coefficients(deque(dts), it)
                use = min(it + 1, s)
                ra, rb, rc = ref_coeffs(name, dts[:use])
                for nm, x, y in (("a", a, ra), ("b", b, rb), ("c", c, rc)):
                    z = np.zeros(max(len(x), len(y))); z[:len(y)] = y
                    w = np.zeros(len(z)); w[:len(x)] = x
                    rec.close(w, z, f"coeff:{nm}", f"{name} ratios {ratios} iteration {it}", rtol=1e-9, atol=1e-9*max(1, abs(z).max()))
                # Exactness on monomials: a.t^p = p b.t^(p-1), b.t^p = c.t^p up to the order
                order = min(ORDER[name], use) if it + 1 < s else ORDER[name]
                ts = np.array([0.0] + list(-np.cumsum(dts)))[:len(a)] / dts[0] + 1
                for p in range(order + 1):
                    lhs = np.dot(a, ts[:len(a)]**p) * dts[0]
                    rhs = p * np.dot(b, ts[:len(b)]**(p-1)) if p else 0
                    rec.close(lhs, rhs, "order", f"{name} degree {p} ratios {ratios} iteration {it}", atol=1e-7)
                    if p < order:
                        rec.close(np.dot(c, ts[:len(c)]**p), np.dot(b, ts[:len(b)]**p), "order", f"{name} forcing degree {p} ratios {ratios} iteration {it}", atol=1e-7)
                rec.trace()
    else:
        A, H, c = TABLEAU[name]
        rec.step(); rec.trace(); rec.state(name)
        rec.close(cls.A, np.array(A), "tableau", f"{name} A"); rec.close(cls.H, np.array(H), "tableau", f"{name} H"); rec.close(cls.c, np.array(c), "tableau", f"{name} c")
        A, H, c = np.array(cls.A, float), np.array(cls.H, float), np.array(cls.c, float)
        rec.close(A.sum(1), c, "tableau", f"{name} rows of A"); rec.close(H.sum(1), c, "tableau", f"{name} rows of H")
        rec.check(np.allclose(np.triu(A), 0) and np.allclose(np.triu(H, 1), 0) and c[-1] == 1, "tableau", f"{name} structure")
        for bn, b in (("A", A[-1]), ("H", H[-1])):
            rec.close(b.sum(), 1, "order", f"{name} {bn} order 1")
            if ORDER[name] >= 2:
                rec.close(b @ c, 0.5, "order", f"{name} {bn} order 2")
            if ORDER[name] >= 3 or (name == "RKSMR" and bn == "A"):
                rec.close(b @ c**2, 1/3, "order", f"{name} {bn} order 3")
                for qn, Q in (("A", A), ("H", H)):
                    if name == "RKSMR" and qn == "H": continue
                    rec.close(b @ Q @ c, 1/6, "order", f"{name} {bn}{qn} order 3")
        # RKSMR: implicit part third-order quadrature is not claimed
