"""C27: eigenvalue and nonlinear solves return true solutions.

Eigenpairs are judged by loading them into the state and evaluating the stated equations, not by the solver's matrices; left
eigenvectors by pairing them with the equations evaluated on many states. Newton updates are judged by evaluating the
stated equations around the state before the update (exact difference formulas for the polynomial degree at hand). Every
word of solver operations up to a depth runs on one solver, with the answer to each operation checked."""
import itertools, json
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of operation histories of the implementation up to a depth over problem families, groups, options, and targets, against the stated equations evaluated with operators"
NOTE = "Operators are decided in C11 and C12, so that the stated equations are an oracle independent of the matrices. Words contain every kind of solve, loading of modes, changes of coefficients and of states, on all the groups of small problems."
BOUND = {"quick": "20 eigenproblems (every basis family), every group, dense and sparse solves (3 targets, N = 1, 3), left eigenvectors with and without normalization; words of 3 out of 8 operations on 4 of them; 10 nonlinear problems, words of 3 out of 9 operations",
         "thorough": "words of 4 operations"}
ASSUMPTIONS = ["eigenvalues above 1e6 count as infinite", "ARPACK and LAPACK converge to their stated precision", "Newton updates of real problems; resolved products (padding 3), and coefficients of the linearization that are resolved (they are truncated like any coefficient)"]
TIMEOUT = 850

EVPS = ["cheb_c", "ncc1", "cf", "slab_c", "stokes_c", "disk_c", "sphere_c", "ball_c", "annulusv", "shellv", "cheb", "slab", "slabflip", "stokes", "channelncc", "disk", "diskv", "diskncc", "sphere", "spherev", "ball", "shell", "cyl", "cheb2", "sys1"]
WORDS = ["ncc1", "slab_c", "channelncc", "diskncc"]
NLS = ["square", "square_c", "cubic", "system", "sine", "fourier", "plane", "disk", "ball", "integral"]

def cases(tier, seed):
    th = tier == "thorough"
    out = [dict(t="evp", name=n) for n in EVPS]
    for n in WORDS:
        for k in range(len(EOPS)): out.append(dict(t="evpwords", name=n, first=k, depth=4 if th else 3))
    for n in NLS:
        for k in range(len(NOPS)):
            out.append(dict(t="newton", name=n, first=k, depth=4 if th else 3))
    return out

def run_case(case, rec):
    import logging, dedalus.public, warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    globals()["t_" + case["t"]](case, rec)
    rec.nontriv()

# Eigenvalue problems

class Evp:
    def __init__(self, name, seed):
        import dedalus.public as d3
        from mc import problems
        self.p = p = problems.Problem(name, seed=seed)
        self.name, self.dist, self.dtype = name, p.dist, np.dtype(p.dtype)
        self.s = s = p.dist.Field(name="s_", dtype=p.dtype)
        p.ns["s_"] = s
        P = d3.EVP(list(p.vars), eigenvalue=s, namespace=p.ns)
        self.eqs = []
        ns = dict(P.namespace)
        for (text, cond), m in zip(p.eqs, p.mass):
            i = problems.split(text)
            lhs = text[:i].strip()
            P.add_equation(f"{lhs} - ({m})*s_ = 0" if m else f"{lhs} = 0", condition=cond)
            self.eqs.append((eval(lhs, ns), p.ns[m] if m else None))
        self.P = P
        self.solver = P.build_solver()
        self.solver.build_matrices(self.solver.subproblems, ["M", "L"])
        self.nmass = sum(1 for m in p.mass if m)
        self.cplx = self.dtype.kind == "c"

    def apply(self, kind, domains):
        """Coefficients of the L or M part of the equations at the present state, as fields."""
        out = []
        for (L, m), eq in zip(self.eqs, self.P.equations):
            f = self.dist.Field(bases=eq["domain"].bases, tensorsig=eq["tensorsig"], dtype=self.p.dtype)
            x = L if kind == "L" else (None if m is None else -1 * m)
            if x is not None:
                v = x.evaluate()
                d = domains[len(out)]
                if v.domain is not f.domain:
                    import dedalus.core.operators as ops
                    v = ops.convert(v, f.domain.bases).evaluate()
                f["c"] = v["c"]
            else:
                f["c"] = 0
            out.append(f)
        return out

    def raw(self, kind, sub):
        F = self.apply(kind, [None] * len(self.eqs))
        for f in F: f.require_coeff_space()
        v = np.array(sub.gather(F))
        return v

    def load(self, x, sub):
        for v in self.p.vars: v["c"] = 0
        sub.scatter(np.ascontiguousarray(x), self.p.vars)

def live(sp, E=None):
    """Groups of modes which survive a round trip to the grid (complex Nyquist modes do not)."""
    if not (sp.size > 0 and sp.L_min.shape[0] > 0): return False
    if E is None: return True
    x = np.asarray(sp.pre_right @ np.ones(sp.pre_right.shape[1]))
    sub = sp.subsystems[0]
    E.load(x, sub)
    for v in E.p.vars: v["g"]
    y = np.array(sub.gather(require(E.p.vars)))
    return np.allclose(x, y, atol=1e-10)

def pairs_check(E, rec, label, sp, deep=True):
    """Every finite eigenpair satisfies the equations in every subsystem, when loaded."""
    s = E.solver
    for k, lam in enumerate(s.eigenvalues):
        if not np.isfinite(lam) or abs(lam) > 1e6: continue
        vec = np.array(s.eigenvectors[:, k])
        if not E.cplx and (abs(lam.imag) > 1e-12 * abs(lam) or np.abs(vec.imag).max() > 1e-12): continue
        for j, sub in enumerate(sp.subsystems):
            s.set_state(k, j if k % 2 else sub)
            want = vec if E.cplx else vec.real
            got = np.array(sub.gather([v for v in require(E.p.vars)]))
            rec.check(np.array_equal(got, want), "set_state", f"{label}: mode {k} is not the one loaded")
            rec.check(np.all(E.s["g"] == (lam if E.cplx else lam.real)), "eigenvalue", f"{label}: eigenvalue field {E.s['g'].ravel()} for mode {k}, expected {lam}")
            rest = sum(np.sum(np.abs(v["c"])**2) for v in E.p.vars)
            own = np.sum(np.abs(got)**2)
            rec.check(abs(rest - own) <= 1e-10 * (own + 1e-30), "set_state rest", f"{label}: other modes of the state are not zero")
            Lx, Mx = E.raw("L", sub), E.raw("M", sub)
            r = Lx + (lam if E.cplx else lam.real) * Mx
            scale = max(np.abs(Lx).max(), abs(lam) * np.abs(Mx).max(), np.abs(vec).max())
            vm = rowmask(E, sp)
            err = np.abs(r * vm).max()
            rec.step(); rec.evals += 1
            rec.check(err <= 1e-7 * scale, "residual", f"{label}: mode {k} with eigenvalue {lam} leaves residual {err:.2e} (scale {scale:.2e})")
            if not deep: break

def require(fields):
    for f in fields: f.require_coeff_space()
    return fields

def rowmask(E, sp):
    """Rows which are equations (valid modes, fulfilled conditions)."""
    key = (id(sp))
    c = E.__dict__.setdefault("rows", {})
    if key not in c:
        m = np.abs(sp.pre_left).sum(axis=0)
        c[key] = (np.asarray(m).ravel() > 0).astype(float)
    return c[key]

def left_check(E, rec, label, sp, normalized, seed):
    s = E.solver
    if not E.cplx: return
    fin = [k for k, l in enumerate(s.eigenvalues) if np.isfinite(l) and abs(l) < 1e6]
    sub = sp.subsystems[0]
    rng = np.random.default_rng(seed)
    R, Lf, Mf = s.right_eigenvectors, s.left_eigenvectors, s.modified_left_eigenvectors
    for t in range(4):
        x = sp.pre_right @ (rng.uniform(-1, 1, sp.pre_right.shape[1]) + 1j*rng.uniform(-1, 1, sp.pre_right.shape[1]))
        E.load(x, sub)
        Lx, Mx = E.raw("L", sub), E.raw("M", sub)
        for k in fin:
            y = Lf[:, k]
            a = np.vdot(y, Lx) + s.eigenvalues[k] * np.vdot(y, Mx)
            rec.evals += 1
            rec.check(abs(a) <= 1e-6 * (np.abs(y) @ np.abs(Lx) + abs(s.eigenvalues[k]) * np.abs(y) @ np.abs(Mx)), "left residual", f"{label}: left eigenvector {k} leaves {abs(a):.2e}")
            b = np.vdot(Mf[:, k], x)
            rec.check(abs(b - np.vdot(y, Mx)) <= 1e-7 * (np.abs(y) @ np.abs(Mx) + np.abs(Mf[:, k]) @ np.abs(x)), "modified left", f"{label}: modified left eigenvector {k} does not act as the left one on the mass matrix")
    if normalized:
        for a in fin:
            for b in fin:
                l = s.eigenvalues
                if a != b and abs(l[a] - l[b]) < 1e-4 * max(1, abs(l[a])): continue
                if a == b and sum(abs(l[a] - l[k]) < 1e-4 * max(1, abs(l[a])) for k in fin) > 1: continue     # repeated
                if a == b and np.linalg.norm(Mf[:, a]) * np.linalg.norm(R[:, a]) > 1e6: continue           # nearly defective
                v = np.vdot(Mf[:, a], R[:, b])
                tol = 1e-5 * max(1, np.linalg.norm(Mf[:, a]) * np.linalg.norm(R[:, b]) * 1e-2)
                rec.check(abs(v - (a == b)) <= tol, "biorthonormal", f"{label}: modified left vector {a} with right vector {b}: {v}")
                rec.evals += 1

def nearest_check(E, rec, label, dense, target, N):
    s = E.solver
    fin = np.array([l for l in dense if np.isfinite(l) and abs(l) < 1e8])
    d = np.sort(np.abs(fin - target))[:N]
    got = np.sort(np.abs(s.eigenvalues - target))
    rec.evals += 1
    rec.check(len(got) == min(N, len(s.eigenvalues)) and len(got) == N and np.allclose(got[:len(d)], d, rtol=1e-5, atol=1e-6 * (1 + abs(target))), "nearest", f"{label}: eigenvalues at distances {got}, the nearest ones are at {d}")
    for l in s.eigenvalues:
        rec.check(np.min(np.abs(fin - l)) <= 1e-5 * (1 + abs(l)), "spurious", f"{label}: {l} is no eigenvalue of the dense solve")

TARGETS = (0.35 + 0.2j, -7.3 - 1j, 40.0 + 3j)

def t_evp(case, rec):
    E = Evp(case["name"], rec.seed + 1)
    n = 0
    for sp in E.solver.subproblems:
        if not live(sp, E): continue
        label = f"{case['name']} group {sp.group}"
        rec.state((case["name"], str(sp.group)))
        E.solver.solve_dense(sp)
        dense = np.array(E.solver.eigenvalues)
        rec.check(E.solver.eigenvalue_subproblem is sp, "subproblem", f"{label}: eigenvalue_subproblem is another one")
        pairs_check(E, rec, label + " dense", sp, deep=n < 3)
        E.solver.solve_dense(sp, left=True)
        pairs_check(E, rec, label + " dense with left", sp, deep=False)
        left_check(E, rec, label + " dense", sp, True, rec.seed)
        E.solver.solve_dense(sp, left=True, normalize_left=False)
        left_check(E, rec, label + " dense, not normalized", sp, False, rec.seed)
        size = sp.L_min.shape[0]
        nfin = sum(1 for l in dense if np.isfinite(l) and abs(l) < 1e6)
        for N in (1, 3):
            if N >= size - 1 or nfin <= N: continue
            for it, target in enumerate(TARGETS):
                if not E.cplx: target = target.real
                d = np.sort(np.abs(dense[np.isfinite(dense)] - target))
                if d[0] < 1e-8 or abs(d[N] - d[N-1]) < 1e-6 * d[N]: continue
                for left in ((False, True) if E.cplx else (False,)):
                    lab = f"{label} sparse N={N} target={target} left={left}"
                    v0 = None if it else E.solver.eigenvectors.sum(axis=1) + 0.1
                    if v0 is not None and v0.dtype.kind == "c" and not E.cplx: v0 = v0.real
                    try:
                        E.solver.solve_sparse(sp, N, target, left=left, **({} if v0 is None or left else dict(v0=v0)))
                    except RuntimeError as e:
                        if "do not match" in str(e) or "does not match" in str(e) or "No convergence" in str(e): continue
                        raise
                    nearest_check(E, rec, lab, dense, target, N)
                    pairs_check(E, rec, lab, sp, deep=False)
                    if left: left_check(E, rec, lab, sp, True, rec.seed)
                    rec.trace()
        n += 1
        if n > 12: break
    rec.trace()

EOPS = ["dense0", "dense1", "sparse0", "sparse1", "left1", "state", "ncc", "rebuild"]

def t_evpwords(case, rec):
    name = case["name"]
    key = ("evp", name)
    if key not in _cache: _cache[key] = Evp(name, rec.seed + 2)
    E = _cache[key]
    s = E.solver
    sps = [sp for sp in s.subproblems if live(sp, E) and sp.L_min.shape[0] > 5]
    sps = [sps[0], sps[-1]]
    nccs = E.p.nccs
    base = [np.array(n["c"]) for n in nccs]
    import scipy.linalg
    def setncc(k):
        for n, b in zip(nccs, base): n["c"] = b * (1 + 0.25 * k)
    def reference(sp):
        """Matrices of the equations, from their action on every mode, with coefficients as they are now."""
        sub = sp.subsystems[0]
        cols = sp.pre_right.toarray()
        LL, MM = [], []
        for c in cols.T:
            E.load(c if E.cplx else c.real, sub)
            LL.append(E.raw("L", sub)); MM.append(E.raw("M", sub))
        L, M = np.array(LL).T, np.array(MM).T
        pl = sp.pre_left.toarray()
        w = scipy.linalg.eig(pl @ L, -pl @ M, right=False)
        return w
    refs = {}
    def ref(i, k):
        if (i, k) not in refs:
            setncc(k); refs[i, k] = reference(sps[i])
        return refs[i, k]
    for rest in itertools.product(range(len(EOPS)), repeat=case["depth"] - 1):
        word = [EOPS[case["first"]]] + [EOPS[r] for r in rest]
        if not word[-1].startswith(("dense", "sparse", "left", "state", "rebuild")): continue
        setncc(0)
        s.build_matrices(sps, ["M", "L"])
        built = [0, 0]; now = 0; last = None
        for op in word:
            label = f"{name}: {op} in {word}"
            rec.step()
            if op == "ncc":
                now = (now + 1) % 3; setncc(now); continue
            if op == "state":
                if last is None: continue
                i, k = last
                if s.eigenvalues.size and k == now: pairs_check(E, rec, label, sps[i], deep=False)
                continue
            i = int(op[-1]) if op[-1].isdigit() else 1
            if op == "rebuild":
                i = 0; s.solve_dense(sps[0], rebuild_matrices=True); built[0] = now
            elif op.startswith("dense"): s.solve_dense(sps[i])
            elif op.startswith("left"): s.solve_dense(sps[i], left=True)
            else:
                s.solve_sparse(sps[i], 2, 0.35 + (0.2j if E.cplx else 0))
            if op == "rebuild" and sps[0] is sps[1]: built[1] = now
            last = (i, built[i])
            w = ref(i, built[i]); setncc(now)
            fin = w[np.isfinite(w) & (np.abs(w) < 1e5)]
            ev = s.eigenvalues
            rec.evals += 1
            for l in ev[np.isfinite(ev) & (np.abs(ev) < 1e5)]:
                rec.check(np.min(np.abs(fin - l)) <= 1e-4 * (1 + abs(l)), "history", f"{label}: eigenvalue {l} is none of the equations with the coefficients at the latest build")
            if not op.startswith("sparse"):
                evf = ev[np.isfinite(ev) & (np.abs(ev) < 1e4)]
                for l in fin[np.abs(fin) < 1e4]:
                    rec.check(evf.size and np.min(np.abs(evf - l)) <= 1e-4 * (1 + abs(l)), "history complete", f"{label}: eigenvalue {l} of the equations is missing")
            rec.check(s.eigenvalue_subproblem is sps[i], "subproblem", f"{label}: eigenvalue_subproblem is another one")
        rec.trace()
        rec.state((name, tuple(word)))
        if rec.nviol > 4: return
    setncc(0)

_cache = {}

# Newton iterations

# Coefficients of cubic and higher terms are truncated to the resolved modes, so that updates are exact for short states only
SHORT = ("cubic", "sine", "ball")

class Newton:
    """A nonlinear problem: variables, text of the equations, polynomial or not."""
    def __init__(self, name, seed):
        import dedalus.public as d3
        from mc import spaces
        self.name = name
        cplx = name.endswith("_c")
        sp, dt, sh = {"fourier": ("rf", "float64", (8,)), "fourier_c": ("cf", "complex128", (6,)), "plane": ("cheb_cheb", "float64", (4, 4)), "disk": ("disk", "float64", (1, 6)), "ball": ("ball", "float64", (1, 1, 6))}.get(name, ("cheb", "complex128" if cplx else "float64", (8,)))
        S = self.S = spaces.make(sp, dt, sh, 3)
        dist, b = S.dist, S.bases[0]
        self.vars, ns = [], {}
        def var(n, bases=None):
            f = dist.Field(name=n, bases=bases, dtype=S.dtype); self.vars.append(f); ns[n] = f
        f = dist.Field(name="f", bases=S.bases, dtype=S.dtype); n = dist.Field(name="n", bases=S.bases, dtype=S.dtype)
        ns.update(f=f, n=n, lift=lambda A, k: d3.Lift(A, b.derivative_basis(2), k), lift1=lambda A, k: d3.Lift(A, b.derivative_basis(1), k), integ=d3.Integrate, sin=np.sin, exp=np.exp, lap=d3.Laplacian)
        if sp in spaces.CART:
            for c in S.coords.coords: ns["d" + c.name] = lambda A, c=c: d3.Differentiate(A, c)
        self.eqs = []
        if name in ("square", "square_c"):
            var("u", b); var("t1"); var("t2")
            self.eqs = ["dx(dx(u)) + lift(t1,-1) + lift(t2,-2) = f - n*u - 0.5*u*u", "u(x='left') = 1", "u(x='right') = 2*u(x='left')*u(x='left')"]
        elif name == "cubic":
            var("u", b); var("t1"); var("t2")
            self.eqs = ["dx(dx(u)) + lift(t1,-1) + lift(t2,-2) = u**3 + n*u + f", "u(x='left') = 0.3", "dx(u)(x='right') = 0.1"]
        elif name == "system":
            var("u", b); var("v", b); var("t1"); var("t2"); var("c")
            self.eqs = ["dx(u) + lift1(t1,-1) + n*v = u*v + f", "dx(v) + lift1(t2,-1) = c*u - v*v", "u(x='left') = 0.5", "v(x='right') = c*c", "integ(u*v) = 0.2"]
        elif name == "sine":
            var("u", b); var("t1"); var("t2")
            self.eqs = ["dx(dx(u)) + lift(t1,-1) + lift(t2,-2) = f + n*u - 0.5*sin(u)", "u(x='left') = 0.1", "u(x='right') = 0.2"]
        elif name in ("fourier", "fourier_c"):
            var("u", b)
            self.eqs = ["dx(dx(u)) - 3*u = f + 0.3*u*u + 0.1*u*dx(u)"]
        elif name == "plane":
            var("u", S.bases)
            self.eqs = ["u = f + 0.1*u*u + 0.2*n*u"]
        elif name == "disk":
            var("u", b); var("t", b.edge); ns["lift"] = lambda A: d3.Lift(A, b, -1)
            self.eqs = ["lap(u) + lift(t) = f + u*u", "u(r=1.5) = 0.4"]
        elif name == "ball":
            var("u", b); var("t", b.surface); ns["lift"] = lambda A: d3.Lift(A, b, -1)
            self.eqs = ["lap(u) + lift(t) = -u**3", "u(r=1.5) = 0.4"]
        elif name == "integral":
            var("u", b); var("c"); var("t1")
            self.eqs = ["dx(u) + lift1(t1,-1) - c*u = f", "u(x='left') = 1", "integ(u*u) + c = 2"]
        self.f, self.n = f, n
        P = self.P = d3.NLBVP(self.vars, namespace=ns)
        for e in self.eqs: P.add_equation(e)
        self.solver = P.build_solver(ncc_cutoff=1e-14)
        from mc.problems import split
        full = dict(P.namespace)
        self.res = []
        for e in self.eqs:
            i = split(e)
            self.res.append(eval(f"({e[:i]}) - ({e[i+1:]})", dict(full)))
        rng = np.random.default_rng(seed + 11)
        self.menu = []
        for k in range(3):
            self.menu.append([self.low(rng, v, 0.4) for v in self.vars])
        self.given = [[self.low(rng, v, 0.5) for v in (f, n)] for k in range(2)]
        self.sp = self.solver.subproblems[0]
        self.mask = np.asarray(np.abs(self.P_rows()).sum(axis=0)).ravel() > 0 if len(self.solver.subproblems) == 1 else None

        probe = []
        for eq in self.P.equations:
            g = self.S.dist.Field(bases=eq["domain"].bases, tensorsig=eq["tensorsig"], dtype=self.S.dtype)
            g["c"] = 1; g["g"]; g.require_coeff_space(); probe.append(g)
        self.mask = self.mask & (np.abs(self.sp.subsystems[0].gather(probe)) > 0.5) if name.startswith("fourier") else self.mask

    def P_rows(self):
        self.solver.build_matrices(self.solver.subproblems, ["dF"])
        return self.sp.pre_left

    def low(self, rng, v, amp):
        from mc import spaces
        x = spaces.random_coeffs(v, int(rng.integers(1 << 30)))
        dec = sum(np.indices(x.shape)[-v.dist.dim:]) if x.ndim else 0
        if self.name in SHORT:
            x = np.where(dec <= (2 if self.name != "ball" else 1), x, 0)
            if self.name == "sine": amp = amp / 10
        v["c"] = amp * x * 0.4**dec
        v["g"]
        return np.array(v["c"])                     # what survives a round trip

    def residual(self):
        """Coefficients of every equation's left minus right hand side at the present state, as solved rows."""
        from dedalus.core import operators as ops
        out = []
        for R, eq in zip(self.res, self.P.equations):
            v = R.evaluate()
            f = self.S.dist.Field(bases=eq["domain"].bases, tensorsig=eq["tensorsig"], dtype=self.S.dtype)
            if v.domain is not f.domain: v = ops.convert(v, f.domain.bases).evaluate()
            f["c"] = v["c"]
            out.append(f)
        return np.array(self.sp.subsystems[0].gather(out)) * self.mask

    def state(self):
        return [np.array(v["c"]) for v in self.vars]
    def survive(self, X):
        """Without modes that are lost on the grid."""
        if not self.name.startswith("fourier"): return X
        f = self.S.dist.Field(bases=self.vars[0].domain.bases, dtype=self.S.dtype)
        f["c"] = X[0]; f["g"]
        return [np.array(f["c"])]
    def put(self, X):
        for v, x in zip(self.vars, X): v.change_scales(1); v["c"] = x

NOPS = ["newton", "half", "zero", "state1", "state2", "given", "grid", "junk", "refresh"]

def t_newton(case, rec):
    N = Newton(case["name"], rec.seed)
    s = N.solver
    rec.check(len([sp for sp in s.subproblems if sp.size]) == 1, "subproblems", f"{case['name']}: {len(s.subproblems)} subproblems")
    poly = case["name"] != "sine"
    for word in itertools.product(NOPS, repeat=case["depth"] - 1):
        word = (NOPS[case["first"]],) + word
        if word[-1] not in ("newton", "half"): continue
        if len(set(word)) == 1 and case["depth"] > 3: continue
        if case["name"] not in ("square", "system") and sum(w in ("newton", "half", "zero") for w in word) > 3: continue
        N.put(N.menu[0]); 
        for v, x in zip((N.f, N.n), N.given[0]): v.change_scales(1); v["c"] = x
        it = s.iteration
        for op in word:
            label = f"{case['name']}: {op} in {word}"
            rec.step()
            if op in ("newton", "half", "zero"):
                damp = dict(newton=1, half=0.5, zero=0)[op]
                if word.count("newton") > 1: N.vars[0]["g"]           # left on the grid
                X0 = N.survive(N.state())
                if max(np.abs(x).max() for x in X0 if x.size) > 1e3: break
                F0 = N.residual()
                N.put(X0)
                if word[0] == "grid": N.vars[0]["g"]
                s.newton_iteration(damping=damp) if damp != 1 else s.newton_iteration()
                it += 1
                X1 = N.state()
                D = [np.array(p["c"]) for p in s.perturbations]
                X1, D = N.survive(X1), N.survive(D)
                for v, x0, x1, d in zip(N.vars, X0, X1, D):
                    rec.close(x1, x0 - damp * d, "update", f"{label}: {v.name} is not moved by the damped perturbation", rtol=1e-12, atol=1e-13 * (1 + np.abs(d).max() if d.size else 1))
                size = max(np.abs(d).max() for d in D if d.size)
                if size > 1e4: break                   # singular by accident
                h = 1 / (1 + size) if poly else 1e-3 / (1 + size)
                F = {}
                for k in (-2, -1, 1, 2):
                    N.put([x + k * h * d for x, d in zip(X0, D)]); F[k] = N.residual()
                J = (8 * (F[1] - F[-1]) - (F[2] - F[-2])) / (12 * h)
                N.put(X1)
                rec.check(s.iteration == it, "iteration", f"{label}: iteration {s.iteration}, expected {it}")
                if case["name"] in SHORT and np.abs(X0[0][..., 3:]).max() > 1e-14: continue
                rec.evals += 1
                tol = (1e-8 if poly else 1e-7) * (1 + np.abs(F0).max() + max(np.abs(f).max() for f in F.values()) / (1 if not poly else 1))
                rec.check(np.abs(J - F0).max() <= tol, "newton", f"{label}: the linearized equations leave {np.abs(J - F0).max():.2e} (scale {tol*1e8:.2e})")
            elif op == "state1": N.put(N.menu[1])
            elif op == "state2": N.put(N.menu[2])
            elif op == "given":
                for v, x in zip((N.f, N.n), N.given[1]): v.change_scales(1); v["c"] = x
            elif op == "grid":
                for v in N.vars + [N.f, N.n] + list(s.perturbations): v.change_scales(2); v["g"]
            elif op == "junk":
                for p in s.perturbations: p.preset_scales(1); p["c"] = 7.0
            elif op == "refresh":
                s.build_matrices(s.subproblems, ["dF"])
        rec.trace()
        rec.state((case["name"], word))
        if rec.nviol > 4: return
