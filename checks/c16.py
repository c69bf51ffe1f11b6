"""C16: problems accept exactly well-formed equations and represent them faithfully.

All small expression trees over the variables, a non-constant coefficient, a given field, numbers, the time and the
eigenvalue are offered as left and right sides of all four problem classes, as text and as operator pairs. An independent
analysis of each tree (degree in the variables, order in time, degree in the eigenvalue, time dependence) says whether it has
the documented form; an independent evaluation (exact polynomials) says what the matrices and right-hand sides of the
accepted ones must give. Conforming domains, ranks and data types, conditions, and the conversion of initial value problems
to eigenvalue problems are enumerated likewise."""
import itertools, warnings
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of expression trees per problem class, in text and operator form, on the real code, against a symbolic degree analysis and exact polynomial evaluation"
NOTE = "States are (problem class, basis, left side, right side, form). Data are polynomials of low degree, so that products are represented exactly and truncation plays no role (it is decided in C14)."
BOUND = {"quick": "all trees of depth 1 and of depth 2 (second-level products and sums with depth-0 partners, products of two depth-1 factors from a subset), all words of up to 3 of 13 operations over 7 leaves, 7 unary and 3 binary operations, on Chebyshev and complex Fourier bases, 4 problem classes, 2 forms; all pairs of accepted depth-1 left sides with depth-1 right sides; all domain, rank and dtype pairings; all subsets of mode groups as conditions",
         "thorough": "all products and sums of two depth-1 trees, words of up to 4 operations; three-term systems"}
ASSUMPTIONS = ["a tree whose variables cancel (u - u) counts as having the form it is written in", "rejection may happen when adding the equation, building its matrices or evaluating its right side"]
TIMEOUT = 850
LEAVES = ["u", "v", "n", "f", "t", "s", 2]
UN = ["neg", "dx", "dt", "sq", "sin", "interp", "integ"]
BIN = ["add", "sub", "mul"]
CLASSES = ["LBVP", "IVP", "EVP", "NLBVP"]

def depth1():
    out = list(LEAVES)
    for l in LEAVES:
        if l == 2: continue
        for o in UN:
            if o in ("interp", "integ", "dx") and l in ("t", "s"): continue
            out.append((o, l))
    for o in BIN:
        for a in LEAVES:
            for b in LEAVES:
                if a == b == 2: continue
                out.append((o, a, b))
    return out
CORE = ["u", "n", ("dt", "u"), ("mul", "n", "u"), ("mul", "s", "u"), ("mul", "t", "u"), ("dx", "u"), ("interp", "u"), ("interp", "n"), ("integ", "n"), ("sin", "n"), ("dt", "n"), ("dt", "v"), ("sq", "n"), ("sq", "s"), ("mul", "s", "n"), ("mul", "u", "s"),
        ("mul", "t", "n"), ("neg", "u"), ("add", "u", "v"), ("add", "u", "n"), ("add", "n", "s"), ("add", "n", 2), ("sub", "v", "u"), ("mul", 2, "u"), ("sin", "u"), ("sq", "u"), ("dx", "n"), ("mul", "u", "v"), ("dt", "t"), ("dt", "s"), ("sin", "s"), ("integ", "u")]

def const(t):
    """No dependence on x (number or constant field)."""
    if isinstance(t, int) or t in ("t", "s"): return True
    if isinstance(t, str): return False
    if t[0] in ("interp", "integ"): return True
    return all(const(x) for x in t[1:])
def number(t): return isinstance(t, int) or (isinstance(t, tuple) and all(number(x) for x in t[1:]))
def dxd(t):
    """Trees collapsing to zero (derivatives of constants, x - x) are left out."""
    if not isinstance(t, tuple): return False
    if t[0] in ("dx", "interp", "integ", "dt", "sin") and number(t[1]): return True
    if t[0] in ("dx", "interp", "integ") and const(t[1]): return True
    if t[0] == "sub" and t[1] == t[2]: return True
    return any(dxd(x) for x in t[1:])

def trees(tier):
    d1 = depth1()
    out = [t for t in d1]
    out += [(o, t) for t in d1 if isinstance(t, tuple) for o in UN]
    for o in BIN:
        for t in d1:
            if isinstance(t, tuple):
                for l in LEAVES: out += [(o, t, l), (o, l, t)]
        for a in (d1 if tier == "thorough" else CORE):
            for b in (CORE if tier == "thorough" else CORE):
                if isinstance(a, tuple) and isinstance(b, tuple): out.append((o, a, b))
    return [t for t in dict.fromkeys(out) if not dxd(t) and not number(t)]

LETTERS = [("dt",), ("dx",), ("neg",), ("mul", "n", None), ("mul", None, "n"), ("mul", "s", None), ("mul", None, "s"), ("mul", "t", None), ("mul", None, 2), ("add", None, "v"), ("sub", ("dt", "v"), None), ("interp",), ("sq",)]
def chains(tier):
    """All words of operations applied to a variable (and, of the same words, to the given field) up to length 3 (4 if thorough)."""
    out, level = [], ["u", "n"]
    for k in range(4 if tier == "thorough" else 3):
        level = [(l[0], t) if len(l) == 1 else tuple(t if x is None else x for x in l) for t in level for l in LETTERS]
        out += level
    return [t for t in out if not dxd(t)]

# ---- symbolic form
INF = 9
def terms(t):
    """Set of (degree in variables, time derivatives of variables, depends on time, degree in s, misplaced time derivative)."""
    if isinstance(t, int): return {(0, 0, 0, 0, 0)}
    if t in ("u", "v"): return {(1, 0, 0, 0, 0)}
    if t in ("n", "f"): return {(0, 0, 0, 0, 0)}
    if t == "t": return {(0, 0, 1, 0, 0)}
    if t == "s": return {(0, 0, 0, 1, 0)}
    o = t[0]
    if o in ("neg", "dx", "interp", "integ"): return terms(t[1])
    if o == "dt": return {(d, k + 1, h, s, b or d == 0) for d, k, h, s, b in terms(t[1])}
    if o == "sin": return {(INF if d else 0, k, h, INF if s else 0, b or k > 0) for d, k, h, s, b in terms(t[1])}
    A = terms(t[1]); B = terms(t[1] if o == "sq" else t[2])
    if o in ("add", "sub"): return A | B
    return {(a[0] + b[0], a[1] + b[1], max(a[2], b[2]), a[3] + b[3], max(a[4], b[4])) for a in A for b in B}

def accepted(cls, L, R):
    A = terms(L); B = terms(R) if R != 0 else set()
    nodt = all(x[1] == 0 for x in A | B)
    if cls == "NLBVP":
        if not any(x[0] for x in A | B): return None                     # no variables at all: not specified
        return nodt
    linear = all(x[0] == 1 for x in A)
    if R != 0 and const(L) and not const(R): return False
    if cls == "LBVP": return linear and nodt and all(x[0] == 0 for x in B)
    if cls == "IVP": return linear and all(x[2] == 0 and x[1] <= 1 and not x[4] for x in A) and all(x[1] == 0 for x in B)
    if cls == "EVP": return linear and nodt and all(x[3] <= 1 for x in A) and R == 0

# ---- exact evaluation
class Trig:
    """Trigonometric polynomial, coefficients of exp(ikx) for |k| <= K."""
    K = 12
    def __init__(self, c): self.c = np.asarray(c, complex)
    def lift(x): return x if isinstance(x, Trig) else Trig(np.eye(1, 2*Trig.K + 1, Trig.K)[0]*x)
    def __add__(a, b): return Trig(a.c + Trig.lift(b).c)
    __radd__ = __add__
    def __neg__(a): return Trig(-a.c)
    def __sub__(a, b): return a + (-Trig.lift(b))
    def __rsub__(a, b): return Trig.lift(b) - a
    def __mul__(a, b):
        if not isinstance(b, Trig): return Trig(a.c*b)
        return Trig(np.convolve(a.c, b.c)[Trig.K:-Trig.K])
    __rmul__ = __mul__
    def deriv(a): return Trig(1j*np.arange(-Trig.K, Trig.K + 1)*a.c)
    def __call__(a, x): return sum(c*np.exp(1j*k*x) for k, c in zip(range(-Trig.K, Trig.K + 1), a.c))
    def integral(a): return 2*np.pi*a.c[Trig.K]

def value(t, env):
    if isinstance(t, int): return t
    if isinstance(t, str): return env[t]
    o = t[0]; a = value(t[1], env)
    if o == "neg": return -a
    if o == "dx": return a.deriv() if hasattr(a, "deriv") else 0
    if o == "dt": return env["tau"]*a
    if o == "sq": return a*a
    if o == "interp": return a(env["x0"]) if callable(a) else a
    if o == "integ": return env["integ"](a)
    b = value(t[2], env)
    return a + b if o == "add" else a - b if o == "sub" else a*b
def has(t, op): return isinstance(t, tuple) and (t[0] == op or any(has(x, op) for x in t[1:]))

def pdeg(t):
    """Polynomial degree of a tree of linear functions."""
    if isinstance(t, int) or t in ("t", "s"): return 0
    if isinstance(t, str): return 1
    if t[0] == "sq": return 2*pdeg(t[1])
    d = [pdeg(x) for x in t[1:]]
    return sum(d) if t[0] == "mul" else max(d)

class World:
    def __init__(self, basis, seed):
        import dedalus.public as d3
        self.d3 = d3
        rng = np.random.default_rng(seed + 5)
        self.c = c = d3.CartesianCoordinates("x")
        self.dtype = np.float64 if basis == "cheb" else np.complex128
        self.dist = dist = d3.Distributor(c, dtype=self.dtype)
        self.basis = b = d3.ChebyshevT(c["x"], 10, (-1, 2)) if basis == "cheb" else d3.ComplexFourier(c["x"], 12, (0, 2*np.pi))
        self.x0 = -1 if basis == "cheb" else 0
        r = (lambda: rng.uniform(0.5, 1.5)) if basis == "cheb" else (lambda: rng.uniform(0.5, 1.5) + 1j*rng.uniform(-1, 1))
        if basis == "cheb":
            self.poly = {k: np.polynomial.Polynomial([r(), r()]) for k in "uvnf"}
            self.integ = lambda a: a.integ()(2) - a.integ()(-1)
        else:
            self.poly = {}
            for k in "uvnf":
                co = np.zeros(2*Trig.K + 1, complex); co[Trig.K - 1:Trig.K + 2] = [r(), r(), r()]
                self.poly[k] = Trig(co)
            self.integ = lambda a: a.integral()
        self.fields = {}
        x = dist.local_grid(b)
        for k in "uvnf":
            F = dist.Field(name=k, bases=b); F["g"] = self.poly[k](x); self.fields[k] = F
        for k in "ts":
            F = dist.Field(name=k); F["g"] = self.poly[k] = r(); self.fields[k] = F
        self.coeff = {k: self.fields[k]["c"].copy() for k in "uv"}
        self.x = x
        u, v = self.fields["u"], self.fields["v"]
        p = d3.LBVP([u, v]); p.add_equation((u, 0)); p.add_equation((v, 0))
        self.sp = p.build_solver().subproblems[0]
    def env(self, **kw):
        return dict(self.poly, x0=self.x0, integ=self.integ, tau=0, **kw) if "tau" not in kw else dict(self.poly, x0=self.x0, integ=self.integ, **kw)
    def problem(self, cls):
        d3, F = self.d3, self.fields
        vs = [F["u"], F["v"]]
        ns = dict(n=F["n"], f=F["f"], t=F["t"], s=F["s"], dx=lambda A: d3.Differentiate(A, self.c["x"]), dt=d3.dt, integ=d3.Integrate, np=np)
        self.ns = ns
        if cls == "LBVP": return d3.LBVP(vs, namespace=ns)
        if cls == "NLBVP":
            p = d3.NLBVP(vs, namespace=ns)
            for f in F.values(): pass
            return p
        if cls == "IVP": return d3.IVP(vs, time=F["t"], namespace=ns)
        return d3.EVP(vs, eigenvalue=F["s"], namespace=ns)
    def build(self, t):
        d3 = self.d3
        if isinstance(t, int): return t
        if isinstance(t, str): return self.fields[t]
        o = t[0]; a = self.build(t[1])
        if o == "neg": return -a
        if o == "dx": return d3.Differentiate(a, self.c["x"])
        if o == "dt": return d3.dt(a)
        if o == "sq": return a**2
        if o == "sin": return np.sin(a)
        if o == "interp": return a(x=self.x0)
        if o == "integ": return d3.Integrate(a)
        b = self.build(t[2])
        return a + b if o == "add" else a - b if o == "sub" else a*b
    def text(self, t):
        if isinstance(t, int): return str(t)
        if isinstance(t, str): return t
        o = t[0]; a = self.text(t[1])
        if o == "neg": return f"-({a})"
        if o == "sq": return f"({a})**2"
        if o == "sin": return f"np.sin({a})"
        if o == "interp": return f"({a})(x={self.x0})"
        if o in ("dx", "dt", "integ"): return f"{o}({a})"
        return f"({a}) {dict(add='+', sub='-', mul='*')[o]} ({self.text(t[2])})"
    def grid(self, eqn, coeffs):
        f = self.dist.Field(bases=eqn["domain"].bases or None)
        f["c"] = np.reshape(coeffs, f["c"].shape) if np.size(coeffs) > 1 else coeffs
        return f["g"].copy()
    def apply(self, expr, eqn, vs):
        """Matrix form of an expression on the variables' coefficients, as grid values."""
        if isinstance(expr, (int, float)): return np.zeros_like(self.grid(eqn, 0))
        expr.gather_ncc_coeffs()
        m = expr.expression_matrices(subproblem=self.sp, vars=vs, ncc_cutoff=0, max_ncc_terms=None)
        out = 0
        for w, k in zip(vs, "uv"):
            if w in m: out = out + m[w] @ self.coeff[k].ravel()
        return self.grid(eqn, out) if not isinstance(out, int) else np.zeros_like(self.grid(eqn, 0))

def restore(W):
    for k in "uvnf":
        F = W.fields[k]; F.preset_scales(1); F.preset_layout("g"); F.data[...] = W.poly[k](W.x)
    for k in "ts":
        F = W.fields[k]; F.preset_scales(1); F.preset_layout("g"); F.data[...] = W.poly[k]

def offer(rec, W, p, cls, L, R, form):
    """Add one equation and check its fate and representation."""
    want = accepted(cls, L, R)
    if want is None: return None
    tag = f"{cls} {W.text(L)} = {W.text(R)} ({form})"
    rec.step(); rec.state(tag); rec.evals += 1
    n = len(p.equations)
    vs = p.LHS_variables
    try:
        if form == "text": e = p.add_equation(f"{W.text(L)} = {W.text(R)}")
        else: e = p.add_equation((W.build(L), W.build(R) if R != 0 else 0))
    except Exception as ex:
        rec.check(not want, "rejected", f"{tag}: {type(ex).__name__}: {ex}")
        rec.check(len(p.equations) == n, "kept", f"{tag}: rejected but kept")
        return False
    del p.equations[n:]
    numeric = pdeg(L) <= 4 and (R == 0 or pdeg(R) <= 4) and not has(L, "sin") and not (R != 0 and has(R, "sin"))
    try:
        got = {}
        names = {"LBVP": ["L"], "IVP": ["M", "L"], "EVP": ["M", "L"], "NLBVP": ["dF"]}[cls]
        for m in names: got[m] = W.apply(e[m], e, vs)
        if cls != "EVP":
            F = e["F"] if hasattr(e["F"], "preset_layout") else e["F"].evaluate()
            F.change_scales(1); got["F"] = F["g"].copy()
            rec.check(F.domain == e["domain"] or F.domain.bases == e["domain"].bases, "domain", f"{tag}: right side on another domain")
    except Exception as ex:
        rec.check(not want, "rejected", f"{tag}: accepted, then {type(ex).__name__}: {ex}")
        restore(W)
        return False
    if not want:
        rec.violate("accepted", f"{tag} does not have the documented form but is accepted"); restore(W)
        return True
    rec.nontriv()
    if not numeric: restore(W); return True
    at = lambda a: a(W.x) if callable(a) else a + 0*W.x if e["domain"].bases else np.reshape(a, (1,))
    ev = lambda t, **kw: value(t, {**W.env(), **kw}) if t != 0 else 0
    want_v = {}
    if cls == "LBVP": want_v["L"] = ev(L); want_v["F"] = ev(R)
    if cls == "IVP":
        want_v["L"] = ev(L, tau=0); want_v["M"] = ev(L, tau=1) - ev(L, tau=0); want_v["F"] = ev(R)
    if cls == "EVP":
        want_v["L"] = ev(L, s=0); want_v["M"] = ev(L, s=1) - ev(L, s=0)
    if cls == "NLBVP":
        G = lambda a: value(("sub", L, R) if R != 0 else L, {**W.env(), "u": (1 + a)*W.poly["u"], "v": (1 + a)*W.poly["v"]})
        want_v["F"] = G(0)
        # derivative in direction (u, v): exact for polynomials of degree up to four in the step
        d = [G(a) for a in (-2, -1, 1, 2)]
        want_v["dF"] = (d[0] - d[3])*(1/12) + (d[2] - d[1])*(2/3)
    for m, w in want_v.items():
        w = np.broadcast_to(at(w), got[m].shape)
        rec.close(got[m], w, f"represents:{m}", f"{tag}: {m} applied to the variables", rtol=1e-9, atol=1e-9)
    restore(W)
    return True

def cases(tier, seed):
    out = []
    for b in ("cheb", "cf"):
        for cls in CLASSES:
            parts = 4 if tier == "quick" else 16
            for i in range(parts):
                for form in ("text", "pair"):
                    if tier == "quick" and cls == "NLBVP" and form != ("text" if b == "cf" else "pair"): continue
                    out.append(dict(t="lhs", basis=b, cls=cls, part=i, parts=parts, form=form, seed=seed))
            for i in range(2):
                if tier == "quick" and cls == "NLBVP" and i != (b == "cf"): continue
                out.append(dict(t="rhs", basis=b, cls=cls, part=i, parts=2, form=("text", "pair")[i], seed=seed))
        for i in range(5): out.append(dict(t="toevp", basis=b, part=i, seed=seed))
    for cls in ("LBVP", "IVP", "EVP", "NLBVP"): out.append(dict(t="conform", cls=cls, seed=seed))
    for n in ("rf", "cf", "rfrf", "slab"): out.append(dict(t="conditions", name=n, seed=seed))
    out.append(dict(t="make", seed=seed))
    out.sort(key=lambda c: c['t'] not in ('toevp', 'rhs'))
    return out

def run_case(case, rec):
    import logging
    logging.getLogger().setLevel(logging.ERROR)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    globals()["run_" + case["t"]](case, rec)

def run_lhs(case, rec):
    W = World(case["basis"], case["seed"]); p = W.problem(case["cls"])
    for t in list(dict.fromkeys(trees(rec.tier) + chains(rec.tier)))[case["part"]::case["parts"]]:
        offer(rec, W, p, case["cls"], t, 0, case["form"])
    rec.trace(); rec.sample(dict(cls=case["cls"], basis=case["basis"], last=W.text(t)))

def run_rhs(case, rec):
    W = World(case["basis"], case["seed"]); p = W.problem(case["cls"])
    d1 = [t for t in depth1() if not dxd(t) and not number(t)]
    lhs = [t for t in d1 if accepted(case["cls"], t, 0)] if case["cls"] != "NLBVP" else ["u", ("mul", "u", "v"), ("interp", "u"), ("sin", "v"), ("dx", "u")]
    if case["cls"] == "EVP": lhs = lhs[:4]
    for L in lhs[case["part"]::case["parts"]]:
        for R in d1 + [2]: offer(rec, W, p, case["cls"], L, R, case["form"])
    # deeper right sides
    for R in trees(rec.tier)[case["part"]::case["parts"] if rec.tier == "thorough" else 3]:
        offer(rec, W, p, case["cls"], "u", R, case["form"])
    rec.trace()

def run_toevp(case, rec):
    """IVP.build_EVP: mass and linear matrices kept, right sides linearized about the backgrounds."""
    W = World(case["basis"], case["seed"]); d3 = W.d3
    d1 = [t for t in depth1() if not dxd(t) and not number(t)]
    lhs = [("add", ("dt", "u"), ("mul", "n", "v")), ("sub", ("mul", "n", ("dt", "v")), ("dx", "u")), ("interp", "u"), ("dx", "v"), ("dt", ("mul", "n", "u"))]
    rhs = [0] + [t for t in trees("quick") if all(x[1] == 0 and x[0] <= 3 for x in terms(t)) and not has(t, "sin") and "s" not in str(t).replace("'sq'", "").replace("'sub'", "")][::7 if rec.tier == "thorough" else 14]
    u, v = W.fields["u"], W.fields["v"]
    for L in lhs[case["part"]:case["part"] + 1]:
        for R in rhs:
            if R != 0 and const(L) and not const(R): continue
            for mode in ("variables", "default", "other"):
                p = W.problem("IVP")
                try: p.add_equation((W.build(L), W.build(R) if R != 0 else 0))
                except Exception as ex: rec.violate("toevp-ivp", f"{W.text(L)} = {W.text(R)}: {ex}"); continue
                tag = f"build_EVP of {W.text(L)} = {W.text(R)} with backgrounds: {mode}"
                rec.step(); rec.state(tag); rec.evals += 1
                kw = {}
                base = (W.poly["u"], W.poly["v"])
                if mode == "variables": kw["backgrounds"] = [u, v]
                if mode == "other":
                    b = [W.dist.Field(name=k + "0", bases=W.basis) for k in "uv"]
                    for x, k in zip(b, "vu"): x["g"] = W.poly[k](W.x)
                    kw["backgrounds"] = b; base = base[::-1]
                timed = R != 0 and any(x[2] for x in terms(R))
                try:
                    q = p.build_EVP(**kw)
                    e = q.equations[0]
                    vs = q.LHS_variables
                    got = {m: W.apply(e[m], e, vs) for m in ("M", "L")}
                except Exception as ex:
                    rec.check(timed, "toevp", f"{tag}: {type(ex).__name__}: {ex}"); restore(W); continue
                if timed: rec.violate("toevp-time", f"{tag} depends on time but is converted"); continue
                ev = lambda t, **kw: value(t, {**W.env(), **kw})
                G = lambda a: ev(R, u=base[0] + a*W.poly["u"], v=base[1] + a*W.poly["v"]) if R != 0 else 0
                d = [G(a) for a in (-2, -1, 1, 2)]
                dF = (d[0] - d[3])*(1/12) + (d[2] - d[1])*(2/3) if R != 0 else 0
                want = dict(M=ev(L, tau=1) - ev(L, tau=0), L=ev(L, tau=0) - dF)
                for m, w in want.items():
                    w = w(W.x) if callable(w) else w
                    rec.close(got[m], np.broadcast_to(w, got[m].shape), f"toevp:{m}", tag, rtol=1e-9, atol=1e-9)
                rec.nontriv(); restore(W)
    rec.trace()

def run_conform(case, rec):
    """Left and right sides on all pairs of domains, ranks and data types."""
    import dedalus.public as d3
    c = d3.CartesianCoordinates("x", "y")
    for dtype in (np.float64, np.complex128):
        dist = d3.Distributor(c, dtype=dtype)
        F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
        bx, by = F(c["x"], 4, (0, 1)), d3.ChebyshevT(c["y"], 4, (0, 1))
        doms = {"": (), "x": (bx,), "y": (by,), "xy": (bx, by)}
        sigs = {0: (), 1: (c,), 2: (c, c)}
        var = {(d, r): dist.Field(name=f"u{d}{r}", bases=b or None, tensorsig=s) for d, b in doms.items() for r, s in sigs.items()}
        vs = list(var.values())
        other = d3.CartesianCoordinates("p", "q")
        rhs = {}
        for dt in (np.float64, np.complex128):
            for d, b in doms.items():
                if dt is not dtype and b and bx in b: continue
                for r, s in sigs.items():
                    try: g = dist.Field(name="g", bases=b or None, tensorsig=s, dtype=dt)
                    except Exception: continue
                    g["g"] = 1
                    rhs[(d, r, dt)] = g
        rhs.update({("", 0, "int"): 1, ("", 0, "float"): 0.5, ("", 0, "cpx"): 1j, "zero": 0, "zerof": 0.0, ("", 0, "none"): None, ("", 0, "str"): "1"})
        cls = case["cls"]
        for (d, r), u in var.items():
            for key, g in rhs.items():
                p = d3.LBVP(vs) if cls == "LBVP" else d3.IVP(vs) if cls == "IVP" else d3.NLBVP(vs) if cls == "NLBVP" else d3.EVP(vs, eigenvalue=dist.Field(name="s"))
                zero = isinstance(key, str)
                if zero: ok = True
                elif cls == "EVP": ok = False
                else:
                    same = key[2] in ("int", "float") or key[2] is dtype or (key[2] == "cpx" and dtype is np.complex128)
                    if r and not hasattr(g, "domain"): continue    # a number for a vector is given to every component; not specified
                    ok = same and key[1] == r and (cls == "NLBVP" or set(key[0]) <= set(d))
                tag = f"{cls} {np.dtype(dtype).name}: {u.name} = {key}"
                rec.step(); rec.state(tag); rec.evals += 1
                try:
                    e = p.add_equation((u, g)); f = e["F"].evaluate() if cls != "EVP" and not hasattr(e["F"], "preset_layout") else e.get("F")
                    got = True
                except Exception as ex: got, why = False, f"{type(ex).__name__}: {ex}"
                if ok: rec.check(got, "conform-rejected", f"{tag}: {why if not got else ''}")
                else: rec.check(not got, "conform-accepted", f"{tag} is accepted")
                if ok and got:
                    rec.nontriv()
                    if cls in ("LBVP", "IVP"):
                        f.change_scales(1)
                        w = 0 if zero else g if not hasattr(g, "evaluate") and not hasattr(g, "domain") else 1
                        rec.close(f["g"], np.full(f["g"].shape, w), "conform-value", tag)
                        rec.check(f.dtype == np.dtype(dtype) and f.tensorsig == u.tensorsig and f.domain == u.domain, "conform-type", f"{tag}: right side of type {f.dtype}, {f.tensorsig}, {f.domain}")
        # sums of two variables, and variables and equations of one class only
        for (k1, a), (k2, b) in itertools.combinations(var.items(), 2):
            p = d3.LBVP(vs) if cls != "IVP" else d3.IVP(vs)
            rec.step(); rec.state((cls, k1, k2))
            try: p.add_equation((a + b, 0)); got = True
            except Exception: got = False
            rec.check(got == (k1[1] == k2[1]), "conform-sum", f"{a.name} + {b.name} = 0 {'accepted' if got else 'rejected'}")
    rec.trace()

def run_conditions(case, rec):
    """Every subset of the mode groups as the condition of one equation and its complement as that of another."""
    import dedalus.public as d3
    name = case["name"]
    two = name in ("rfrf", "slab")
    c = d3.CartesianCoordinates(*("xy" if two else "x"))
    dtype = np.complex128 if name == "cf" else np.float64
    dist = d3.Distributor(c, dtype=dtype)
    F = d3.ComplexFourier if name == "cf" else d3.RealFourier
    if name == "slab": bs = (F(c["x"], 8, (0, 1)), d3.ChebyshevT(c["y"], 3, (0, 1)))
    elif two: bs = (F(c["x"], 4, (0, 1)), F(c["y"], 6, (0, 1)))
    else: bs = (F(c["x"], 8, (0, 1)), )
    sep = [0, 1] if name == "rfrf" else [0]
    u, f = (dist.Field(name=n, bases=bs) for n in "uf")
    f.fill_random("c", seed=case["seed"] + 1); f["c"] *= f.valid_modes; f["g"]; f["c"]
    ref = f["c"].copy()
    mc = None if name == "slab" else [False]*len(bs)
    p = d3.LBVP([u]); p.add_equation((u, 0))
    # one-dimensional separable problems still couple their last axis unless another one is coupled: use conditions on a 2D problem there
    s0 = p.build_solver(matrix_coupling=mc)
    names = ["n" + "xy"[a] for a in sep if not s0.matrix_coupling[a]]
    if not names:
        rec.trace(); rec.nontriv(); return
    axes = [a for a in sep if not s0.matrix_coupling[a]]
    groups = sorted({tuple(ss.group[a] for a in axes) for ss in s0.subsystems})
    p.equations.clear()
    dep = lambda q: q   # conditions are applied per matrix group, so every group needs its own matrix: the operators depend on the group
    dx = lambda A: d3.Differentiate(A, c["x"])
    tup = "(" + ",".join(names) + ",)"
    subsets = list(itertools.chain.from_iterable(itertools.combinations(groups, k) for k in range(len(groups) + 1)))
    if len(subsets) > 300 and rec.tier == "quick": subsets = subsets[::len(subsets)//300]
    lap = lambda A: sum(d3.Differentiate(d3.Differentiate(A, c["xy"[a]]), c["xy"[a]]) for a in axes)
    for S in subsets:
        S = [tuple(int(x) for x in g) for g in S]
        for form in ("in", "not in"):
            p = d3.LBVP([u], namespace=dict(f=f, lap=lap))
            p.add_equation("2*u - lap(u) = f", condition=f"{tup} {form} {S}")
            p.add_equation("-3*u + lap(u) = f", condition=f"not ({tup} {form} {S})")
            s = p.build_solver(matrix_coupling=mc)
            u.preset_scales(1); u.preset_layout("c"); u.data[...] = 7
            s.solve()
            rec.step(); rec.state((name, tuple(S), form)); rec.evals += 1
            for sp in s.subproblems:
                for ss in sp.subsystems:
                    g = tuple(int(ss.group[a]) for a in axes)
                    k2 = sum((2*np.pi*x)**2 for x in g)
                    inside = (g in S) == (form == "in")
                    sl = ss.field_slices(u)
                    m = u.valid_modes[sl]
                    want = ref[sl]/((2 + k2) if inside else -(3 + k2))
                    rec.close(u["c"][sl][m], want[m], "conditions", f"{name}: groups {form} {S}: group {g}", rtol=1e-9, atol=1e-12)
            rec.nontriv()
    rec.trace(); rec.sample(dict(groups=groups, subsets=len(subsets)))

def run_make(case, rec):
    """Malformed problems."""
    import dedalus.public as d3
    c = d3.CartesianCoordinates("x"); dist = d3.Distributor(c, dtype=np.float64); b = d3.ChebyshevT(c["x"], 4, (0, 1))
    u = dist.Field(name="u", bases=b); w = dist.Field(name="w", bases=b)
    d2 = d3.Distributor(c, dtype=np.float64); z = d2.Field(name="z", bases=b)
    bad = [("time field with bases", lambda: d3.IVP([u], time=w)), ("time of another type", lambda: d3.IVP([u], time=3)), ("eigenvalue with bases", lambda: d3.EVP([u], eigenvalue=w)), ("variables of two distributors", lambda: d3.LBVP([u, z])),
           ("two equals signs", lambda: d3.LBVP([u]).add_equation("u = w = 0")), ("no equals sign", lambda: d3.LBVP([u]).add_equation("u")), ("unknown name", lambda: d3.LBVP([u]).add_equation("u = undefined_name")),
           ("other distributor", lambda: d3.LBVP([u]).add_equation((u + z, 0))), ("field of another distributor on the right", lambda: d3.LBVP([u]).add_equation((u, z)))]
    for label, make in bad:
        rec.step(); rec.state(label)
        try: make(); rec.violate("make", f"{label}: accepted")
        except Exception: rec.nontriv()
    rec.trace()
