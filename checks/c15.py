"""C15: symbolic manipulation preserves the meaning of expressions.

Every expression tree up to two operators over the leaves of a space is split, replaced, expanded, reinitialized,
differentiated and classified for every choice of variables; results are evaluated and compared with the values of the
original tree (derivatives: with the exact derivative of a polynomial in the step, or high-order differences), and the
linearity and order checks with the degree of the tree as a polynomial."""
import itertools
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of typed expression trees up to a depth times every symbolic transformation and variable choice, executed on the real classes; values compared by evaluation, acceptance compared with the polynomial degree of the tree"
NOTE = "States are (tree, transformation, variables). Evaluation of trees is decided in C11. Derivatives are exact: the tree along a line is a polynomial of degree at most six, interpolated from seven points (functions: tenth-order differences)."
BOUND = {"quick": "all one-operator and (function, power, product, sum, derivative)-composed two-operator trees over two leaves on 3 spaces",
         "thorough": "all two-operator trees over six leaves on 12 spaces"}
ASSUMPTIONS = ["values on random low-degree functions fixed by VERIF_SEED", "time derivatives enter structurally (they cannot be evaluated): dt is replaced by the identity before evaluating"]
TIMEOUT = 850
SPACES = [("rf_cheb", "float64", 8), ("disk", "float64", 6), ("ball", "float64", 4)]
MORE = [("rf", "float64", 3), ("cf_cheb", "complex128", 16), ("cheb", "float64", 8), ("rf_rf_cheb", "float64", 16), ("annulus", "float64", 16), ("sphere", "float64", 8), ("shell", "float64", 16), ("cyl", "float64", 16), ("disk", "complex128", 16), ("ball", "complex128", 16)]
SHAPES = {"rf": (10,), "rf_cheb": (10, 6), "disk": (12, 6), "ball": (8, 5, 4), "sphere": (12, 8), "annulus": (12, 8), "shell": (12, 7, 8), "cyl": (10, 12, 6)}

def cases(tier, seed):
    out = []
    for n, d, parts in SPACES + (MORE if tier == "thorough" else []):
        if tier == "thorough": parts = max(parts, 16)
        for p in range(parts): out.append(dict(name=n, dtype=d, part=p, parts=parts))
    return out

def degree(e, names, dt=False):
    """(polynomial degrees present in the variables) of a tree: None is non-polynomial."""
    k = e[0]
    if k == "leaf": return {1} if e[1] in names else {0}
    if k == "num": return {0}
    if k == "op": return degree(e[2], names)
    if k == "pow" and e[2] in (0, 1): return degree(e[1], names) if e[2] else {0}
    if k in ("ufunc", "pow"):
        d = degree(e[2] if k == "ufunc" else e[1], names)
        return {0} if d == {0} else {None}
    if k == "neg": return degree(e[1], names)
    a, b = degree(e[1], names), degree(e[2], names)
    if k in ("add", "sub"): return a | b
    return {None if x is None or y is None else x + y for x in a for y in b}

def dt_depth(e):
    k = e[0]
    if k in ("leaf", "num"): return 0
    n = max([dt_depth(x) for x in e[1:] if isinstance(x, tuple)])
    return n + (k == "op" and e[1] == "dt")

def show(e):
    k = e[0]
    if k == "leaf": return e[1]
    if k == "num": return str(e[1])
    if k in ("op", "ufunc"): return f"{e[1]}({show(e[2])})"
    if k == "pow": return f"{show(e[1])}**{e[2]}"
    return f"{k}({','.join(show(x) for x in e[1:])})"

def composed(E, tier):
    """Trees: leaves, one operator, and two operators (a selection in the quick tier)."""
    L = [(E.rank(n), ("leaf", n)) for n in E.leaves]
    D1 = E.depth1()
    ops = E.unary_ops()
    for n in ("f", "u"): D1.append((E.rank(n), ("op", "dt", ("leaf", n))))
    D1 += [(0, ("ufunc", fn, ("leaf", "f"))) for fn in ("sin", "exp", "tanh", "square", "absolute", "log", "sqrt", "arctan", "cos", "sinh", "cosh", "tan", "arcsin", "arccos", "arcsinh", "arccosh", "arctanh", "exp2", "log2", "log10", "sign")]
    D1 += [(0, ("ufunc", fn, ("add", ("leaf", "f"), ("num", 1.5)))) for fn in ("arccosh", "log", "log2", "sqrt")]
    D1 += [(0, ("pow", ("leaf", "f"), p)) for p in (2, 3, -1, 0.5, 1)]
    out = L + D1
    core = set("fgukvT" if tier == "thorough" else "fg" if E.cart else "fu")
    # time derivatives under other operators
    dtf, dtu = ("op", "dt", ("leaf", "f")), ("op", "dt", ("leaf", "u"))
    for x in [("op", "lap", dtf), ("mul", ("leaf", "g"), dtf), ("add", ("leaf", "g"), dtf), ("neg", dtf), ("mul", ("num", 3), dtf), ("mul", dtf, ("leaf", "g")), ("op", "lap", ("op", "lap", dtf)), ("op", "grad", dtf), ("mul", ("leaf", "f"), dtu), ("op", "div", dtu), ("op", "lap", dtu), ("dot", ("leaf", "v"), dtu)]:
        out += [(None, ("op", "dt", x)), (None, ("mul", dtf, x)), (None, ("add", dtf, x))]
    def rk(r, e):
        if r is None:
            try: r = len(E.build(e).tensorsig)
            except Exception: r = None
        return r
    D1 = [(rk(r, e), e) for r, e in D1]
    for r, e in D1:
        if r is None or not E.names(e) <= core: continue
        out += [(r, ("neg", e)), (r, ("mul", ("num", 3), e)), (r, ("op", "dt", e))]
        out += [(None, ("op", op, e)) for op in ops.get(r, [])]
        if r == 0: out += [(0, ("ufunc", "sin", e)), (0, ("pow", e, 2))]
        for rl, l in L:
            if l[1] not in core: continue
            out += E.binary(r, e, rl, l)
            out += E.binary(rl, l, r, e)
    return out

class Run:
    def __init__(self, case, rec):
        from mc.exprs import Env
        self.rec, self.tag = rec, f"{case['name']}:{case['dtype']}"
        self.E = E = Env(case["name"], case["dtype"], SHAPES.get(case["name"]), seed=rec.seed)
        import dedalus.public as d3
        from dedalus.core import operators
        self.d3, self.ops = d3, operators
        apply = E.apply
        E.apply = lambda op, X: operators.TimeDerivative(X) if op == "dt" else apply(op, X)
        # values stay in the domain of every function
        for n in ("f", "g"):
            x = E.leaves[n]
            x.preset_scales(1)
            x["c"] = E.coeffs[n]
            x["g"] = 0.5 + x["g"] * (0.15/np.abs(E.grids[n]).max())
            E.coeffs[n] = x["c"].copy()
        # new operands for replacement and perturbation
        self.pert = {}
        rng = np.random.default_rng(7 + rec.seed)
        other = Env(case["name"], case["dtype"], SHAPES.get(case["name"]), seed=rec.seed + 1000)
        for n in list(E.leaves):
            p = E.leaves[n].copy()
            p.name = "d" + n
            p.preset_scales(1); p.preset_layout("c")
            # another function of the same kind: its low-degree coefficients rescaled by a smooth factor
            p["c"] = E.coeffs[n] * rng.uniform(0.5, 1.0)
            if E.rank(n) == 0 and p.domain.bases and n in ("f",):
                p["c"] = 0.5*p["c"] + 0.25*E.coeffs["g"]
            if E.rank(n): p["c"] = 0.4*p["c"] + 0.6*other.coeffs[n]
            self.pert[n] = p
            p["c"]
        self.pc = {n: p["c"].copy() for n, p in self.pert.items()}

    def reset(self, t=0.):
        self.E.reset()
        if t:
            for n, f in self.E.leaves.items():
                f["c"] = self.E.coeffs[n] + (t*self.pc[n] if n in self.line else 0)
        for n, p in self.pert.items():
            p.preset_scales(1); p.preset_layout("c"); p["c"] = self.pc[n]

    def flow(self, x):
        """A derivation: the derivative along the perturbations of all leaves."""
        if not hasattr(x, "frechet_differential"): return 0
        n = list(self.E.leaves)
        return x.frechet_differential([self.E.leaves[k] for k in n], [self.pert[k] for k in n])

    def val(self, X, derive=False):
        """Grid values (or a number) of an expression; time derivatives taken as the identity or as a derivation."""
        if not hasattr(X, "evaluate"): return X
        if X.has(self.ops.TimeDerivative):
            X = X.replace(self.ops.TimeDerivative, self.flow if derive else lambda x: x)
            if not hasattr(X, "evaluate"): return X
        Y = X.evaluate()
        if type(Y).__name__ == "LockedField": return Y["g"].copy()
        Y = Y.copy()
        Y["c"]
        Y.change_scales(Y.domain.dealias)
        return Y["g"].copy()

    def tol(self, e):
        """Functions of fields are not resolved: their truncation depends on the order of evaluation."""
        return 5e-3 if any(x[0] == "ufunc" and x[1] != "square" or x[0] == "pow" and x[2] not in (0, 1, 2, 3) for x in walk(e)) else 1e-8

    def same(self, a, b, key, msg, rtol=None):
        rtol = rtol or self.tol(self.tree)
        a, b = np.asarray(a), np.asarray(b)
        scale = max(np.abs(a).max(initial=0), np.abs(b).max(initial=0), 1)
        self.rec.evals += 1
        if a.ndim and b.ndim and a.ndim != b.ndim or not np.all(np.isfinite(a)) == np.all(np.isfinite(b)):
            return self.rec.violate(key, f"{msg}: shapes {a.shape} {b.shape}")
        if not np.all(np.isfinite(a)): return
        try:
            err = np.abs(a - b).max(initial=0)
        except ValueError:
            return self.rec.violate(key, f"{msg}: shapes {a.shape} {b.shape}")
        if err > rtol*scale: self.rec.violate(key, f"{msg}: off by {err:.2e}")

def structure(X, f):
    """All nodes satisfying f."""
    out = [X] if f(X) else []
    for a in getattr(X, "args", ()):
        out += structure(a, f)
    return out

def run_case(case, rec):
    from dedalus.core.arithmetic import Add, Product
    R = Run(case, rec)
    E, tag, ops = R.E, R.tag, R.ops
    trees = []
    seen = set()
    for r, e in composed(E, rec.tier):
        if e not in seen:
            seen.add(e); trees.append(e)
    trees = trees[case["part"]::case["parts"]]
    if case["name"] in ("disk", "annulus"):
        trees = [e for e in trees if "interpphi" not in str(e)]
    for e in trees:
        R.reset()
        try:
            X = E.build(e)
        except Exception:
            continue
        if not hasattr(X, "evaluate") or not hasattr(X, "split"): continue
        names = sorted(E.names(e))
        try:
            want = R.val(X)
        except Exception as ex:
            rec.caps.append("not evaluable") if "not evaluable" not in rec.caps else None
            continue
        if not np.all(np.isfinite(np.asarray(want))): continue
        R.tree = e
        choices = [c for k in range(1, len(names)+1) for c in itertools.combinations(names, k)]
        absent = [n for n in E.leaves if n not in names][:1]
        for c in choices + ([tuple(absent)] if absent else []):
            vs = [E.leaves[n] for n in c]
            check_split(R, X, e, c, vs, want, rec, tag)
            check_expand(R, X, e, c, vs, want, rec, tag, Add, Product)
            check_degree(R, X, e, c, vs, rec, tag)
            check_reinit(R, X, e, c, vs, want, rec, tag)
        check_split_ops(R, X, e, want, rec, tag)
        for n in names:
            check_replace(R, X, e, n, want, rec, tag)
        for c in choices:
            check_frechet(R, X, e, c, rec, tag)
        check_order(R, X, e, rec, tag)
        if names: check_has(R, X, e, names, rec, tag)
        R.rec.trace()
    rec.sample(dict(space=tag, trees=len(trees)))

def guarded(f):
    def g(R, X, e, *args):
        R.reset()
        R.tree = e
        R.rec.state((f.__name__, e, str(args[0]) if not hasattr(args[0], "state") else ""))
        R.rec.step()
        try:
            f(R, X, e, *args)
        except (NotImplementedError,) as ex:
            if "derivative" in str(ex): return
            R.rec.violate(f"raises:{f.__name__[6:]}:{R.tag}:{show(e)}", f"{R.tag} {f.__name__[6:]} of {show(e)}: NotImplementedError {str(ex)[:100]}")
        except Exception as ex:
            import traceback
            R.rec.violate(f"raises:{f.__name__[6:]}:{R.tag}:{show(e)}", f"{R.tag} {f.__name__[6:]} of {show(e)}: {type(ex).__name__}: {str(ex)[:140]} {traceback.format_exc().splitlines()[-3:-1]}")
    return g

@guarded
def check_split(R, X, e, c, vs, want, rec, tag):
    key = f"split:{tag}:{show(e)}:{','.join(c)}"
    a, b = X.split(*vs)
    for part, name in ((a, "dependent"), (b, "independent")):
        has = hasattr(part, "has") and part.has(*vs)
        nonzero = hasattr(part, "has") or part != 0
        rec.check(has == (name == "dependent") or not nonzero, key, f"{tag} split of {show(e)} by {c}: the {name} part {part} {'contains' if has else 'does not contain'} a variable")
    R.same(np.asarray(R.val(a)) + np.asarray(R.val(b)), want, key, f"{tag} split of {show(e)} by {c}: parts do not sum to it")
    # linear trees: the dependent part is exactly the terms with variables
    if degree(e, c) <= {0, 1}:
        got = R.val(b)
        for n in c: R.E.leaves[n]["c"] = 0
        R.same(got, R.val(X), key, f"{tag} split of {show(e)} by {c}: independent part")

@guarded
def check_split_ops(R, X, e, want, rec, tag):
    """Splitting by operator type."""
    if dt_depth(e) == 0 and "lap" not in str(e): return
    for T, name in ((R.ops.TimeDerivative, "dt"), (R.ops.Laplacian, "lap")):
        if name not in str(e): continue
        key = f"split:{tag}:{show(e)}:{name}"
        a, b = X.split(T)
        rec.check(not hasattr(b, "has") or not b.has(T), key, f"{tag} split of {show(e)} by {name}: independent part has it")
        rec.check(not hasattr(a, "has") or a.has(T), key, f"{tag} split of {show(e)} by {name}: dependent part has not")
        R.same(np.asarray(R.val(a)) + np.asarray(R.val(b)), want, key, f"{tag} split of {show(e)} by {name}: parts do not sum to it")

@guarded
def check_expand(R, X, e, c, vs, want, rec, tag, Add, Product):
    key = f"expand:{tag}:{show(e)}:{','.join(c)}"
    if dt_depth(e): want = R.val(X, derive=True)
    Y = X.expand(*vs)
    R.same(R.val(Y, derive=True), want, key, f"{tag} expansion of {show(e)} over {c} changes its value")
    if hasattr(Y, "args"):
        bad = structure(Y, lambda N: isinstance(N, Product) and any(isinstance(a, Add) and a.has(*vs) for a in N.args))
        rec.check(not bad, key + ":form", f"{tag} expansion of {show(e)} over {c} leaves the product of sums {bad[:1]}")

@guarded
def check_reinit(R, X, e, c, vs, want, rec, tag):
    key = f"reinitialize:{tag}:{show(e)}:{','.join(c)}"
    if degree(e, c) != {1}:
        if X is not None and c == tuple(sorted(R.E.names(e))):
            R.same(R.val(X.reinitialize()), want, key, f"{tag} reinitialization of {show(e)} changes its value")
        return
    try:
        Y = X.reinitialize(ncc=True, ncc_vars=vs)
    except TypeError as ex:
        # coefficients on bases that do not support it are rejected
        if "@" in str(ex): return
        raise
    rec.check(Y.tensorsig == X.tensorsig and Y.dtype == X.dtype, key, f"{tag} reinitialization of {show(e)} changes its type")
    R.same(R.val(Y), want, key, f"{tag} reinitialization of {show(e)} with non-constant coefficients changes its value")

@guarded
def check_replace(R, X, e, n, want, rec, tag):
    E = R.E
    key = f"replace:{tag}:{show(e)}:{n}"
    old, new = E.leaves[n], R.pert[n]
    Y = X.replace(old, new)
    rec.check(not hasattr(Y, "has") or not Y.has(old), key, f"{tag} {show(e)}: {n} is still there after replacing it")
    got = R.val(Y)
    # the same tree with the data of the leaf exchanged
    R.reset()
    old["c"] = R.pc[n]
    R.same(got, R.val(X), key, f"{tag} {show(e)} with {n} replaced")
    R.reset()
    R.same(R.val(X), want, key + ":orig", f"{tag} {show(e)}: the original expression changed when {n} was replaced")
    # by an expression
    Y = X.replace(old, old + 2*new)
    got = R.val(Y)
    R.reset()
    old["c"] = E.coeffs[n] + 2*R.pc[n]
    R.same(got, R.val(X), key + ":sum", f"{tag} {show(e)} with {n} replaced by a sum")
    R.reset()
    # by zero
    if not any(x[0] in ("ufunc", "pow") or x[0] in ("add", "sub") and any(y[0] == "num" or y == ("leaf", "k") for y in x[1:]) for x in walk(e)):
        Y = X.replace(old, 0)
        got = R.val(Y)
        old["c"] = 0
        R.same(got, R.val(X), key + ":zero", f"{tag} {show(e)} with {n} replaced by zero")

def walk(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple): yield from walk(x)

@guarded
def check_degree(R, X, e, c, vs, rec, tag):
    """Linearity checks against the polynomial degree."""
    key = f"linear:{tag}:{show(e)}:{','.join(c)}"
    d = degree(e, c)
    for affine, ok in ((False, d == {1}), (True, d <= {0, 1})):
        if affine is False and d == {0} and not R.E.names(e): continue
        try:
            X.require_linearity(*vs, allow_affine=affine, error=ArithmeticError)
            accepted = True
        except ArithmeticError:
            accepted = False
        rec.evals += 1
        if accepted != ok:
            # sums that cancel symbolically may be simplified while they are built
            rec.violate(key, f"{tag} {show(e)}: {'accepted' if accepted else 'rejected'} as {'affine' if affine else 'linear'} in {c}, degrees {d}")
    try:
        X.require_independent(*vs, error=ArithmeticError)
        accepted = True
    except ArithmeticError:
        accepted = False
    rec.check(accepted == (not set(c) & R.E.names(e)), key + ":indep", f"{tag} {show(e)}: independence of {c}")

@guarded
def check_order(R, X, e, rec, tag):
    n = dt_depth(e)
    if not n: 
        X.require_first_order(R.ops.TimeDerivative, error=ArithmeticError)
        return
    try:
        X.require_first_order(R.ops.TimeDerivative, error=ArithmeticError)
        accepted = True
    except ArithmeticError:
        accepted = False
    rec.check(accepted == (n == 1), f"order:{tag}:{show(e)}", f"{tag} {show(e)}: {'accepted' if accepted else 'rejected'} as first order in time")

@guarded
def check_has(R, X, e, names, rec, tag):
    for n, f in R.E.leaves.items():
        rec.check(X.has(f) == (n in names), f"has:{tag}:{show(e)}:{n}", f"{tag} {show(e)}.has({n})")
    from dedalus.core.field import Field
    rec.check(set(names) <= {a.name for a in X.atoms(Field)}, f"atoms:{tag}:{show(e)}", f"{tag} {show(e)}: atoms {[a.name for a in X.atoms(Field)]}")
    if dt_depth(e): rec.check(X.has(R.ops.TimeDerivative), f"has:{tag}:{show(e)}:dt", f"{tag} {show(e)}.has(dt)")

T7 = np.array([-3, -2, -1, 0, 1, 2, 3.])

@guarded
def check_frechet(R, X, e, c, rec, tag):
    E = R.E
    R.line = set(c)
    key = f"derivative:{tag}:{show(e)}:{','.join(c)}"
    smooth = any(x[0] == "ufunc" or x[0] == "pow" and x[2] not in (1, 2, 3) for x in walk(e))
    vs, ps = [E.leaves[n] for n in c], [R.pert[n] for n in c]
    # derivative of evaluated values along the line
    h = 1/8 if not smooth else 4e-3
    vals = []
    if not smooth:
        ts = T7*h
    else:
        ts = np.arange(-4, 5)*h
    for t in ts:
        R.reset(t)
        vals.append(np.asarray(R.val(X)))
    vals = np.array(vals)
    if not np.all(np.isfinite(vals)): return
    if smooth:
        w = np.array([1/280, -4/105, 1/5, -4/5, 0, 4/5, -1/5, 4/105, -1/280])/h
    else:
        w = np.array([-1/60, 3/20, -3/4, 0, 3/4, -3/20, 1/60])/h
    d = np.tensordot(w, vals, 1)
    R.reset()
    try:
        D = X.frechet_differential(vs, ps)
    except ValueError as ex:
        if "Symbolic derivative not implemented" in str(ex): return
        raise
    got = R.val(D) if D is not None else 0
    R.same(np.broadcast_to(got, d.shape) if np.ndim(got) == 0 else got, d, key, f"{tag} derivative of {show(e)} along {c}", rtol=R.tol(e))
    # around other backgrounds
    if not smooth and hasattr(D, "evaluate"):
        E.reset()
        B = []
        for n in c:
            b = E.leaves[n].copy(); b.preset_scales(1); b.preset_layout("c"); b["c"] = 0.5*E.coeffs[n]; B.append(b)
        D2 = X.frechet_differential(vs, ps, backgrounds=B)
        got = R.val(D2)
        for n in c: E.leaves[n]["c"] = 0.5*E.coeffs[n]
        R.same(got, R.val(X.frechet_differential(vs, ps)), key + ":bg", f"{tag} derivative of {show(e)} along {c} around backgrounds")
    R.reset()
