"""C14: the matrix of multiplication by a non-constant coefficient is the truncated exact product.

For every space, every supported basis and rank of the coefficient, every operand and every product in both orders, the
matrices are built for every unit vector of the coefficient and applied to every unit vector of the operand; each entry
is compared with the coefficients of the product evaluated on a grid that resolves it."""
import itertools
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of (coefficient basis, operand, product, order) and of every pair of a coefficient mode and an operand mode on the real code; each bilinear entry compared with the product evaluated on a resolving grid"
NOTE = "States are (product, coefficient mode, operand mode). By bilinearity the pairs cover every coefficient and operand. The evaluated product is decided in C01, C02 and C11."
BOUND = {"quick": "13 spaces, coefficients of rank 0-2 on radial, latitude, meridional, last-axis and full bases, operands of rank 0-2 and one derivative, sizes 3-6 per axis, each coefficient mode alone (at most 5 at rank 2, 4 on meridional and full curvilinear bases and 8 in cylinders) and all together",
         "thorough": "24 spaces, two sizes, all coefficient modes, coefficients on derivative bases, all matrix couplings"}
ASSUMPTIONS = ["coefficient amplitudes are far above the cutoff", "the evaluated product on a doubled grid is the exact product (C01, C02)"]
TIMEOUT = 850
Q = [("cheb", "float64", 1), ("jac", "complex128", 1), ("rf_cheb", "float64", 2), ("cf_cheb", "complex128", 1), ("cheb_cheb", "float64", 2), ("rf_rf", "float64", 3), ("cf_cf_cheb", "complex128", 4), ("rf_none_cheb", "float64", 1),
     ("disk", "float64", 3), ("disk", "complex128", 4), ("annulus", "float64", 3), ("annulus", "complex128", 2), ("sphere", "float64", 2), ("sphere", "complex128", 2), ("ball", "float64", 4), ("shell", "float64", 4), ("shell", "complex128", 9), ("cyl", "float64", 4), ("cylann", "float64", 4)]
MORE = [("rf", "float64", 1), ("cf", "complex128", 1), ("leg", "float64", 1), ("cheb_rf", "float64", 2), ("rf_rf_cheb", "float64", 4), ("ball", "complex128", 4), ("cyl", "complex128", 4), ("none_cheb", "float64", 1)]
SIZES = {"cheb": (5,), "jac": (5,), "leg": (4,), "rf": (6,), "cf": (6,), "rf_cheb": (4, 4), "cf_cheb": (4, 3), "cheb_cheb": (3, 4), "cheb_rf": (3, 4), "rf_rf": (4, 6), "cf_cf_cheb": (4, 2, 3), "rf_none_cheb": (4, 1, 3), "rf_rf_cheb": (4, 4, 3), "none_cheb": (1, 4),
         "disk": (8, 4), "annulus": (4, 4), "sphere": (8, 5), "ball": (4, 3, 3), "shell": (4, 3, 3), "cyl": (4, 8, 4), "cylann": (4, 4, 4)}
BIG = {"cheb": (8,), "rf": (8,), "rf_cheb": (4, 6), "disk": (12, 6), "annulus": (8, 6), "sphere": (12, 6), "ball": (8, 4, 4), "shell": (8, 4, 4), "cyl": (2, 12, 5), "cheb_cheb": (4, 5)}

def cases(tier, seed):
    out = []
    for n, d, parts in Q + (MORE if tier == "thorough" else []):
        for s in (0, 1) if tier == "thorough" and n in BIG else (0,):
            P = parts * (5 if tier == "thorough" else 1)
            for p in range(P): out.append(dict(name=n, dtype=d, size=s, part=p, parts=P))
    return out

def coefficient_bases(O, tier):
    """(label, bases) a coefficient may be given on."""
    S = O.S
    B = tuple(S.bases)
    b = B[-1]
    ks = (0, 1, 2) if tier == "thorough" else (0, 1)
    if O.cart:
        out = []
        for r in range(1, len(B) + 1):
            for c in itertools.combinations(B, r):
                for k in ks if hasattr(c[-1], "derivative_basis") and r == 1 and type(c[-1]).__name__ == "Jacobi" else (0,):
                    cc = c[:-1] + (c[-1].derivative_basis(k),) if k else c
                    out.append(("".join(x.coord.name for x in c) + f"k{k}", cc))
        return out
    out = []
    if O.name in ("disk", "annulus", "ball", "shell"):
        for k in ks: out.append((f"radial{k}", (b.radial_basis.clone_with(k=k),)))
        if O.name == "shell": out += [(f"meridional{k}", (b.meridional_basis.clone_with(k=k),)) for k in ks]
        if O.name == "ball": out.append(("meridional", (b.clone_with(shape=(1,) + tuple(b.shape[1:])),)))
        out.append(("full", (b,)))
    elif O.name == "sphere":
        out += [("latitude", (b.latitude_basis,)), ("full", (b,))]
    else:
        for k in ks: out.append((f"radial{k}", (b.radial_basis.clone_with(k=k),)))
        out += [("z", B[:1]), ("zradial", (B[0], b.radial_basis)), ("full", B)]
    return out

def sigs(O, rank):
    v = O.vec
    if O.name in ("cyl", "cylann") and rank == 1:
        return [("v", (v,)), ("h", (O.coords.coordsystems[1],)), ("c", (O.coords.coordsystems[0],))]
    return [("vT"[rank - 1], (v,)*rank)] if rank else [("s", ())]

def products(O, ncc, arg):
    """(label, builder) of every bilinear product that applies."""
    import dedalus.public as d3
    ra, rb = len(ncc.tensorsig), len(arg.tensorsig)
    if ra + rb <= 2:
        yield "n*x", lambda n, x: n*x
        yield "x*n", lambda n, x: x*n
    if ra and rb and ra + rb - 2 <= 2:
        yield "n@x", lambda n, x: d3.dot(n, x)
        yield "x@n", lambda n, x: d3.dot(x, n)
    if ra == rb == 1 and O.vec.dim == 3:
        yield "nXx", lambda n, x: d3.cross(n, x)
        yield "xXn", lambda n, x: d3.cross(x, n)

def operands(O, tier):
    """(label, variable, builder)."""
    for n, X in O.vars.items():
        yield n, n, lambda V, n=n: V[n]
        if n in ("f", "u"):
            yield f"lap({n})", n, lambda V, n=n: O.apply("lap", V[n])
            yield f"grad({n})", n, lambda V, n=n: O.apply("grad", V[n])
        if n == "u": yield f"div({n})", n, lambda V, n=n: O.apply("div", V[n])

def run_case(case, rec):
    import logging
    logging.disable(logging.CRITICAL)
    import dedalus.public as d3
    from dedalus.tools.config import config
    from mc.opspace import OpSpace
    # Products are exact in the basis of the result, then truncated
    config["transforms"]["DEALIAS_BEFORE_CONVERTING"] = "False"
    name = case["name"]
    O = OpSpace(name, case["dtype"], (BIG if case["size"] else SIZES)[name], dealias=2)
    tag = f"{name}:{case['dtype']}" + ("b" if case["size"] else "")
    todo = []
    for cl, bases in coefficient_bases(O, rec.tier):
        for rank in (0, 1, 2):
            for sl, ts in sigs(O, rank):
                for ol, vn, build in operands(O, rec.tier):
                    if rec.tier == "quick" and rank == 2 and ol not in (("f", "u", "T") if O.cart and len(bases) == 1 and len(O.S.bases) == 1 or cl in ("radial0", "latitude") or cl == "yk0" and name == "rf_cheb" else ("f", "u")): continue
                    if rec.tier == "quick" and cl[-1] in "12" and ol not in ("f", "u", "lap(f)"): continue
                    if rec.tier == "quick" and cl.startswith("meridional") and (ol not in ("f", "u") or cl[-1] == "1" and rank): continue
                    if rec.tier == "quick" and (O.cart and len(bases) > 1 or name.startswith("cyl")) and ol not in ("f", "u", "lap(f)", "div(u)", "h", "uh"): continue
                    todo.append((cl, bases, sl, ts, ol, vn, build))
    built = rejected = 0
    for cl, bases, sl, ts, ol, vn, build in todo[case["part"]::case["parts"]]:
        ncc = O.dist.Field(name="n", bases=bases, tensorsig=ts, dtype=O.dtype)
        v = O.vars[vn]
        v.preset_scales(1); v["c"] = 0
        try:
            x = build(O.vars)
        except Exception:
            continue
        for pl, make in products(O, ncc, x):
            label = f"{tag}:{cl}:{sl}:{ol}:{pl}"
            try:
                X = make(ncc, x)
                ncc.preset_scales(1); ncc["c"] = 0
                direct(X)
            except Exception:
                # the product itself is not supported
                rec.state((label, "no product")); continue
            r = one(O, ncc, v, X, label, rec)
            supported = (O.cart and vn in ("f", "u", "T") or cl.startswith(("radial", "latitude")) and vn in ("f", "u", "T") or cl.startswith("meridional") and name == "shell" and O.dtype == np.complex128 and vn in ("f", "u", "T"))
            if pl[1] == "X" and O.dtype == np.float64 and not O.cart: supported = False
            if supported: rec.check(r != "rejected", f"unsupported:{label}", f"{label}: a supported coefficient is rejected")
            built += r == "built"; rejected += r == "rejected"
    rec.sample(dict(space=tag, part=case["part"], built=built, rejected=rejected))

def direct(X):
    from dedalus.core.field import Operand
    Y = X.evaluate()
    return Y["c"].copy()

def preserved(O, f):
    from checks.c13 import preserved as p
    return p(O, f.domain, f.tensorsig)

def one(O, ncc, v, X, label, rec):
    import dedalus.public as d3
    try:
        P = d3.LBVP([v])
        P.add_equation((X, 0))
        solver = P.build_solver()
        eqn = P.equations[0]
        L = eqn["L"]
    except Exception as e:
        rec.state((label, "rejected", type(e).__name__))
        return "rejected"
    # The product as stated in the equation: in the basis of its operand
    target = L
    try:
        ok = ncc.valid_modes & preserved(O, ncc)
    except AttributeError:
        # radial bases of balls and shells: modes that the transforms preserve
        ok = preserved(O, ncc)
    modes = [tuple(i.tolist()) for i in np.argwhere(ok)]
    most = 5 if len(ncc.tensorsig) == 2 else 4 if "meridional" in label or ":full:" in label else 8 if label.startswith(("cyl", "cf_cf")) else 99
    if rec.tier == "quick" and len(modes) > most:
        # spread over components and modes
        modes = modes[::-(-len(modes)//most)]
    valid = eqn["valid_modes"] & preserved(O, target)
    args = [tuple(i.tolist()) for i in np.argwhere(v.valid_modes & preserved(O, v))]
    if not args: return "empty"
    def amplitude(i): return (1 + 0.5*(sum(i) % 3)) * (-1)**sum(i)
    def load(mode):
        ncc.preset_scales(1); ncc["c"] = 0
        # single modes, and all modes together
        for i in [mode] if mode != "all" else map(tuple, np.argwhere(ok).tolist()): ncc["c"][i] = amplitude(i)
    for mode in modes + ["all"]*(len(modes) > 1):
        load(mode)
        try:
            L.gather_ncc_coeffs()
            blocks = [(sp, L.expression_matrices(subproblem=sp, vars=[v], ncc_cutoff=1e-12, max_ncc_terms=None)) for sp in solver.subproblems]
        except Exception as e:
            rec.state((label, "rejected", type(e).__name__))
            return "rejected"
        M = {}
        for idx in args:
            v.preset_scales(1); v["c"] = 0; v["c"][idx] = 1
            unit = v["c"].copy()
            load(mode)
            want = direct(target)
            got = np.zeros(want.shape, want.dtype)
            for sp, B in blocks:
                if not sp.field_size(v) or v not in B or not sp.field_size(eqn["eqn"]): continue
                for ss in sp.subsystems:
                    xs = unit[ss.field_slices(v)].ravel()
                    if not xs.any(): continue
                    sl = ss.field_slices(eqn["eqn"])
                    got[sl] += np.asarray(B[v] @ xs).reshape(got[sl].shape)
            rec.state((label, mode, idx)); rec.step()
            rec.evals += 1
            err = np.abs((got - want)*valid)
            if err.max(initial=0) > 1e-9*max(1, np.abs(want).max(initial=0)):
                bad = tuple(np.argwhere(err > 1e-9)[0].tolist())
                rec.violate(f"ncc:{label}", f"{label}: coefficient mode {mode} times operand mode {idx}: matrix gives {got[bad]:.6g} at {bad}, exact product {want[bad]:.6g}")
                return "built"
    rec.trace()
    # Another path to the same product: evaluation through the matrices
    return "built"
