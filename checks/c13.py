"""C13: implicit matrices reproduce the operators they discretize.

For every variable kind of a space, every operator and every pair of composed operators, a linear problem with that left
side is stated; the blocks its solver builds for every subproblem are applied to every unit vector of valid
coefficients and compared with the coefficients of the evaluated expression."""
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of linear expressions up to two operators over all bases and couplings, each matrix compared column by column (every unit vector of coefficients) with direct evaluation on the real code"
NOTE = "States are (expression, variable, coupling, unit vector). By linearity the columns cover every input. Evaluation itself is decided in C11 and C21."
BOUND = {"quick": "one operator and selected pairs, all variables, default coupling, sizes 3-4 per axis, 12 spaces", "thorough": "all pairs of operators and all couplings, 20 spaces, two sizes"}
ASSUMPTIONS = ["matrix entries below the default cutoffs are set to zero in both"]
TIMEOUT = 850
QUICK = [("cheb", "float64", 1), ("rf_cheb", "float64", 3), ("cf_cheb", "complex128", 2), ("cheb_rf", "float64", 2), ("rf_rf_cheb", "float64", 4), ("rf_none_cheb", "float64", 2), ("disk", "float64", 3), ("annulus", "complex128", 3), ("sphere", "float64", 1), ("sphere", "complex128", 1), ("ball", "float64", 4), ("shell", "float64", 4), ("cyl", "float64", 4), ("disk", "complex128", 2)]
MORE = [("rf", "float64", 1), ("cf", "complex128", 1), ("leg", "float64", 1), ("jac", "float64", 1), ("cheb_cheb", "float64", 2), ("rf_rf", "float64", 2), ("none_cheb", "float64", 1), ("cf_cf_cheb", "complex128", 4), ("rf_rf_rf", "float64", 4), ("annulus", "float64", 4), ("ball", "complex128", 4), ("shell", "complex128", 4), ("cylann", "float64", 4), ("cyl", "complex128", 4)]
BIG = {"disk": (8, 4), "annulus": (8, 4), "sphere": (8, 5), "ball": (8, 4, 3), "shell": (4, 3, 4), "rf_cheb": (6, 5), "cheb": (7,), "cyl": (4, 4, 4)}

COUPLED = {"ball": (8, 5, 3), "shell": (8, 5, 2)}

def cases(tier, seed):
    out = [dict(name=n, dtype=d, size=2, part=p, parts=3) for n, d in (("ball", "float64"), ("shell", "float64"), ("shell", "complex128")) for p in range(3)]
    for n, d, parts in QUICK + (MORE if tier == "thorough" else []):
        for s in (0, 1) if tier == "thorough" and n in BIG else (0,):
            P = parts * (6 if tier == "thorough" else 1)
            for p in range(P): out.append(dict(name=n, dtype=d, size=s, part=p, parts=P))
    return out

def couplings(problem_coupling, name, dim, tier):
    """None (the default) and all larger couplings in the thorough tier."""
    yield None
    import itertools
    if tier == "quick" and name not in ("rf_cheb", "cf_cheb", "cheb_rf"): return
    for c in itertools.product((False, True), repeat=dim):
        if name in ("disk", "annulus") and c[0]: continue
        if name == "sphere" and c[0]: continue
        if name in ("ball", "shell") and c[0]: continue
        if name in ("cyl", "cylann") and c[1]: continue
        if all(y or not x for x, y in zip(problem_coupling, c)) and any(c): yield list(c)

def expressions(O, tier):
    """(label, variables used, builder)."""
    for n, X in O.vars.items():
        yield n, (n,), lambda V, n=n: V[n]
        for op in O.unary(X):
            try:
                Y = O.apply(op, X)
            except Exception as e:
                yield f"{op}({n})", (n,), e
                continue
            yield f"{op}({n})", (n,), lambda V, n=n, op=op: O.apply(op, V[n])
            if not hasattr(Y, "tensorsig") or len(Y.tensorsig) > 2: continue
            for op2 in O.unary(Y):
                if op2 in ("neg", "num"): continue
                if tier == "quick" and (op in ("neg", "num") or op2.startswith(("comp", "center", "hilbert")) or n in ("T", "w", "uh") or op.startswith(("ave", "interp", "comp", "right", "center", "hilbert"))): continue
                yield f"{op2}({op}({n}))", (n,), lambda V, n=n, op=op, op2=op2: O.apply(op2, O.apply(op, V[n]))
        for label, lift in O.lifts(n):
            yield f"{label}({n})", (n,), lambda V, n=n, lift=lift: lift(V[n])
            if not X.tensorsig: yield f"grad({label}({n}))", (n,), lambda V, n=n, lift=lift: O.apply("grad", lift(V[n]))
            m = {0: "f", 1: "u", 2: "T"}[len(X.tensorsig)]
            yield f"{label}({n})+lap({m})", (n, m), lambda V, n=n, m=m, lift=lift: lift(V[n]) + (O.apply("lap", V[m]) if m != "T" else V[m])
            if m != "T": yield f"{m}-{label}({n})", (n, m), lambda V, n=n, m=m, lift=lift: V[m] - lift(V[n])
    V = O.vars
    # sums of variables with different bases
    import itertools
    names = list(V)
    for n, m in itertools.permutations(names, 2):
        if V[n].tensorsig != V[m].tensorsig: continue
        yield f"{n}+{m}", (n, m), lambda V, n=n, m=m: V[n] + V[m]
        if len(V[m].tensorsig) < 2: yield f"2*{n}-lap({m})", (n, m), lambda V, n=n, m=m: 2*V[n] - O.apply("lap", V[m])
    for a in ("f", "u"):
        yield f"lap({a})-3*{a}+{a}", (a,), lambda V, a=a: O.apply("lap", V[a]) - 3*V[a] + V[a]
    yield "div(u)+lap(f)+k", ("u", "f", "k"), lambda V: O.apply("div", V["u"]) + O.apply("lap", V["f"]) + V["k"]
    yield "grad(f)+lap(u)", ("u", "f"), lambda V: O.apply("grad", V["f"]) + O.apply("lap", V["u"])
    yield "0.5*(grad(u)+trans(grad(u)))", ("u",), lambda V: 0.5*(O.apply("grad", V["u"]) + O.apply("trans", O.apply("grad", V["u"])))
    yield "T+grad(u)+trans(T)", ("u", "T"), lambda V: V["T"] + O.apply("grad", V["u"]) + O.apply("trans", V["T"])
    yield "div(grad(u)+T)", ("u", "T"), lambda V: O.apply("div", O.apply("grad", V["u"]) + V["T"])
    yield "trace(grad(u)+T)+k", ("u", "T", "k"), lambda V: O.apply("trace", O.apply("grad", V["u"]) + V["T"]) + V["k"]

def run_case(case, rec):
    import dedalus.public as d3
    from mc.opspace import OpSpace
    O = OpSpace(case["name"], case["dtype"], (None, BIG, COUPLED)[case["size"]][case["name"]] if case["size"] else None)
    tag = f"{case['name']}:{case['dtype']}" + ["", "b", "c"][case["size"]]
    ex = list(expressions(O, rec.tier))
    if case["size"] == 2: ex = [x for x in ex if x[0].count("(") < 3 and not ("lift" in x[0] or "e" in x[1] or "ue" in x[1] or "Te" in x[1])]
    ex = ex[case["part"]::case["parts"]]
    nbuilt = 0
    for label, names, build in ex:
        vs = [O.vars[n] for n in names]
        # expressions that cannot be stated are rejected, not mis-assembled
        if isinstance(build, Exception):
            rec.state((label, "rejected")); continue
        reset(vs)
        try:
            X = build(O.vars)
            if not hasattr(X, "evaluate"): continue
            for v in vs: v["c"] = 0
            direct(X)
        except Exception as e:
            rec.state((label, "rejected")); continue
        try:
            P = d3.LBVP(vs)
            P.add_equation((X, 0))
        except Exception as e:
            if expected(e, X, label): rec.state((label, "unsupported")); continue
            rec.violate(f"raises:{tag}:{label}", f"{tag} {label}: equation rejected: {type(e).__name__}: {str(e)[:200]}")
            continue
        # whole spherical harmonics at each azimuthal order, or the couplings of the tier
        for c in [[False, True, True]] if case["size"] == 2 else couplings(P.matrix_coupling, case["name"], O.dist.dim, rec.tier):
            one(O, P, X, c, vs, rec, tag, label)
            if rec.tier == "quick" and case["name"] not in ("rf_cheb",): break
        nbuilt += 1
    rec.sample(dict(space=tag, part=case["part"], expressions=len(ex), built=nbuilt))

REJECTIONS = ("has not implemented a subproblem_matrix", "Incompatible group distributions", "not yet supported", "Only last-axis NCCs")

def expected(e, X, label):
    """Explicit rejections of unsupported expressions."""
    return any(r in str(e) for r in REJECTIONS)

def coupled_ell(O, coupling):
    """Coupled spherical harmonics in balls and shells: operators without such matrices (curl, edges, lifts) raise."""
    return O.name in ("ball", "shell") and coupling is not None and coupling[1]

def preserved(O, domain, tensorsig):
    """Coefficients that survive a round trip to the grid (a few modes at the highest degrees do not)."""
    memo = O.__dict__.setdefault("preserved", {})
    key = (id(domain), tuple(tensorsig))
    if key not in memo:
        f = O.dist.Field(bases=domain.bases, tensorsig=tensorsig, dtype=O.dtype)
        rng = np.random.default_rng(0)
        f.preset_scales(1)
        x = rng.uniform(0.5, 1, f["c"].shape)
        f["c"] = x
        f.change_scales(domain.dealias)
        f["g"]
        # keep the domain alive, so that its id is not used again
        memo[key] = domain, (np.abs(f["c"] - x) < 1e-8) if domain.bases else np.ones(x.shape, bool)
    return memo[key][1]

def reset(vs):
    for v in vs:
        v.preset_scales(1); v.preset_layout("c"); v["c"] = 0

def direct(X):
    Y = X.evaluate() if hasattr(X, "evaluate") else X
    return Y["c"].copy()

def one(O, P, X, coupling, vs, rec, tag, label):
    from dedalus.core import operators
    key = f"matrix:{tag}:{label}" + (f":{coupling}" if coupling else "")
    reset(vs)
    try:
        solver = P.build_solver(matrix_coupling=coupling)
    except Exception as e:
        if expected(e, X, label) or coupled_ell(O, coupling): return rec.state((label, "unsupported"))
        return rec.violate(f"raises:{tag}:{label}:{coupling}", f"{tag} {label} coupling {coupling}: solver raised {type(e).__name__}: {str(e)[:200]}")
    eqn = P.equations[0]
    L = eqn["L"]
    domain = eqn["domain"]
    target = operators.convert(X, domain.bases)
    try:
        L.gather_ncc_coeffs()
        blocks = [(sp, L.expression_matrices(subproblem=sp, vars=vs, ncc_cutoff=0, max_ncc_terms=None)) for sp in solver.subproblems]
    except Exception as e:
        import traceback
        if expected(e, X, label) or coupled_ell(O, coupling): return rec.state((label, "unsupported"))
        return rec.violate(f"raises:{tag}:{label}:{coupling}", f"{tag} {label} coupling {coupling}: matrices raised {type(e).__name__}: {str(e)[:200]} {traceback.format_exc().splitlines()[-3:-1]}")
    if coupled_ell(O, coupling) and any(B[v].shape != (ss.field_size(eqn["eqn"]), ss.field_size(v)) for sp, B in blocks for v in B for ss in sp.subsystems): return rec.state((label, "unsupported"))
    valid = eqn["valid_modes"] & preserved(O, target.domain, target.tensorsig) if getattr(target, "domain", None) is not None else eqn["valid_modes"]
    reset(vs)
    out0 = direct(target)
    covered = {id(v): np.zeros(v.valid_modes.shape, bool) for v in vs}
    for sp, B in blocks:
        for ss in sp.subsystems:
            for v in vs:
                if sp.field_size(v): covered[id(v)][ss.field_slices(v)] = True
    for v in vs:
        rec.check(np.all(covered[id(v)] | ~(v.valid_modes & preserved(O, v.domain, v.tensorsig))), key + ":cover", f"{tag} {label}: some valid modes of {v.name} are in no subproblem")
        for idx in np.argwhere(v.valid_modes & preserved(O, v.domain, v.tensorsig)):
            idx = tuple(idx.tolist())
            reset(vs)
            v["c"][idx] = 1
            want = direct(target)
            got = np.zeros(out0.shape, out0.dtype)
            for sp, B in blocks:
                if not sp.field_size(v) or v not in B or not sp.field_size(eqn["eqn"]): continue
                M = B[v]
                for ss in sp.subsystems:
                    x = unit(v, idx)[ss.field_slices(v)].ravel()
                    if not x.any(): continue
                    sl = ss.field_slices(eqn["eqn"])
                    got[sl] += np.asarray(M @ x).reshape(got[sl].shape)
            rec.state((label, v.name, str(coupling), idx)); rec.step()
            rec.evals += 1
            err = np.abs((got - want)*valid).max(initial=0)
            if err > 1e-9*max(1, np.abs(want).max(initial=0)):
                bad = tuple(np.argwhere(np.abs((got - want)*valid) > 1e-9)[0].tolist())
                rec.violate(key, f"{tag} {label} (coupling {coupling}): matrix times the mode {idx} of {v.name} is {got[bad]:.6g} at {bad}, evaluation gives {want[bad]:.6g}")
                break
    rec.trace()

def unit(v, idx):
    x = np.zeros(v.valid_modes.shape)
    x[idx] = 1
    return x
