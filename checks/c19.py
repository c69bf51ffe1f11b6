"""C19: solutions do not depend on how the linear systems are arranged or solved.

For a family of well-posed problems over every basis family, every combination of matrix solver and ordering option,
every order of equations and of variables, every matrix coupling, every storage option and every order of solving the
subproblems is run. Each solution is compared with one reference, which is itself put back into the stated equations."""
import itertools, warnings
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of solver configurations (matrix solver x boundary-row placement x tau placement x interleaving x storage x equation and variable order x matrix coupling x solve order) on the real code, with residuals of the stated equations as the oracle"
NOTE = "States are (problem, configuration). The reference solution is validated by evaluating the stated equations on it on every valid mode; all other configurations must reproduce it to rounding. Evaluated operators are decided in C11-C14."
BOUND = {"quick": "38 linear boundary-value problems, all 8 orderings x 9 matrix solvers (plus bordered variants), all equation and variable orders up to 36 (all single-side orders beyond), all couplings, all orders of solving up to 4 subproblems; initial-value, eigenvalue and nonlinear problems with all orderings and storage options",
         "thorough": "full product of equation and variable orders, orderings x orders, two data sets"}
ASSUMPTIONS = ["problems are non-singular for every group (checked by rank)", "solvers whose libraries are not installed are left out"]
TIMEOUT = 850
SOLVERS = ["SuperluNaturalSpsolve", "SuperluColamdSpsolve", "SuperluNaturalFactorized", "SuperluNaturalFactorizedTranspose", "SuperluColamdFactorized", "SuperluColamdFactorizedTranspose", "ScipyBanded", "SparseInverse", "DenseInverse", "ScipyDenseLU", "BlockInverse"]
WOOD = ["WoodburySuperluColamdFactorized", "WoodburyScipyBanded", "WoodburyScipyDenseLU"]
NAMES = ["cheb", "cheb_c", "ncc1", "sys1", "noderiv", "rf", "cf", "gauge", "gauge_c", "helm", "helmv", "slab", "slab_c", "slabflip", "slab3", "slabnone", "cond", "stokes", "stokes_c", "channelncc", "cheb2",
         "disk", "disk_c", "diskv", "diskncc", "annulus", "annulusv", "sphere", "sphere_c", "spherev", "ball", "ball_c", "ballv", "shell", "shellv", "shellncc", "cyl", "cylann"]
HEAVY = {"stokes", "stokes_c", "shellv", "shellncc", "annulusv", "disk_c", "diskv", "ballv", "helmv", "channelncc"}
UNRESOLVED = {"shellncc"}       # the evaluated product is truncated in another basis than the matrix
IVP = ["cheb", "ncc1", "sys1", "rf", "helm", "slab", "slab_c", "cond", "stokes", "disk", "diskv", "annulus", "spherev", "ball", "shellv", "cyl"]
ORDERS = [dict(bc_top=a, tau_left=b, interleave_components=c) for a in (False, True) for b in (False, True) for c in (False, True)]

def cases(tier, seed):
    out = []
    for n in NAMES:
        for t in ("options", "permute", "misc"): out.append(dict(t=t, name=n, seed=seed))
        if tier == "thorough": out.append(dict(t="options", name=n, seed=seed + 1000))
    for n in IVP:
        for s in ("SBDF2", "RK222"): out.append(dict(t="ivp", name=n, scheme=s, seed=seed))
    for n in ("sys", "wave"): out.append(dict(t="evp", name=n, seed=seed))
    for n in ("cheb", "slab"): out.append(dict(t="nlbvp", name=n, seed=seed))
    out.sort(key=lambda c: (c["name"] not in HEAVY, c["t"] != "options"))
    return out

def valid(P, p):
    """Masks of the modes each equation constrains, including conditions."""
    out = []
    for e in p.equations:
        out.append(e["valid_modes"])
    return out

def residual(rec, P, p, solver, label):
    """Evaluate the stated equations on the present state, where they apply."""
    from checks.c13 import preserved
    for i, e in enumerate(p.equations):
        L = np.array(e["L"].evaluate()["c"])
        F = np.array(e["F"].evaluate()["c"]) if not hasattr(e["F"], "preset_layout") else np.array(e["F"]["c"])
        m = e["valid_modes"].copy()
        on = np.zeros_like(m)
        proxy = e["L"].evaluate()
        for sp in solver.subproblems:
            if sp.check_condition(e):
                for ss in sp.subsystems: on[ss.field_slices(proxy)] = True
        r = (L - F) * (m & on)
        scale = 1 + abs(L).max() if L.size else 1
        rec.step()
        rec.check(not r.size or abs(r).max() < 1e-9*scale, "residual", f"{P.name} {label}: equation {i} '{P.eqs[i][0]}' has residual {abs(r).max() if r.size else 0:.1e} at {np.argwhere(abs(r) >= 1e-9*scale)[:3].tolist()}")

def solve(P, p, **kw):
    for v in P.vars: v.preset_layout("c"); v.data[...] = 0
    s = p.build_solver(**kw)
    s.solve()
    return s

def same(rec, P, got, ref, key, msg, tol=1e-9):
    ok = all(np.allclose(a, b, rtol=tol, atol=tol*(1 + max(abs(x).max() for x in ref if x.size))) and np.isfinite(a).all() for a, b in zip(got, ref))
    rec.check(ok, key, f"{P.name} {msg}: differs by {max(abs(a - b).max() for a, b in zip(got, ref) if a.size):.1e}")

def reference(rec, P):
    p = P.lbvp()
    s = solve(P, p)
    ok = all(np.linalg.matrix_rank(sp.L_min.toarray()) == sp.L_min.shape[0] for sp in s.subproblems)
    rec.check(ok, "singular", P.name)
    if P.name not in UNRESOLVED: residual(rec, P, p, s, "defaults")
    ref = P.solution()
    rec.check(all(np.isfinite(a).all() for a in ref) and any(abs(a).max() > 1e-3 for a in ref if a.size), "trivial", P.name)
    # A dense solve of the raw system (all equations and variables in the order given, no options) gives the same answer
    for sp in s.subproblems:
        A = sp.L_min.toarray(); b = sp.gather_outputs(s.F).copy()
        x = np.linalg.solve(A, b)
        y = sp.gather_inputs(s.state).copy()
        rec.step()
        rec.close(y, x, "dense", f"{P.name} group {sp.group}", rtol=1e-8, atol=1e-9*(1 + abs(x).max()))
    return p, ref

def run_case(case, rec):
    from mc import problems
    import logging
    logging.getLogger().setLevel(logging.ERROR)
    warnings.simplefilter("ignore")
    globals()["run_" + case["t"]](case, rec)

def run_options(case, rec):
    from mc import problems
    P = problems.Problem(case["name"], seed=case["seed"])
    p, ref = reference(rec, P)
    for opt in ORDERS:
        for ms in SOLVERS + (WOOD if opt["bc_top"] else []):
            label = f"{ms} {''.join(str(int(v)) for v in opt.values())}"
            if ms == "BlockInverse":
                if case["name"] != "rf" or any(opt.values()): continue
                try: solve(P, p, matsolver=ms, **opt)
                except Exception as e: rec.violate("blockinverse", f"the block solver cannot be used: {type(e).__name__}: {e}"); continue
            elif ms in WOOD:
                # The bordered solvers need the matrix to be invertible without its borders
                s = p.build_solver(matsolver="SuperluColamdFactorized", **opt)
                s.build_matrices()
                if not all(borderless(sp) for sp in s.subproblems): continue
                rec.nontriv()
                solve(P, p, matsolver=ms, **opt)
            else:
                solve(P, p, matsolver=ms, **opt)
            rec.step(); rec.state((case["name"], label))
            same(rec, P, P.solution(), ref, "options", label)
    rec.trace()
    rec.sample(dict(problem=case["name"], equations=[e for e, c in P.eqs], solution=[a.ravel()[:2].tolist() if a.dtype.kind != "c" else str(a.ravel()[:2]) for a in ref][:2]))

def borderless(sp):
    R = sp.update_rank
    A = sp.L_min.toarray().copy()
    n = A.shape[0]
    if 2*R >= n: return False
    if R:
        A[:R, R:] = 0
        A[R:-R, -R:] = 0
    return np.linalg.cond(A) < 1e7

def orders(n, m, full):
    pe, pv = list(itertools.permutations(range(n))), list(itertools.permutations(range(m)))
    if full or len(pe)*len(pv) <= 36: return [(a, b) for a in pe for b in pv]
    pe, pv = pe[:24] + pe[-24:] if len(pe) > 48 and not full else pe, pv[:24] + pv[-24:] if len(pv) > 48 and not full else pv
    return [(a, pv[0]) for a in pe] + [(pe[0], b) for b in pv]

def run_permute(case, rec):
    from mc import problems
    P = problems.Problem(case["name"], seed=case["seed"])
    p, ref = reference(rec, P)
    todo = orders(len(P.eqs), len(P.vars), rec.tier == "thorough" and len(P.eqs)*len(P.vars) <= 16)
    if len(todo) > 400: todo = todo[:400]; rec.caps.append("orders") if hasattr(rec.caps, "append") else None
    for k, (oe, ov) in enumerate(todo):
        q = P.lbvp(oe, ov)
        opts = [{}, ORDERS[k % 8]] if rec.tier == "quick" else [{}] + ORDERS[1:]
        for opt in opts:
            solve(P, q, **opt)
            rec.step(); rec.state((case["name"], oe, ov, str(opt)))
            same(rec, P, P.solution(), ref, "permuted", f"equations {oe} variables {ov} {opt}")
    rec.trace()

def run_misc(case, rec):
    """Couplings, partial solves in every order, repeated solves and rebuilt matrices."""
    from mc import problems
    P = problems.Problem(case["name"], seed=case["seed"])
    p, ref = reference(rec, P)
    need = np.array(p.matrix_coupling)
    for mc in itertools.product([False, True], repeat=P.dist.dim):
        a = np.array(mc)
        rec.step(); rec.state((case["name"], "coupling", mc))
        if (need & ~a).any():
            try: p.build_solver(matrix_coupling=a); rec.violate("coupling-accepted", f"{P.name}: {mc} although the problem couples {need.tolist()}")
            except ValueError: pass
            continue
        if not a.any(): a = a.copy()
        try: s = solve(P, p, matrix_coupling=a)
        except NotImplementedError: continue
        except Exception as e:
            # unsupported couplings of curvilinear bases are refused, in whatever way; Cartesian axes can always be coupled
            from mc import spaces
            # (conditions that name the group of a coupled axis have no meaning)
            rec.check(problems.ALL[case["name"]][0] not in spaces.CART or case["name"] == "cond", "coupling-raised", f"{P.name} {mc}: {type(e).__name__}: {e}")
            continue
        rec.nontriv()
        same(rec, P, P.solution(), ref, "coupling", f"coupling {mc}")
    # subsets and orders of subproblems
    s = p.build_solver()
    sps = s.subproblems
    orders = list(itertools.permutations(range(min(len(sps), 4)))) if len(sps) <= 4 else [tuple(range(len(sps))), tuple(reversed(range(len(sps))))]
    for o in orders:
        for fresh in (True, False):
            for v in P.vars: v.preset_layout("c"); v.data[...] = 0
            if fresh: s = p.build_solver()
            for k, i in enumerate(o):
                before = P.solution()
                s.solve(subproblems=s.subproblems[i] if k % 2 else [s.subproblems[i]], rebuild_matrices=not fresh and k % 2 == 1)
                rec.step()
                for v, b0 in zip(P.vars, before):
                    mine = np.zeros(b0.shape, bool)
                    for ss in s.subproblems[i].subsystems: mine[ss.field_slices(v)] = True
                    rec.check(np.array_equal(np.array(v["c"])[~mine], b0[~mine]), "other-groups", f"{P.name}: solving group {s.subproblems[i].group} changed others")
            same(rec, P, P.solution(), ref, "partial", f"groups in order {o} fresh {fresh}")
    # changed data, then repeated solves on one solver
    P.fill(case["seed"] + 7)
    s.solve(); new = P.solution()
    if P.rhs and case["name"] not in UNRESOLVED: residual(rec, P, p, s, "second data")
    P.fill(case["seed"]); s.solve()
    same(rec, P, P.solution(), ref, "repeated", "solved again with the first data")
    for n in P.nccs:
        n["g"] = 1.25*n["g"]
        s.solve(rebuild_matrices=True); a = P.solution()
        if case["name"] not in UNRESOLVED: residual(rec, P, p, s, "rebuilt")
        q = P.lbvp(); solve(P, q)
        same(rec, P, a, P.solution(), "rebuilt", "rebuilt with other coefficients against a new problem")
        rec.check(max(abs(x - y).max() for x, y in zip(a, ref)) > 1e-6, "stale-matrices", f"{P.name}: rebuilding with changed coefficients changes nothing")
    rec.trace()

def run_ivp(case, rec):
    from mc import problems, spaces
    P = problems.Problem(case["name"], seed=case["seed"])
    p = P.ivp()
    init = [spaces.random_coeffs(v, i + case["seed"]) * v.valid_modes * 0.2 for i, v in enumerate(P.vars)]
    def run(**kw):
        for v, a in zip(P.vars, init): v.preset_layout("c"); v.data[...] = a
        s = p.build_solver(case["scheme"], **kw)
        for dt in (0.1, 0.1, 0.05, 0.1): s.step(dt)
        return P.solution()
    ref = run()
    for stored in (False, True):
        for opt in ORDERS:
            for ms in ([None] + (["ScipyDenseLU", "SuperluColamdFactorizedTranspose", "ScipyBanded"] if not opt["bc_top"] or opt["tau_left"] else [])):
                kw = dict(opt, store_expanded_matrices=stored)
                if ms: kw["matsolver"] = ms
                got = run(**kw)
                rec.step(4); rec.state((case["name"], case["scheme"], str(kw)))
                same(rec, P, got, ref, "ivp", f"{case['scheme']} {kw}", 1e-8)
    rec.trace(); rec.nontriv()

def run_evp(case, rec):
    import dedalus.public as d3
    c = d3.CartesianCoordinates("x", "z"); dist = d3.Distributor(c, dtype=np.complex128)
    bx, bz = d3.ComplexFourier(c["x"], size=4, bounds=(0, 6.28)), d3.Chebyshev(c["z"], size=6, bounds=(-1, 1))
    u, v = dist.Field(name="u", bases=(bx, bz)), dist.Field(name="v", bases=(bx, bz))
    t1, t2, om = dist.Field(name="t1", bases=bx), dist.Field(name="t2", bases=bx), dist.Field(name="om")
    lift = lambda A, n: d3.Lift(A, bz.derivative_basis(1), n)
    dz = lambda A: d3.Differentiate(A, c["z"])
    dx = lambda A: d3.Differentiate(A, c["x"])
    V = [u, v, t1, t2]
    if case["name"] == "sys": E = [(om*u + dz(v) + 0.5*u + lift(t1, -1), 0), (om*v + dz(u) - dx(u) + lift(t2, -1), 0), (u(z=-1), 0), (v(z=1), 0)]
    else: E = [(v - dz(u) - lift(t1, -1), 0), (om*u - dz(v) - dx(dx(u)) - lift(t2, -1), 0), (u(z=-1), 0), (v(z=1) + 2*u(z=1), 0)]
    ref = None
    for oe in itertools.permutations(range(4)):
        for ov in itertools.permutations(range(4)) if rec.tier == "thorough" or oe in ((0, 1, 2, 3), (2, 3, 0, 1)) else [(0, 1, 2, 3)]:
            p = d3.EVP([V[i] for i in ov], eigenvalue=om)
            for i in oe: p.add_equation(E[i])
            for opt in (ORDERS if ov == (0, 1, 2, 3) and oe in ((0, 1, 2, 3), (2, 3, 0, 1)) else [{}]):
                s = p.build_solver(**opt)
                for k, sp in enumerate(s.subproblems):
                    s.solve_dense(sp)
                    w = s.eigenvalues[np.isfinite(s.eigenvalues) & (abs(s.eigenvalues) < 1e4)]
                    w = w[np.lexsort((w.imag.round(6), w.real.round(6)))]
                    rec.step(); rec.state((case["name"], oe, ov, str(opt), k))
                    if ref is None: ref = {}
                    r = ref.setdefault(sp.group, w)
                    ok = len(r) == len(w) and all(min(abs(r - x)) < 1e-6*(1 + abs(x)) for x in w) and all(min(abs(w - x)) < 1e-6*(1 + abs(x)) for x in r)
                    rec.check(ok and len(w) > 2, "evp", f"{case['name']} equations {oe} variables {ov} {opt} group {sp.group}: {w[:4]} instead of {r[:4]}")
    rec.trace(); rec.nontriv()

def run_nlbvp(case, rec):
    import dedalus.public as d3
    from mc import problems
    P = problems.Problem(case["name"], seed=case["seed"])
    pairs = P.pairs()
    E = [(L + 0.1*P.vars[0]*P.vars[0], R) if i == 0 else (L, R) for i, (L, R, c) in enumerate(pairs)]
    ref = None
    for ov in itertools.permutations(range(len(P.vars))):
        for oe in itertools.permutations(range(len(E))):
            p = d3.NLBVP([P.vars[i] for i in ov])
            for i in oe: p.add_equation(E[i])
            for k, opt in enumerate(ORDERS):
                ms = SOLVERS[:10][(k + sum(oe[:2]) + ov[0]) % 10]
                for i, v in enumerate(P.vars): v.preset_scales(1); v["g"] = 0.1
                s = p.build_solver(matsolver=ms, **opt)
                for it in range(3): s.newton_iteration()
                got = P.solution()
                if ref is None: ref = got
                rec.step(3); rec.state((case["name"], oe, ov, k))
                same(rec, P, got, ref, "nlbvp", f"equations {oe} variables {ov} {opt} {ms}", 1e-8)
    rec.trace(); rec.nontriv()
