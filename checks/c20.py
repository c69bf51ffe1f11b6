"""C20: subproblems partition the modes and move data losslessly.

For every space, variable kind, problem class and matrix coupling a solver is built; every coefficient gets its own
number, all subproblems are gathered, and the numbers found are compared with the valid modes. Data are scattered back into
fields holding other data. The same is done for every process of small meshes, and problems with missing, duplicated or
superfluous equations and variables must be reported in exactly the groups where the counts differ."""
import itertools, warnings
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of (space, variable set, problem class, matrix coupling, mesh, process) on the real code with every coefficient tagged by a distinct value; every single-equation and single-variable mutation of 30 well-posed systems against independent counts per group"
NOTE = "States are (configuration, coefficient). Which modes of a field are valid is decided in C02 and C03; here a mode that survives a round trip to the grid must be covered."
BOUND = {"quick": "18 spaces in real and complex form, variables of rank 0-2 on full, partial, edge and constant domains, all couplings the bases support, 4 problem classes, meshes of up to 4 processes; all drops, repetitions and additions of one equation or variable in 30 problems",
         "thorough": "26 spaces, larger sizes, meshes of up to 9 processes, pairs of mutations"}
ASSUMPTIONS = ["the communicator of the mesh cases answers topology questions only (see C03)"]
TIMEOUT = 850
SP = [("cheb", "float64"), ("jac", "complex128"), ("rf", "float64"), ("cf", "complex128"), ("rf_cheb", "float64"), ("cf_cheb", "complex128"), ("cheb_rf", "float64"), ("cheb_cheb", "float64"), ("rf_rf", "float64"), ("rf_none", "float64"), ("none_cheb", "float64"), ("rf_rf_cheb", "float64"), ("cf_cf_cheb", "complex128"), ("rf_none_cheb", "float64"), ("rf_rf_rf", "float64"),
      ("disk", "float64"), ("disk", "complex128"), ("annulus", "float64"), ("annulus", "complex128"), ("sphere", "float64"), ("sphere", "complex128"), ("ball", "float64"), ("ball", "complex128"), ("shell", "float64"), ("shell", "complex128"), ("cyl", "float64"), ("cyl", "complex128"), ("cylann", "float64")]
BIG = {"disk": (12, 5), "annulus": (8, 5), "sphere": (12, 6), "ball": (8, 6, 4), "shell": (8, 6, 3), "cyl": (4, 8, 5), "rf_cheb": (8, 5), "rf_rf_cheb": (6, 4, 3), "cf_cheb": (7, 4), "cf_cf_cheb": (5, 4, 3)}
SIZE = {"disk": (8, 4), "annulus": (8, 3), "sphere": (8, 6), "ball": (8, 6, 3), "shell": (8, 6, 3), "cyl": (4, 8, 4), "cylann": (4, 8, 3)}
MESHES = {2: [(2,), (3,), (4,)], 3: [(2,), (4,), (2, 2), (1, 3), (3, 1)]}
PAR = ["slab", "slab_c", "gauge", "gauge_c", "helm", "slab3", "slabnone", "helmv", "cond", "stokes", "disk", "diskv", "annulus", "annulusv", "sphere", "sphere_c", "spherev", "ball", "ballv", "shell", "shellv", "cyl", "cylann"]
MUT = ["cheb", "cheb_c", "sys1", "noderiv", "rf", "cf", "gauge", "gauge_c", "helm", "helmv", "slab", "slab_c", "slabflip", "slab3", "slabnone", "cond", "stokes", "stokes_c", "disk", "disk_c", "diskv", "annulus", "annulusv", "sphere", "sphere_c", "spherev", "ball", "ball_c", "ballv", "shell", "shellv", "cyl", "cylann"]

def cases(tier, seed):
    out = []
    for n, d in SP:
        for s in (0, 1) if tier == "thorough" and n in BIG else (0,):
            out.append(dict(t="fields", name=n, dtype=d, size=s))
    for n in PAR: out.append(dict(t="mesh", name=n))
    for n in MUT: out.append(dict(t="mutate", name=n))
    for n in MUT + ["ncc1", "channelncc", "diskncc", "shellncc", "cheb2"]: out.append(dict(t="classes", name=n))
    for d in ("float64", "complex128"):
        for n in range(4, 14, 2) if tier == "quick" else range(4, 26, 2): out.append(dict(t="sizes", name=d, size=n, most=14 if tier == "quick" else 26))
    out.sort(key=lambda c: (c["t"] != "fields", c.get("name") not in ("ball", "shell", "cyl", "rf_rf_rf", "rf_rf_cheb", "cf_cf_cheb")))
    return out

def run_case(case, rec):
    import logging
    logging.getLogger().setLevel(logging.ERROR)
    warnings.simplefilter("ignore")
    globals()["run_" + case["t"]](case, rec)

def number(fields, start=1):
    """Give every coefficient of every field its own value."""
    k = start
    for f in fields:
        f.preset_scales(1); f.preset_layout("c")
        n = f.data.size
        f.data[...] = np.arange(k, k + n).reshape(f.data.shape)
        if np.dtype(f.dtype).kind == "c": f.data[...] = f.data - 1j*f.data
        k += n

def audit(rec, fields, valids, needed, gather, scatter, sps, tag, kind):
    """gather/scatter of the subproblems against masks of valid (may appear) and needed (must appear) coefficients."""
    number(fields)
    orig = [f.data.copy() for f in fields]
    mine = [np.zeros(f.data.shape, int) for f in fields]
    owner = {}
    for f, o in zip(fields, orig):
        for i, x in np.ndenumerate(o): owner[x.real] = (f, i)
    index = {id(f): k for k, f in enumerate(fields)}
    vectors = []
    for sp in sps:
        g = gather(sp, fields)
        vectors.append(g.copy())
        for x in g.ravel():
            rec.step()
            if x.real not in owner: rec.violate(f"{kind}:mixed", f"{tag}: group {sp.group} gathers {x}, the value of no coefficient"); continue
            f, i = owner[x.real]
            if x != orig[index[id(f)]][i]: rec.violate(f"{kind}:mixed", f"{tag}: group {sp.group} gathers {x}")
            mine[index[id(f)]][i] += 1
    for k, f in enumerate(fields):
        rec.state((tag, kind, k, f.data.shape)); rec.evals += f.data.size
        bad = np.argwhere((mine[k] != 1) & needed[k])
        rec.check(not bad.size, f"{kind}:partition", f"{tag}: coefficient {bad[:1].tolist()} of {f} is in {mine[k][tuple(bad[0])] if bad.size else ''} subproblems")
        bad = np.argwhere((mine[k] > 1) | (mine[k] > 0) & ~valids[k])
        rec.check(not bad.size, f"{kind}:invalid", f"{tag}: coefficient {bad[:1].tolist()} of {f} is gathered {mine[k][tuple(bad[0])] if bad.size else ''} times (valid: {valids[k][tuple(bad[0])] if bad.size else ''})")
        if needed[k].any(): rec.nontriv()
    # scatter into fields holding other data
    for order in (1, -1):
        for f in fields: f.preset_scales(1); f.preset_layout("c"); f.data[...] = -5
        for sp, v in list(zip(sps, vectors))[::order]: scatter(sp, v.copy(), fields)
        for k, f in enumerate(fields):
            got = f.data
            sel = mine[k] > 0
            rec.check(np.array_equal(got[sel], orig[k][sel]), f"{kind}:restore", f"{tag}: {f} not restored")
            rest = got[~sel]
            rec.check(np.all((rest == 0) | (rest == -5)), f"{kind}:leak", f"{tag}: {f}: values {rest[(rest != 0) & (rest != -5)][:3]} written to modes of no subproblem")
            inside = np.zeros(got.shape, bool)
            for sp in sps:
                for ss in sp.subsystems: inside[ss.field_slices(f)] = True
            rec.check(np.all(got[inside & ~sel] == 0) and np.all(got[~inside] == -5), f"{kind}:invalid-zero", f"{tag}: {f}: invalid modes of a subproblem are not zero after scattering, or others are touched")
    # reallocated buffers (scale changes) are followed
    for f in fields:
        f.preset_scales(2 if all(f.dist.layouts[0].local) else 1); f.preset_scales(1); f.preset_layout("c"); f.data[...] = 3
    for sp, v in zip(sps, vectors): scatter(sp, v, fields)
    for k, f in enumerate(fields):
        rec.check(np.array_equal(f.data[mine[k] > 0], orig[k][mine[k] > 0]), f"{kind}:realloc", f"{tag}: {f} not restored after its buffer changed")

def conditions_mask(solver, eqn, proxy):
    m = np.zeros(proxy.data.shape, bool)
    for sp in solver.subproblems:
        if sp.check_condition(eqn):
            for ss in sp.subsystems: m[ss.field_slices(proxy)] = True
    return m

class Sh:
    pass

def full_audit(rec, solver, O, tag, names, outputs=True):
    """Audit variables and equations of a built solver."""
    from checks.c13 import preserved
    from dedalus.core.future import Future
    p = solver.problem
    solver.build_matrices(solver.subproblems, names)
    sps = solver.subproblems
    vs = p.LHS_variables
    mask = lambda f: preserved(O, f.domain, f.tensorsig)
    audit(rec, list(vs), [v.valid_modes for v in vs], [v.valid_modes & mask(v) for v in vs], lambda sp, f: sp.gather_inputs(f), lambda sp, d, f: sp.scatter_inputs(d, f), sps, tag, "var")
    total = 0
    for sp in sps:
        for A, B in ((sp.pre_left, sp.pre_left_pinv), (sp.pre_right_pinv, sp.pre_right)):
            rec.check(np.array_equal((A @ B).toarray(), np.eye(A.shape[0])), "pinv", f"{tag} group {sp.group}")
        rec.check(sp.pre_left.shape[0] == sp.pre_right.shape[1] == sp.shape[0], "square", f"{tag} group {sp.group}")
        for n in names: rec.check(getattr(sp, n + "_min").shape == (sp.shape[0], sp.shape[0]), "shape", f"{tag} group {sp.group} {n}")
    if outputs:
        F = list(solver.F)
        val, need = [], []
        for e, f in zip(p.equations, F):
            f.preset_layout("c")
            on = conditions_mask(solver, e, f)
            val.append(e["valid_modes"] & on); need.append(e["valid_modes"] & on & mask(f))
        audit(rec, F, val, need, lambda sp, f: sp.gather_outputs(f), lambda sp, d, f: sp.scatter_outputs(d, f), sps, tag, "eqn")
    # subsystem data without preconditioning
    number(vs)
    for sp in sps:
        for ss in sp.subsystems:
            x = ss.gather(vs).copy()
            want = np.concatenate([v.data[ss.field_slices(v)].ravel() for v in vs])
            rec.step()
            rec.check(np.array_equal(x, want), "subsystem", f"{tag} {ss.group}: gather")
            keep = [v.data.copy() for v in vs]
            for v in vs: v.data[ss.field_slices(v)] = 0
            ss.scatter(x, vs)
            rec.check(all(np.array_equal(a, v.data) for a, v in zip(keep, vs)), "subsystem", f"{tag} {ss.group}: scatter")

def couplings(dim):
    return [None] + [list(c) for c in itertools.product((False, True), repeat=dim) if any(c)]

def run_fields(case, rec):
    import dedalus.public as d3
    from mc.opspace import OpSpace
    from mc import spaces
    shape = BIG[case["name"]] if case["size"] else SIZE.get(case["name"])
    O = OpSpace(case["name"], case["dtype"], shape, 1.5)
    groups = [[n] for n in O.vars] + [list(O.vars)]
    if O.cart and len(O.S.bases) > 1: groups.append([n for n in O.vars if n not in ("k", "w")])
    for names in groups:
        vs = [O.vars[n] for n in names]
        if all(len(v.domain.bases) == 0 for v in vs): continue
        for mc in couplings(O.dist.dim):
            # the radius of curvilinear bases is always coupled
            if mc and not O.cart and not mc[-1]: continue
            tag = f"{case['name']} {case['dtype']} {shape} variables {names} coupling {mc}"
            p = d3.LBVP(vs)
            for v in vs: p.add_equation((2*v, 0))
            try:
                s = p.build_solver(matrix_coupling=mc)
                s.build_matrices(s.subproblems, ["L"])
            except Exception as e:
                rec.state((tag, "refused"))
                # Cartesian problems may couple any axis; curvilinear ones need their azimuth (and polar angle in balls) separable
                # (variables whose sets of groups are not nested are refused together)
                if "Incompatible group distributions" in str(e) and len(vs) > 1: continue
                if mc is None or O.cart: rec.violate(f"raised:{case['name']}", f"{tag}: {type(e).__name__}: {e}")
                continue
            full_audit(rec, s, O, tag, ["L"])
            group_names(rec, s, tag)
            # solving leaves invalid modes at zero and inverts the identity exactly
            for k, v in enumerate(vs): v.preset_scales(1); v.preset_layout("c"); v.data[...] = 1
            for f in s.F: f.preset_scales(1)
            s.solve()
            for v in vs:
                inside = np.zeros(v["c"].shape, bool)
                for sp in s.subproblems:
                    for ss in sp.subsystems: inside[ss.field_slices(v)] = True
                rec.check(np.all(v["c"][inside] == 0), "solve-zero", f"{tag}: {v} is not zero in {np.argwhere((v['c'] != 0) & inside)[:2].tolist()}")
    rec.trace()
    rec.sample(dict(space=case["name"], shape=shape, variables=list(O.vars)))

def group_names(rec, s, tag):
    """Conditions refer to the index of each separable axis by the name of its coordinate."""
    dim = s.dist.dim
    coords = [c.name for c in s.dist.coords]
    for sp in s.subproblems:
        want = {"n" + coords[a]: g for a, g in enumerate(sp.group) if g is not None}
        got = {k: v for k, v in sp.group_dict.items() if k != "__builtins__"}
        rec.check(got == want, "names", f"{tag}: {got} instead of {want}")
        for ss in sp.subsystems:
            ok = all((g is None) == (h is None) and (g == h or not s.matrix_dependence[a]) for a, (g, h) in enumerate(zip(sp.group, ss.group)))
            rec.check(ok, "matrix-group", f"{tag}: subsystem {ss.group} in group {sp.group}")

def groups_of(layout, f, coupling):
    """Group tuple (None on coupled axes) of every coefficient of a field, from the layout's group arrays."""
    G = layout.local_group_arrays(f.domain, (1,)*f.dist.dim)
    cols = []
    shape = f["c"].shape[len(f.tensorsig):]
    for ax, g in enumerate(G):
        g = np.ma.filled(np.ma.asarray(g).astype(object), "masked")
        g = np.broadcast_to(g, shape).ravel()
        cols.append([None]*g.size if coupling[ax] else list(g))
    return [tuple(c) for c in zip(*cols)]

def count(solver, eqs, vs):
    """Independent number of valid equations and unknowns in every subproblem."""
    from dedalus.core.field import Field
    lay = solver.dist.coeff_layout
    out = {}
    gof = {}
    for sp in solver.subproblems:
        for ss in sp.subsystems: gof[tuple(None if g is None else int(g) for g in ss.group)] = sp
    res = {id(sp): [0, 0, sp, set()] for sp in solver.subproblems}
    for which, items in ((0, eqs), (1, vs)):
        for it in items:
            if which == 0:
                f = solver.dist.Field(bases=it["domain"].bases, tensorsig=it["tensorsig"], dtype=it["dtype"]); valid = it["valid_modes"]
            else: f, valid = it, it.valid_modes
            valid = np.asarray(valid).reshape((-1,) + valid.shape[len(f.tensorsig):])
            n = valid.sum(axis=0).ravel()
            for g, k in zip(groups_of(lay, f, solver.matrix_coupling), n):
                if "masked" in g: continue
                g = tuple(None if x is None else int(x) for x in g)
                sp = gof[g]
                if which == 0 and not eval(it["condition"], {"n" + c.name: x for c, x in zip(solver.dist.coords, sp.group) if x is not None}): continue
                r = res[id(sp)]
                if g == tuple(None if x is None else int(x) for x in sp.subsystems[0].group): r[which] += int(k)
    return [(sp.group, r[0], r[1]) for sp, r in ((r[2], r) for r in res.values())]

def attempt(rec, p, tag, expect_any=None):
    """Build matrices; exactly the groups whose counts differ must be reported."""
    s = p.build_solver()
    counts = count(s, p.equations, p.LHS_variables)
    bad = {tuple(None if x is None else int(x) for x in g): (a, b) for g, a, b in counts if a != b}
    rec.state(tag); rec.step()
    for sp in s.subproblems:
        g = tuple(None if x is None else int(x) for x in sp.group)
        try:
            s.build_matrices([sp], ["L"]); err = None
        except ValueError as e:
            if "on-square" not in str(e): raise
            err = e
        if g in bad:
            rec.check(err is not None, "unreported", f"{tag}: group {g} has {bad[g][0]} equations for {bad[g][1]} unknowns and is accepted")
            if err is not None: rec.check(f"I={bad[g][0]}, J={bad[g][1]}" in str(err), "report", f"{tag}: group {g}: '{err}' instead of I={bad[g][0]}, J={bad[g][1]}")
        else: rec.check(err is None, "wrongly-reported", f"{tag}: group {g}: {err}")
    if bad:
        rec.nontriv()
        try: p.build_solver().solve(); rec.violate("solved-nonsquare", f"{tag}: solved although {bad}")
        except ValueError: pass
    if expect_any is not None: rec.check(bool(bad) == expect_any, "counts", f"{tag}: counts {counts}")
    return bad

def run_mutate(case, rec):
    from mc import problems
    import dedalus.public as d3
    P = problems.Problem(case["name"])
    attempt(rec, P.lbvp(), f"{case['name']} as stated", False)
    n = len(P.eqs)
    idx = list(range(n))
    muts = [([i for i in idx if i != k], f"without equation {k}") for k in idx if n > 1] + [(idx + [k], f"equation {k} twice") for k in idx]
    muts += [([i for i in idx if i != k] + [j], f"equation {j} instead of {k}") for k in idx for j in idx if j != k]
    if rec.tier == "thorough": muts += [([i for i in idx if i not in (k, l)] + [m], f"equation {m} instead of {k}, {l}") for k in idx for l in idx if k < l for m in idx]
    for ids, label in muts:
        if len(set(ids)) == 0: continue
        try: q = P.lbvp(ids)
        except Exception as e: raise
        attempt(rec, q, f"{case['name']} {label}")
    # one more unknown, of every kind already present
    for k, v in enumerate(P.vars):
        w = P.dist.Field(name="extra", bases=v.domain.bases or None, tensorsig=v.tensorsig, dtype=P.dtype)
        q = d3.LBVP(P.vars + [w], namespace=P.ns)
        for t, c in P.eqs: q.add_equation(t, condition=c)
        attempt(rec, q, f"{case['name']} with another unknown like {v.name}", True)
    # conditions: any single equation limited to one or all but one group of each separable axis
    s = P.lbvp().build_solver()
    axes = [a for a in range(P.dist.dim) if not s.matrix_coupling[a] and s.matrix_dependence[a]]
    for a in axes:
        c = P.dist.coords[a].name
        for k in idx:
            for cond in (f"n{c} != 0", f"n{c} == 0", f"n{c} == 1", f"n{c} >= 1"):
                q = d3.LBVP(P.vars, namespace=P.ns)
                for i, (t, c0) in enumerate(P.eqs): q.add_equation(t, condition=f"({c0}) and ({cond})" if i == k else c0)
                attempt(rec, q, f"{case['name']} equation {k} only for {cond}")
    rec.trace()

def run_classes(case, rec):
    """All problem classes of a stated system, and invalid modes after solving it."""
    from mc import problems
    import dedalus.public as d3
    P = problems.Problem(case["name"])
    O = Sh(); O.dist, O.dtype = P.dist, P.dtype
    p = P.lbvp(); s = p.build_solver(); full_audit(rec, s, O, f"{case['name']} LBVP", ["L"])
    if any(P.mass):
        p = P.ivp(); s = p.build_solver("RK222"); full_audit(rec, s, O, f"{case['name']} IVP", ["M", "L"])
        P.fill(1)
        from mc import spaces
        for i, v in enumerate(P.vars): v.preset_scales(1); v.preset_layout("c"); v.data[...] = spaces.random_coeffs(v, i) * v.valid_modes
        for scheme in ("RK222", "SBDF2"):
            s = p.build_solver(scheme)
            for k in range(3):
                s.step(0.05); rec.step()
                for v in P.vars: rec.check(not np.any(v["c"][~v.valid_modes]), "step-invalid", f"{case['name']} {scheme}: {v.name} has non-zero invalid modes after step {k + 1}")
    q = d3.NLBVP(P.vars)
    for (L, R, c) in P.pairs(): q.add_equation((L, R), condition=c)
    s = q.build_solver(); full_audit(rec, s, O, f"{case['name']} NLBVP", ["dF"])
    P.fill(0)
    s = P.lbvp().build_solver()
    for v in P.vars: v.preset_scales(1); v.preset_layout("c"); v.data[...] = 0
    s.solve()
    for v in P.vars: rec.check(not np.any(v["c"][~v.valid_modes]), "solve-invalid", f"{case['name']}: {v.name} has non-zero invalid modes after solving")
    rec.trace()

def run_sizes(case, rec):
    """Variables of different transverse sizes on several processes: refused, or every group on one process."""
    import dedalus.public as d3
    from mc import fakempi
    dtype = np.dtype(case["name"]).type
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    for other in range(4, case["most"], 2):
        for size in (2, 3, 4):
            seen, refused = {}, False
            for r in range(size):
                c = d3.CartesianCoordinates("x", "y")
                dist = d3.Distributor(c, dtype=dtype, comm=fakempi.FakeComm(size, r, {}), mesh=(size,))
                z = d3.ChebyshevT(c["y"], 3, (0, 1))
                u, v = (dist.Field(name=n, bases=(F(c["x"], k, (0, 1)), z)) for n, k in (("u", case["size"]), ("v", other)))
                p = d3.LBVP([u, v]); p.add_equation((u, 0)); p.add_equation((v, 0))
                rec.step(); rec.state((case["size"], other, size, r))
                try: s = p.build_solver()
                except ValueError: refused = True; break
                for ss in s.subsystems: seen.setdefault(ss.group, []).append(r)
            twice = {g: r for g, r in seen.items() if len(r) > 1}
            rec.check(refused or not twice, "divided", f"sizes {case['size']} and {other} on {size} processes are accepted, but groups {list(twice.items())[:2]} are divided between processes")
            if refused: rec.nontriv()
    rec.trace()

def same(A, B):
    D = abs(A - B)
    return A.shape == B.shape and (D.nnz == 0 or D.max() < 1e-12)

def run_mesh(case, rec):
    """Every process of a mesh owns its own groups and the same data as on one process."""
    from mc import problems, fakempi
    import dedalus.public as d3
    P0 = problems.Problem(case["name"], fill=False)
    s0 = P0.lbvp().build_solver()
    serial = {ss.group: sp.group for sp in s0.subproblems for ss in sp.subsystems}
    number(P0.vars)
    glob = [v.data.copy() for v in P0.vars]
    data0 = {ss.group: ss.gather(P0.vars).copy() for sp in s0.subproblems for ss in sp.subsystems}
    for mesh in MESHES.get(P0.dist.dim, []) + ([(5,), (9,)] if rec.tier == "thorough" and P0.dist.dim == 2 else []):
        size = int(np.prod(mesh))
        seen, refused, world = {}, [], {}
        for sweep, r in [(w, r) for w in (0, 1) for r in range(size)]:
            P = problems.Problem(case["name"], fill=False, comm=fakempi.FakeComm(size, r, world), mesh=mesh)
            try: s = P.lbvp().build_solver()
            except ValueError as e:
                if sweep: refused.append(str(e))
                continue
            s.build_matrices(s.subproblems, ["L"])
            if sweep == 0: continue
            tag = f"{case['name']} mesh {mesh} process {r}"
            for sp in s.subproblems:
                for ss in sp.subsystems:
                    rec.check(ss.group not in seen, "twice", f"{tag}: group {ss.group} also on process {seen.get(ss.group)}")
                    seen[ss.group] = r
                    rec.check(serial.get(ss.group) == sp.group, "mesh-group", f"{tag}: {ss.group} in {sp.group} instead of {serial.get(ss.group)}")
            lay = P.dist.coeff_layout
            for v, g in zip(P.vars, glob):
                sl = lay.slices(v.domain, (1,)*P.dist.dim)
                v.preset_scales(1); v.preset_layout("c"); v.data[...] = g[(slice(None),)*len(v.tensorsig) + tuple(sl)]
            for sp in s.subproblems:
                for ss in sp.subsystems:
                    rec.step(); rec.state((tag, ss.group))
                    if ss.group in data0: rec.check(np.array_equal(ss.gather(P.vars), data0[ss.group]), "mesh-data", f"{tag}: group {ss.group} gathers other data than on one process")
            for sp in s.subproblems:
                m0 = s0.subproblems_by_group[sp.group]
                if not hasattr(m0, "L_min"): s0.build_matrices([m0], ["L"])
                rec.check(same(sp.L_min, m0.L_min), "mesh-matrix", f"{tag}: matrix of group {sp.group} differs from the one on one process")
        if refused:
            rec.check(len(refused) == size, "mesh-refused", f"{case['name']} mesh {mesh}: refused on {len(refused)} of {size} processes: {refused[0]}")
            continue
        rec.nontriv()
        rec.check(set(seen) == set(serial), "missing", f"{case['name']} mesh {mesh}: groups {sorted(set(serial) ^ set(seen), key=str)[:4]} on no process")
    rec.trace()
