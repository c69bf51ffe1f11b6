"""C11: evaluating an expression gives its pointwise meaning, in any layout.

Every expression tree up to a size over the leaves and operators of a space is evaluated from every layout and scale of its
leaves: directly, through its data, through handlers in any order with shared sub-expressions. The result is compared with
numpy arithmetic on grid values of low-degree functions; all leaves must stay the same functions, and a later evaluation
must return an independent result."""
import itertools
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of typed expression trees up to a depth times all leaf layouts and scales, evaluated on the real operators (directly, repeatedly, and through handlers in every task order) against pointwise numpy arithmetic on resolved functions"
NOTE = "States are (tree, layout/scale of every leaf); transitions are evaluations. Linear operator nodes are referred to that operator alone on a fresh field (their exactness is C21); sums, products, powers and functions are referred to numpy. Trees rejected while being built are counted, and their number is pinned."
BOUND = {"quick": "one-operator trees over all leaves on 14 spaces and all combinations of leaf layouts and scales; all two-operator trees on 3 spaces; all ordered triples of 8 expressions with shared parts in handlers on 5 spaces",
         "thorough": "two-operator trees on all spaces and dtypes, three scales, triples in handlers on all spaces"}
ASSUMPTIONS = ["leaves are functions of degree one (their products stay resolved); values fixed by VERIF_SEED", "single process (C05 covers decompositions)"]
TIMEOUT = 800
SPACES = [("rf", "float64"), ("cf", "complex128"), ("cheb", "float64"), ("rf_cheb", "float64"), ("cf_cheb", "complex128"), ("rf_none", "float64"), ("rf_rf_cheb", "float64"),
          ("disk", "float64"), ("annulus", "float64"), ("sphere", "float64"), ("ball", "float64"), ("shell", "float64"), ("cyl", "float64"), ("cylann", "float64")]
MORE = [("leg", "float64"), ("jac", "complex128"), ("cheb_cheb", "float64"), ("none_cheb", "float64"), ("rf_none_cheb", "float64"), ("cf_cf_cheb", "complex128"),
        ("disk", "complex128"), ("annulus", "complex128"), ("sphere", "complex128"), ("ball", "complex128"), ("shell", "complex128"), ("cyl", "complex128"), ("cylann", "complex128")]
# accepted one-operator trees on the tree this check was written for: fewer would mean that expressions became unsupported
ACCEPTED = {"rf:float64:0": 133, "cf:complex128:0": 139, "cheb:float64:0": 133, "rf_cheb:float64:0": 120, "rf_cheb:float64:1": 119, "cf_cheb:complex128:0": 123,
            "cf_cheb:complex128:1": 124, "rf_none:float64:0": 137, "rf_rf_cheb:float64:0": 130, "rf_rf_cheb:float64:1": 129, "disk:float64:0": 83,
            "disk:float64:1": 83, "annulus:float64:0": 83, "annulus:float64:1": 83, "sphere:float64:0": 55, "sphere:float64:1": 57, "ball:float64:0":
            44, "ball:float64:1": 39, "ball:float64:2": 42, "ball:float64:3": 41, "shell:float64:0": 44, "shell:float64:1": 39, "shell:float64:2": 42,
            "shell:float64:3": 42, "cyl:float64:0": 42, "cyl:float64:1": 41, "cyl:float64:2": 42, "cyl:float64:3": 43, "cylann:float64:0": 42,
            "cylann:float64:1": 41, "cylann:float64:2": 42, "cylann:float64:3": 43, "leg:float64:0": 133, "jac:complex128:0": 139,
            "cheb_cheb:float64:0": 120, "cheb_cheb:float64:1": 119, "none_cheb:float64:0": 137, "rf_none_cheb:float64:0": 123,
            "rf_none_cheb:float64:1": 122, "cf_cf_cheb:complex128:0": 133, "cf_cf_cheb:complex128:1": 134, "disk:complex128:0": 87,
            "disk:complex128:1": 86, "annulus:complex128:0": 87, "annulus:complex128:1": 86, "sphere:complex128:0": 60, "sphere:complex128:1": 58,
            "ball:complex128:0": 48, "ball:complex128:1": 42, "ball:complex128:2": 42, "ball:complex128:3": 42, "shell:complex128:0": 48,
            "shell:complex128:1": 41, "shell:complex128:2": 43, "shell:complex128:3": 43, "cyl:complex128:0": 43, "cyl:complex128:1": 44,
            "cyl:complex128:2": 45, "cyl:complex128:3": 43, "cylann:complex128:0": 43, "cylann:complex128:1": 44, "cylann:complex128:2": 45,
            "cylann:complex128:3": 43}
UFUNCS = ["sin", "cos", "exp", "tanh", "arctan", "square"]

def cases(tier, seed):
    sp = SPACES + (MORE if tier == "thorough" else [])
    out = []
    for n, d in sp:
        parts = 4 if n in ("ball", "shell", "cyl", "cylann") else 2 if n in ("disk", "annulus", "sphere", "rf_rf_cheb", "cf_cf_cheb", "rf_cheb", "cf_cheb", "rf_none_cheb", "cheb_cheb") else 1
        for p in range(parts): out.append(dict(t="one", name=n, dtype=d, part=p, parts=parts))
    deep = [("rf_cheb", "float64", 8), ("disk", "float64", 4), ("cf", "complex128", 4)] if tier == "quick" else [(n, d, 16) for n, d in sp]
    for n, d, parts in deep:
        for p in range(parts): out.append(dict(t="two", name=n, dtype=d, part=p, parts=parts))
    hs = [("rf_cheb", "float64"), ("rf_rf_cheb", "float64"), ("annulus", "float64"), ("ball", "float64"), ("cf", "complex128")] if tier == "quick" else sp
    for n, d in hs: out.append(dict(t="handlers", name=n, dtype=d))
    for n, d in (sp if tier == "thorough" else [("rf_cheb", "float64"), ("shell", "float64")]): out.append(dict(t="ufunc", name=n, dtype=d))
    return out

def env(case, rec):
    from mc.exprs import Env
    return Env(case["name"], case["dtype"], seed=rec.seed)

def show(e):
    k = e[0]
    if k in ("leaf",): return e[1]
    if k == "num": return str(e[1])
    if k in ("op", "ufunc"): return f"{e[1]}({show(e[2])})"
    if k == "pow": return f"{show(e[1])}**{e[2]}"
    return f"{k}({','.join(show(x) for x in e[1:])})"

def family(E, e, default):
    """Violation key: trees of a recorded family share a key, all others have their own."""
    def locked(x): return isinstance(x, tuple) and (x[0] == "op" and x[1] in ("interpphi",) or any(locked(y) for y in x[1:]))
    if any(locked(x) for x in e[1:]) : return f"locked-operand:{E.name}"
    def axisym(x):
        if x[0] == "leaf": return x[1] == "h"
        if x[0] == "op": return x[1] == "ave_phi" or axisym(x[2])
        if x[0] in ("add", "sub", "mul", "dot"): return all(axisym(y) or y[0] == "num" or y == ("leaf", "k") for y in x[1:]) and any(axisym(y) for y in x[1:])
        return x[0] in ("neg", "pow") and axisym(x[1])
    def mixed(x):
        if not isinstance(x, tuple): return False
        if x[0] in ("add", "sub") and axisym(x[1]) != axisym(x[2]): return True
        return any(mixed(y) for y in x[1:])
    if E.name in ("disk", "annulus", "cyl", "cylann") and mixed(e): return f"axisymmetric-sum:{E.name}"
    return default

def values(f):
    if type(f).__name__ != "LockedField":
        f.change_scales(f.domain.dealias)
    return f["g"]

def compare(E, rec, tag, e, how, got, want):
    """Grid values of a result against the reference."""
    want = np.asarray(want)
    try:
        want = np.broadcast_to(want, np.broadcast_shapes(want.shape, got.shape))
    except ValueError:
        pass
    rec.evals += 1
    if want.shape != got.shape:
        return rec.violate(f"shape:{tag}:{show(e)}", f"{tag} {show(e)} {how}: data shape {got.shape}, expected {want.shape}")
    if not np.all(np.isfinite(got)):
        return rec.violate(f"nonfinite:{tag}:{show(e)}", f"{tag} {show(e)} {how}: non-finite result")
    err = np.abs(got - want).max() if got.size else 0
    if err > 1e-9 * (1 + np.abs(want).max(initial=0)):
        rec.violate(family(E, e, f"value:{tag}:{show(e)}"), f"{tag} {show(e)} {how}: off by {err:.2e}")

def leaf_states(E, full):
    """(layout index, scales) pairs a leaf can start from."""
    nl = len(E.dist.layouts)
    out = [(0, 1), (nl-1, 1), (nl-1, 1.5), (nl-1, 2), (0, 2)]
    for m in range(1, nl-1):
        out += [(m, 1)] if not full else [(m, 1), (m, 1.5), (m, 2)]
    return out

def put(E, states):
    for n, (lay, sc) in states.items():
        f = E.leaves[n]
        f.preset_scales(1)
        f.preset_layout("c")
        f["c"] = E.coeffs[n]
        if sc != 1: f.change_scales(sc)
        f.change_layout(E.dist.layouts[lay])

def trees(E, D, rec, tag):
    """Keeps the trees that can be built, with their reference values."""
    memo, out = {}, []
    for r, e in D:
        E.reset(names=E.names(e))
        try:
            X = E.build(e)
        except Exception:
            continue
        if not hasattr(X, "evaluate"):
            # simplified to a plain number while being built
            continue
        try:
            E.prepare(e, memo)
        except Exception as ex:
            rec.violate(family(E, e, f"evaluate:{tag}:{show(e)}"), f"{tag} {show(e)}: accepted, but {type(ex).__name__}: {str(ex)[:120]}")
            continue
        out.append((len(X.tensorsig), e))
    return out, memo

def run_case(case, rec):
    E = env(case, rec)
    globals()["do_" + case["t"]](case, rec, E)

def run_states(rec, E, e, want, tag, combos, twice):
    X = None
    for combo in combos:
        st = dict(zip(sorted(E.names(e)), combo))
        how = "from " + ",".join(f"{n}@{l}x{s}" for n, (l, s) in st.items())
        put(E, st)
        rec.state((how, e))
        try:
            # the operator object is reused over starting states: its own history must not matter
            X = X or E.build(e)
            if any(X is f for f in E.leaves.values()): continue      # operations that do nothing (interpolating a constant) are no operations
            Y = X.evaluate()
            rec.step()
        except Exception as ex:
            rec.evals += 1
            rec.violate(family(E, e, f"evaluate:{tag}:{show(e)}"), f"{tag} {show(e)} {how}: {type(ex).__name__}: {str(ex)[:120]}")
            X = None
            continue
        lay = Y.layout.index
        rec.evals += 1
        if any(Y is f or np.shares_memory(Y.data, f.data) for f in E.leaves.values()):
            rec.violate(f"aliases-leaf:{tag}:{show(e)}", f"{tag} {show(e)} {how}: the result shares memory with an input")
        first = values(Y).copy()
        compare(E, rec, tag, e, how, first, want)
        names = E.names(e)
        for n in names:
            f = E.leaves[n]
            rec.close(f["c"], E.coeffs[n], f"leaf:{tag}:{show(e)}", f"{tag} {show(e)} {how}: operand {n} changed:", rtol=1e-9, atol=1e-10)
        if twice:
            # evaluating an equal expression again (results of one operator object are stored in place by design)
            try:
                Z = E.build(e)["g"] if type(Y).__name__ == "LockedField" or lay == 0 else values(E.build(e).evaluate())
            except Exception as ex:
                rec.violate(family(E, e, f"evaluate:{tag}:{show(e)}"), f"{tag} {show(e)} {how}, again: {type(ex).__name__}: {str(ex)[:120]}")
                X = None
                continue
            rec.step()
            rec.evals += 1
            if np.shares_memory(Z, Y.data):
                rec.violate(f"aliases:{tag}:{show(e)}", f"{tag} {show(e)} {how}: evaluating an equal expression returns the memory of the first result")
            if Z.shape == first.shape: rec.close(Z, first, f"again:{tag}:{show(e)}", f"{tag} {show(e)} {how}: second evaluation", rtol=1e-9, atol=1e-10)
            rec.close(Y["g"], first, f"earlier:{tag}:{show(e)}", f"{tag} {show(e)} {how}: evaluating an equal expression changed the first result:", rtol=1e-9, atol=1e-10)
    rec.trace()

def do_one(case, rec, E):
    tag = f"{case['name']}:{case['dtype']}"
    D = E.depth1()[case["part"]::case["parts"]]
    T, memo = trees(E, D, rec, tag)
    pin = ACCEPTED.get(f"{tag}:{case['part']}")
    rec.evals += 1
    if pin is not None and len(T) < pin:
        rec.violate(f"accepted:{tag}", f"{tag}: only {len(T)} of the {pin} one-operator expressions accepted before")
    rec.sample(dict(space=tag, accepted=len(T), of=len(D)))
    full = rec.tier == "thorough"
    S = leaf_states(E, full)
    S2 = S if E.dist.dim < 3 or full else S[:3] + [s for s in S if 0 < s[0] < len(E.dist.layouts)-1][:1]
    for r, e in T:
        k = len(E.names(e))
        combos = [()] if k == 0 else [(s,) for s in S] if k == 1 else list(itertools.product(S2, S2))
        run_states(rec, E, e, memo[e][0], tag, combos, twice=True)

def do_two(case, rec, E):
    tag = f"{case['name']}:{case['dtype']}"
    D1 = E.depth1(nums=False)
    T, memo = trees(E, D1, rec, tag)
    ops = E.unary_ops()
    leaves = [(E.rank(n), ("leaf", n)) for n in E.leaves]
    D = []
    for r, e in T:
        D += [(r, ("neg", e)), (r, ("mul", ("num", 3), e))]
        D += [(None, ("op", op, e)) for op in ops.get(r, [])]
        for rl, l in leaves:
            D += E.binary(r, e, rl, l)
            D += E.binary(rl, l, r, e)
    D = D[case["part"]::case["parts"]]
    nl = len(E.dist.layouts)
    T2 = []
    for r, e in D:
        try:
            X = E.build(e)
        except Exception:
            continue
        if hasattr(X, "evaluate"):
            T2.append(e)
    rec.sample(dict(space=tag, trees=len(T2), of=len(D)))
    for e in T2:
        names = sorted(E.names(e))
        E.reset(names=names)
        try:
            E.prepare(e, memo)
        except Exception as ex:
            rec.evals += 1
            rec.violate(family(E, e, f"evaluate:{tag}:{show(e)}"), f"{tag} {show(e)}: accepted, but {type(ex).__name__}: {str(ex)[:120]}")
            continue
        combos = [tuple((0, 1) for n in names), tuple((nl-1, 1) for n in names), tuple((nl-1, 1.5) if i % 2 else (0, 1) for i, n in enumerate(names)), tuple((0, 2) if i % 2 else (nl-1, 2) for i, n in enumerate(names))]
        run_states(rec, E, e, memo[e][0], tag, combos, twice=False)

def do_ufunc(case, rec, E):
    """Functions applied to leaves and to one-operator trees."""
    tag = f"{case['name']}:{case['dtype']}"
    T, memo = trees(E, E.depth1(nums=False) + [(E.rank(n), ("leaf", n)) for n in E.leaves], rec, tag)
    S = leaf_states(E, False)
    for r, e in T:
        for fn in UFUNCS if len(e) == 2 else UFUNCS[:2]:
            t = ("ufunc", fn, e)
            try:
                E.build(t)
            except Exception:
                continue
            E.prepare(t, memo)
            k = len(E.names(t))
            run_states(rec, E, t, memo[t][0], tag, [(s,)*k for s in S[:4]], twice=True)
    for r, e in T:
        if r == 0 and len(e) == 2:
            for p in (2, 3):
                t = ("pow", e, p)
                E.prepare(t, memo)
                run_states(rec, E, t, memo[t][0], tag, [(s,)*len(E.names(t)) for s in S[:4]], twice=True)

def do_handlers(case, rec, E):
    """Handlers over expressions with shared parts: every ordered triple of a pool, every start layout, one or two handlers."""
    from dedalus.core.evaluator import Evaluator
    tag = f"{case['name']}:{case['dtype']}"
    f, g, u, v = (("leaf", n) for n in "fguv")
    gf = ("op", "grad", f)
    fg = ("mul", f, g)
    pool = [f, fg, gf, ("dot", u, gf), ("op", "lap", fg), ("add", fg, ("op", "lap", f)), ("mul", fg, fg), ("add", gf, ("mul", g, u)), ("dot", ("add", gf, u), gf), ("op", "div", ("mul", fg, u)), u]
    if case["name"] in ("disk", "annulus", "ball", "shell"): pool.append(("op", "interpr", fg))
    if case["name"] in ("cheb", "rf_cheb", "rf_rf_cheb"): pool.append(("op", f"interp{len(E.S.coords.coords)-1}", fg))
    memo = {}
    ok = []
    for e in pool:
        E.reset()
        E.prepare(e, memo)
        ok.append(e)
    pool = ok if rec.tier == "thorough" else ok[:8] + ok[-1:]
    nl = len(E.dist.layouts)
    starts = [(0, 1), (nl-1, 1), (nl-1, 2)] + [(m, 1) for m in range(1, nl-1)]
    cache = {}
    def shared(e):
        """One operator object per sub-expression, shared by everything that contains it."""
        if e in cache: return cache[e]
        parts = {id(x): shared(x) for x in e[1:] if isinstance(x, tuple)}
        old = E.build
        try:
            E.build = lambda x: parts[id(x)] if id(x) in parts else old(x)
            cache[e] = old(e) if e[0] == "leaf" else type(E).build(E, e)
        finally:
            E.build = old
        return cache[e]
    nodes = {e: shared(e) for e in pool}
    n = 0
    for triple in itertools.product(pool, repeat=3 if E.dist.dim < 3 or rec.tier == "thorough" else 2):
        st = starts[n % len(starts)]
        how_split = n % 3
        n += 1
        ev = Evaluator(E.dist, {})
        hs = [ev.add_dictionary_handler(iter=1, group="a")]
        if how_split: hs.append(ev.add_dictionary_handler(iter=1, group="a"))
        lays = []
        for i, e in enumerate(triple):
            h = hs[-1] if (how_split == 1 and i > 0) or (how_split == 2 and i > 1) else hs[0]
            lay = "gc"[(n + i) % 2]
            h.add_task(nodes[e], layout=lay, name=str(i), scales=1)
            lays.append((h, lay))
        put(E, {m: st for m in E.leaves})
        how = f"start {st}, handler split {how_split}"
        rec.state((how, triple))
        key = f"{tag}:" + "|".join(show(e) for e in triple)
        try:
            if n % 2: ev.evaluate_group("a", iteration=0, wall_time=0, sim_time=0, timestep=1)
            else: ev.evaluate_scheduled(iteration=0, wall_time=0, sim_time=0, timestep=1)
        except Exception as ex:
            rec.evals += 1
            rec.violate(f"handlers:{key}", f"{key} {how}: {type(ex).__name__}: {str(ex)[:120]}")
            cache.clear(); nodes = {e: shared(e) for e in pool}
            continue
        rec.step()
        outs = []
        for i, (e, (h, lay)) in enumerate(zip(triple, lays)):
            out = h.fields[str(i)]
            rec.evals += 1
            if any(out is x for x in E.leaves.values()) or any(np.shares_memory(out.data, x.data) for x in list(E.leaves.values()) + outs):
                rec.violate(f"handler-alias:{key}", f"{key} {how}: the output of task {i} shares memory with an input or another output")
            outs.append(out)
        for i, (e, (h, lay)) in enumerate(zip(triple, lays)):
            compare(E, rec, tag, e, f"as task {i} of {'|'.join(show(x) for x in triple)} {how}", values(outs[i]), memo[e][0])
        for m, x in E.leaves.items():
            rec.close(x["c"], E.coeffs[m], f"handler-leaf:{tag}", f"{key} {how}: operand {m} changed:", rtol=1e-9, atol=1e-10)
        rec.trace()
