"""C07: analysis handlers fire exactly on their schedule, with current values, without disturbing each other or the fields."""
import itertools, os
from fractions import Fraction as Fr
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all sequences of scheduler calls against an exact-arithmetic reference schedule, and all sequences of evaluator operations against directly evaluated values"
NOTE = "Every sequence of (timestep, wall-clock, iteration) increments up to the stated length, for every combination of cadences at once; every sequence of evaluator operations (scheduled, explicit, group evaluation, field changes, late handlers) up to the stated length with every task value compared."
BOUND = {"quick": "schedules: all sequences of length 5 over 6 (dt, dwall, diter) moves and length 7 over 3, for 4 start times, 144 cadence combinations; evaluator: all sequences of length 3 over 14 operations on 4 spaces",
         "thorough": "length 6 over 8 moves, length 10 over 3; evaluator sequences of length 4"}
ASSUMPTIONS = ["times are dyadic rationals that keep clear of ties between two equally near output points", "iterations and times do not decrease between scheduled calls"]
TIMEOUT = 800

MOVES8 = [(Fr(1, 4), 1, 1), (Fr(1, 4), 0, 1), (Fr(1, 2), 3, 1), (Fr(1), 1, 2), (Fr(3, 4), 0, 1), (Fr(1, 4), 7, 1), (Fr(5, 2), 2, 5), (Fr(1, 4), 1, 0)]
MOVES3 = [(Fr(1, 4), 1, 1), (Fr(1, 2), 2, 1), (Fr(1), 5, 1)]

def cases(tier, seed):
    out = []
    q = tier == "quick"
    mv, n = (MOVES8[:6], 5) if q else (MOVES8, 6)
    for st in range(4):
        for k in range(len(mv)):
            out.append(dict(t="sched", moves="8", nm=len(mv), n=n, start=st, first=k))
        for k in range(3):
            out.append(dict(t="sched", moves="3", nm=3, n=7 if q else 10, start=st, first=k))
    for sp in ("rf", "rf_cheb", "disk", "ball"):
        for k in range(len(OPS)):
            out.append(dict(t="eval", space=sp, first=k, n=3 if q else 4))
    out.append(dict(t="solver"))
    return out

STARTS = [(0, Fr(1, 16), 0), (7, Fr(27, 16) + 3, 11), (1, Fr(-35, 16), 0), (0, Fr(0), 0)]
CAD = [dict(iter=i, sim_dt=s, wall_dt=w, custom=c) for i in (None, 1, 2, 3) for s in (None, Fr(1, 2), Fr(1), Fr(5, 2)) for w in (None, 2, 4) for c in (None, "odd", "never")]

def run_case(case, rec):
    import logging
    logging.disable(logging.CRITICAL)
    globals()["t_" + case["t"]](case, rec)

class RefSched:
    """Due points, exactly."""
    def __init__(self, cad):
        self.c = cad
        self.fired = dict(iter=None, sim=None, wall=None)

    def call(self, it, t, w, dt):
        c, fire = self.c, False
        if c["wall_dt"]:
            p = w // c["wall_dt"]
            if self.fired["wall"] is None or p > self.fired["wall"]:
                fire, self.fired["wall"] = True, p
        if c["iter"]:
            p = it // c["iter"]
            if self.fired["iter"] is None or p > self.fired["iter"]:
                fire, self.fired["iter"] = True, p
        if c["sim_dt"]:
            s = c["sim_dt"]
            # The nearest output point
            lo = t // s
            p = lo if abs(t - lo*s) < abs(t - (lo+1)*s) else lo + 1
            if self.fired["sim"] is None or p > self.fired["sim"]:
                if abs(t - p*s) < abs(t + dt - p*s):
                    fire, self.fired["sim"] = True, p
        if c["custom"] == "odd" and it % 2 == 1:
            fire = True
        return fire

def t_sched(case, rec):
    from dedalus.core.evaluator import Handler
    from mc import spaces
    S = spaces.make("rf")
    moves = (MOVES8 if case["moves"] == "8" else MOVES3)[:case["nm"]]
    it0, t0, w0 = STARTS[case["start"]]
    custom = {None: None, "odd": lambda iteration, wall_time, sim_time, timestep: iteration % 2 == 1, "never": lambda **kw: False}
    if case["start"] == 3:
        moves = [(m[0] + Fr(1, 32) if False else m[0], m[1], m[2]) for m in moves]
    cads = [c for c in CAD if not (case["start"] == 3 and c["sim_dt"])]
    for seq in itertools.product(moves, repeat=case["n"] - 1):
        seq = (moves[case["first"]],) + seq
        H = [Handler(S.dist, {}, iter=c["iter"], sim_dt=float(c["sim_dt"]) if c["sim_dt"] else None, wall_dt=c["wall_dt"], custom_schedule=custom[c["custom"]]) for c in cads]
        R = [RefSched(c) for c in cads]
        it, t, w = it0, t0, w0
        for i, (dt, dw, di) in enumerate(seq):
            kw = dict(iteration=it, wall_time=float(w), sim_time=float(t), timestep=float(dt))
            for h, r in zip(H, R):
                got, want = bool(h.check_schedule(**kw)), r.call(it, t, w, dt)
                if got != want:
                    rec.violate("schedule", f"cadence {dict(r.c)}: call {i} at iteration {it} time {float(t)} wall {w} next dt {float(dt)} (moves {[tuple(map(float, m)) for m in seq[:i+1]]} from {it0},{float(t0)},{w0}): fired={got}, expected {want}")
            rec.evals += len(H); rec.step(len(H))
            t += dt; w += dw; it += di
        rec.state(seq)
        rec.trace()
        if rec.nviol > 50: return

OPS = ["sched_small", "sched_large", "explicit_all", "explicit_one", "explicit_rev", "group_A", "group_none", "modify_u", "modify_v", "layout", "late", "sched_wall", "twice_same", "explicit_pair"]

def t_eval(case, rec):
    for seq in itertools.product(OPS, repeat=case["n"] - 1):
        one_eval(case, rec, (OPS[case["first"]],) + seq)
        rec.trace()
        if rec.nviol > 4: return

_S = {}
def space(name):
    """Space, fields, shared expressions and their reference functions."""
    if name not in _S:
        from mc import spaces
        import dedalus.public as d3
        S = spaces.make(name, "float64", dealias=1.5)
        u, v = S.field(name="u"), S.field(name="v")
        # Independent fields evaluate the reference
        a, b = S.field(name="a"), S.field(name="b")
        make = {
            "u": lambda u, v: u,
            "uu": lambda u, v: u*u,
            "lin": lambda u, v: 2*u - v,
            "prod": lambda u, v: u*v + u,
            "const": lambda u, v: d3.Integrate(u) if name != "rf" else d3.Integrate(u, S.vec["x"]),
            "lap": lambda u, v: d3.Laplacian(v, S.vec) if name != "rf" else d3.Differentiate(d3.Differentiate(v, S.vec["x"]), S.vec["x"]),
        }
        shared = {k: f(u, v) for k, f in make.items() if k != "u"}
        ref = {k: f(a, b) for k, f in make.items()}
        _S[name] = (S, u, v, a, b, make, shared, ref, {})
    return _S[name]

def reference(sp, name, U, V, layout, scales):
    S, u, v, a, b, make, shared, ref, cache = space(sp)
    key = (name, U.tobytes(), V.tobytes(), layout, scales)
    if key not in cache:
        a.preset_scales(1); b.preset_scales(1)
        a["c"] = U; b["c"] = V
        e = ref[name]
        f = e.evaluate() if hasattr(e, "evaluate") else e.copy()
        f = f.copy()
        f.change_layout("c")
        f.change_scales(scales)
        cache[key] = f[layout].copy()
        a.preset_scales(1); b.preset_scales(1)
        a["c"] = U; b["c"] = V
    return cache[key]

def one_eval(case, rec, seq):
    from dedalus.core.evaluator import Evaluator
    from mc import spaces
    sp = case["space"]
    S, u, v, a, b, make, shared, ref, cache = space(sp)
    for e in shared.values():
        e.out = None
    if "X" not in cache:
        L = []
        for k in range(4):
            u["c"] = spaces.random_coeffs(u, 17 + k + rec.seed); u["g"]
            L.append(u["c"].copy())
        cache["X"] = L
    X = cache["X"]
    nu, nv = 0, 1
    u.preset_scales(1); v.preset_scales(1)
    u["c"], v["c"] = X[0], X[1]
    ev = Evaluator(S.dist, {})
    fired = []
    def add(hname, group=None, tasks=(), **kw):
        h = ev.add_dictionary_handler(group=group, **kw)
        h._mc = hname
        h._tasks = []
        for tname, expr, layout, scales in tasks:
            h.add_task(expr, layout=layout, scales=scales, name=tname)
            h._tasks.append((tname, layout, scales))
        orig = h.process
        h.process = lambda **k: (fired.append(hname), orig(**k))[1]
        return h
    H = [add("A", group="A", iter=2, tasks=[("u", u, "g", 1), ("uu", shared["uu"], "g", 1.5), ("lin", shared["lin"], "c", 1)]),
         add("B", group="A", sim_dt=1.0, tasks=[("uu", shared["uu"], "g", 1), ("uu2", make["uu"](u, v), "c", 2), ("const", shared["const"], "g", 1)]),
         add("C", wall_dt=4, iter=3, tasks=[("prod", shared["prod"], "g", 2), ("lap", shared["lap"], "g", 1), ("lin", shared["lin"], "g", 0.5)]),
         add("D", tasks=[("u", u, "c", 2), ("u2", u, "g", 1)])]
    cads = {"A": dict(iter=2, sim_dt=None, wall_dt=None, custom=None), "B": dict(iter=None, sim_dt=Fr(1), wall_dt=None, custom=None),
            "C": dict(iter=3, sim_dt=None, wall_dt=4, custom=None), "D": dict(iter=None, sim_dt=None, wall_dt=None, custom=None), "L": dict(iter=1, sim_dt=None, wall_dt=None, custom=None)}
    R = {k: RefSched(c) for k, c in cads.items()}
    it, t, w = 0, Fr(1, 16), 0
    kept = {}
    def sched(dt, dw):
        nonlocal it, t, w
        want = [h._mc for h in ev.handlers if R[h._mc].call(it, t, w, dt)]
        ev.evaluate_scheduled(iteration=it, wall_time=w, sim_time=float(t), timestep=float(dt))
        it += 1; t += dt; w += dw
        return want
    for op in seq:
        del fired[:]
        rec.step()
        want = []
        if op == "sched_small": want = sched(Fr(1, 4), 1)
        elif op == "sched_large": want = sched(Fr(1), 2)
        elif op == "sched_wall": want = sched(Fr(1, 4), 5)
        elif op == "explicit_all": ev.evaluate_handlers(ev.handlers); want = [h._mc for h in ev.handlers]
        elif op == "explicit_one": ev.evaluate_handlers([H[2]]); want = ["C"]
        elif op == "explicit_rev": ev.evaluate_handlers(H[::-1]); want = [h._mc for h in H[::-1]]
        elif op == "explicit_pair": ev.evaluate_handlers([H[3], H[1]]); want = ["D", "B"]
        elif op == "twice_same": ev.evaluate_handlers([H[0]]); ev.evaluate_handlers([H[0]]); want = ["A", "A"]
        elif op == "group_A": ev.evaluate_group("A"); want = ["A", "B"]
        elif op == "group_none": ev.evaluate_group("Z")
        elif op == "modify_u": nu = (nu + 1) % 4; u["c"] = X[nu]
        elif op == "modify_v": nv = (nv + 1) % 4; v.change_scales(2); v["c"] = X[nv]; v["g"]
        elif op == "layout": u.change_scales(1.5); u["g"]; v.change_scales(0.5 if sp.startswith("rf") else 1); v["c"]
        elif op == "late":
            if not any(h._mc == "L" for h in ev.handlers):
                H.append(add("L", iter=1, tasks=[("prod", shared["prod"], "c", 1), ("uu", shared["uu"], "g", 3)]))
        if op == "layout" and sp.startswith("rf"):
            pass
        rec.check(fired == want, "fired", f"{seq} at {op}: handlers {fired} ran, expected {want}")
        for h in H:
            if h._mc in want:
                rec.check(sorted(h.fields) == sorted(x[0] for x in h._tasks), "tasks", f"{seq} {op} {h._mc}: {sorted(h.fields)}")
                ids = set()
                for tname, layout, scales in h._tasks:
                    f = h[tname]
                    name = {"uu2": "uu", "u2": "u"}.get(tname, tname)
                    exp = reference(sp, name, X[nu], X[nv], layout, scales)
                    rec.check(f.layout is S.dist.get_layout_object(layout), "tasklayout", f"{seq} {op} {h._mc}.{tname}")
                    rec.close(f.data, exp, "taskvalue", f"{seq} at {op}: {h._mc}.{tname}:", rtol=1e-10, atol=1e-10)
                    rec.check(id(f.buffer) not in ids and f is not u and f is not v, "sharedoutput", f"{seq} {op}: {h._mc}.{tname} shares its data with another task or a field")
                    ids.add(id(f.buffer))
        allf = [f for h in H for n in want if n == h._mc for f in h.fields.values()]
        rec.check(len({id(f.buffer) for f in allf}) == len({(h._mc, k) for h in H if h._mc in want for k in h.fields}), "sharedoutput", f"{seq} {op}: handlers share output data")
    # The fields are undisturbed
    rec.close(u["c"], X[nu], "fields", f"{seq}: u", rtol=1e-11, atol=1e-11)
    rec.close(v["c"], X[nv], "fields", f"{seq}: v", rtol=1e-11, atol=1e-11)
    rec.state(seq)

def t_solver(case, rec):
    """Through a solver: handlers of every cadence fire at the steps the reference predicts, with the state of that step."""
    import dedalus.public as d3
    from checks.c18 import problem, Clock
    for scheme in ("SBDF2", "RK222", "SBDF4", "RK443"):
        for dts in itertools.product((Fr(1, 4), Fr(1, 2), Fr(1)), repeat=5):
            key = scheme
            clock = Clock()
            s, u = problem("float64", clock, scheme=scheme)
            s.sim_time = 1/16
            u["c"] = [1, 0, 1, 0]
            hs, R, log = [], [], []
            for c in ({"iter": 2}, {"sim_dt": 1.0}, {"wall_dt": 4}, {"iter": 3, "sim_dt": 2.5}, {"iter": 1}):
                h = s.evaluator.add_dictionary_handler(**c)
                h.add_task(u, name="u", layout="c")
                h.add_task(s.problem.time, name="t")
                orig = h.process
                h.process = (lambda orig, n: lambda **k: (log.append((n, k)), orig(**k))[1])(orig, len(hs))
                hs.append(h)
                R.append(RefSched(dict(iter=c.get("iter"), sim_dt=Fr(c["sim_dt"]) if "sim_dt" in c else None, wall_dt=c.get("wall_dt"), custom=None)))
            t = Fr(1, 16)
            w0 = clock.t
            for i, dt in enumerate(dts):
                before = u["c"].copy()
                w = int(clock.t - w0)
                want = [n for n, r in enumerate(R) if r.call(i, t, w, dt)]
                del log[:]
                s.step(float(dt)); rec.step()
                rec.check([n for n, k in log] == want, "solver:fired", f"{scheme} dts {dts} step {i}: {[n for n, k in log]} expected {want}")
                for n, k in log:
                    rec.check(k == dict(iteration=i, wall_time=float(w), sim_time=float(t), timestep=float(dt)), "solver:args", f"{scheme} {k}")
                    rec.close(hs[n]["u"]["c"], before, "solver:value", f"{scheme} dts {dts} step {i}: task is not the state at the start of the step")
                    rec.close(np.ravel(hs[n]["t"]["g"])[0], float(t), "solver:time", f"{scheme}")
                t += dt; clock.t += 1 + i
            rec.trace(); rec.state((scheme, dts))
