"""C12: cached and stored evaluations are never stale.

Every history up to a depth of field modifications, layout changes, evaluations (plain, attempted, with repeated and new
ids), handler evaluations and evaluations that raise half-way is executed on the real operator objects of a pool of
expressions sharing sub-expressions; every returned value must be that of the current data, and results returned by
expressions outside the evaluated tree must not change."""
import itertools
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of operation histories (modify / evaluate / attempt / evaluate with id / handlers / raise while evaluating) on expressions sharing sub-expressions, each returned value compared with a version-indexed reference"
NOTE = "States are (data versions of the leaves, history); transitions are operations. Only a re-evaluation at an explicit id used before the last modification may return older data; an operator object reuses its own output (STORE_OUTPUTS), so only results of expressions outside the evaluated tree must survive."
BOUND = {"quick": "all histories of depth 2 over 54 operations followed by evaluating everything, on 3 spaces; depth 3 on one space over 22 operations",
         "thorough": "depth 3 over all operations on 7 spaces; depth 4 over 19 operations on one"}
ASSUMPTIONS = ["single process", "functions raise at the call or after writing part of their output"]
TIMEOUT = 850
SPACES = [("rf_cheb", "float64"), ("cf", "complex128"), ("ball", "float64")]
MORE = [("rf", "float64"), ("disk", "float64"), ("rf_rf_cheb", "float64"), ("annulus", "float64")]
SHAPES = {"rf": (10,), "cf": (10,), "disk": (8, 6), "annulus": (8, 6), "ball": (8, 5, 4), "rf_rf_cheb": (8, 8, 4), "rf_cheb": (10, 6)}

def cases(tier, seed):
    out = []
    for n, d in SPACES + (MORE if tier == "thorough" else []):
        parts = 5 if tier == "quick" else 24
        for p in range(parts): out.append(dict(name=n, dtype=d, depth=2 if tier == "quick" else 3, part=p, parts=parts, small=0))
    parts = 14 if tier == "quick" else 24
    for p in range(parts): out.append(dict(name="rf", dtype="float64", depth=3 if tier == "quick" else 4, part=p, parts=parts, small=1 if tier == "quick" else 2))
    return out

class Boom(Exception):
    pass

class Pool:
    """Expressions sharing parts over the leaves of an Env; `fail` makes their functions raise."""
    def __init__(self, E):
        import dedalus.public as d3
        self.E, self.fail = E, None
        f, g = E.leaves["f"], E.leaves["g"]
        pool = self
        def late(x, out):
            np.add(2*x, 1, out=out)
            if pool.fail == "late": raise Boom()
            return out
        def early(x):
            if pool.fail == "early": raise Boom()
            return x.data * 2 + 1 if hasattr(x, "data") and hasattr(x, "layout") else x * 2 + 1
        X = f * g
        self.X = X
        self.L = X + d3.lap(f)
        Q = d3.GeneralFunction(E.dist, X.domain, (), E.dtype, "g", early, [X])
        P = d3.UnaryGridFunction(late, self.L)
        self.Q, self.P = Q, P
        self.R = d3.dot(d3.grad(f), d3.grad(g)) + P          # a raising node behind evaluated ones
        self.Z = d3.lap(Q + d3.lap(g)) + X*1.5                # shared part evaluated after the raising one
        self.D = d3.div(d3.grad(f)*2) + X
        self.Y = f * g                                        # an equal expression
        self.names = ["X", "L", "Q", "R", "Z", "D", "Y"]
        parts = dict(X="X", L="XL", Q="XQ", P="XLP", R="XLPR", Z="XQZ", D="XD", Y="Y")
        self.inside = {n: set(parts[n]) for n in self.names}   # expressions of the pool in a tree
        self.raises = {"Q": "early", "R": "late", "Z": "early"}

def reference(E2, memo, name, ver):
    """Coefficients of an expression at given leaf versions, from fresh objects."""
    k = (name, ver)
    if k not in memo:
        P = Pool(E2)
        for n, v in zip("fg", ver): load(E2, n, v)
        memo[k] = getattr(P, name).evaluate()["c"].copy()
    return memo[k]

def load(E, n, v, how="c"):
    f = E.leaves[n]
    data = E.coeffs[n] * (1 + 0.25*v)
    if how == "c":
        f["c"] = data
    else:
        # through the grid at whatever scales the field has
        f["c"] = data
        x = f["g"].copy()
        f["c"] = 0
        f["g"] = x

def alphabet(P, small):
    n, r = P.names, sorted(P.raises)
    A = [("mod", "f", "c"), ("mod", "g", "c")]
    if small: A.pop()
    if not small: A += [("mod", "f", "g"), ("lay", "f", -1, 1), ("lay", "f", 0, 2), ("lay", "g", -1, 1.5), ("both",)]
    A += [("eval", e, None) for e in n if small < 2 or e in "XRZ"]
    if not small: A += [("eval", e, 1) for e in n if e != "Y"] + [("eval", e, 2) for e in "XRZ"]
    else: A += [("eval", "R", 1), ("eval", "Z", 1), ("eval", "X", 1), ("eval", "R", 2)]
    A += [("try", e, None) for e in n if not small or e in "XZ"]
    if not small: A += [("try", e, 1) for e in "XLRZ"]
    A += [("fail", e, None) for e in r]
    if not small: A += [("fail", e, 1) for e in r]
    A += [("failtry", e, 1) for e in r]
    A += [("H", h) for h in (("R", "Z"), ("X", "D", "L")) + ((("Z", "X"), ("D", "Q"), ("L",)) if not small else ())]
    A += [("Hfail", h) for h in (("D", "R", "Z"),) + ((("X", "Q"), ("L", "Z")) if not small else ())]
    if not small: A += [("Hid", ("X", "Z"), 1), ("Hid", ("R",), 2)]
    return A

class Machine:
    def __init__(self, E, E2, memo, rec, tag):
        self.E, self.E2, self.memo, self.rec, self.tag = E, E2, memo, rec, tag

    def start(self):
        from dedalus.core.evaluator import Evaluator
        self.E.reset(names=["f", "g"])
        self.P = Pool(self.E)
        self.ver = (0, 0)
        self.ids = {}
        self.returned = []
        self.ev = Evaluator(self.E.dist, {})

    def coeffs(self, Y):
        Y = Y.copy()
        return Y["c"]

    def value(self, name, Y, hist, what, fresh=True):
        if fresh:
            want = reference(self.E2, self.memo, name, self.ver)
            self.rec.close(self.coeffs(Y), want, f"value:{self.tag}:{name}:{what}", f"{self.tag} {name} after {hist}:", rtol=1e-9, atol=1e-9)

    def keep(self, name, Y):
        self.returned.append((name, Y, Y.layout.index, Y.scales, Y.data.copy(), self.coeffs(Y).copy()))

    def evaluating(self, names):
        """Results of expressions inside the evaluated trees may be overwritten."""
        inside = set().union(*[self.P.inside[n] for n in names])
        self.returned = [x for x in self.returned if x[0] not in inside]

    def survived(self, hist):
        for name, Y, lay, scales, data, c in self.returned:
            if Y.layout.index == lay and Y.scales == scales and np.array_equal(Y.data, data):
                self.rec.evals += 1
                continue
            self.rec.close(self.coeffs(Y), c, f"earlier:{self.tag}:{name}", f"{self.tag}: result of {name} changed after {hist}:", rtol=1e-12, atol=1e-12)

    def fresh(self, id):
        if id is None: return True
        v = self.ids.setdefault(id, self.ver)
        if v != self.ver: self.ids[id] = None
        return v == self.ver

    def do(self, op, hist):
        P, k = self.P, op[0]
        self.rec.step()
        if k == "mod":
            i = "fg".index(op[1])
            self.ver = tuple(v + (j == i) for j, v in enumerate(self.ver))
            load(self.E, op[1], self.ver[i], op[2])
        elif k == "both":
            self.ver = tuple(v + 1 for v in self.ver)
            for n, v in zip("fg", self.ver): load(self.E, n, v)
        elif k == "lay":
            f = self.E.leaves[op[1]]
            f.change_scales(op[3])
            f.change_layout(self.E.dist.layouts[op[2]])
        elif k in ("eval", "try"):
            fresh = self.fresh(op[2])
            self.evaluating([op[1]])
            X = getattr(P, op[1])
            Y = X.evaluate(id=op[2]) if k == "eval" else X.attempt(id=op[2])
            if k == "eval" and Y is None:
                self.rec.violate(f"none:{self.tag}:{op[1]}", f"{self.tag}: {op[1]} evaluates to None after {hist}")
            if Y is not None:
                self.value(op[1], Y, hist, k, fresh)
                self.keep(op[1], Y)
        elif k in ("fail", "failtry"):
            self.fresh(op[2])
            self.evaluating([op[1]])
            X = getattr(P, op[1])
            P.fail = P.raises[op[1]]
            try:
                Y = X.evaluate(id=op[2]) if k == "fail" else X.attempt(id=op[2])
            except Boom:
                pass
            P.fail = None
        elif k in ("H", "Hid", "Hfail"):
            id = op[2] if k == "Hid" else None
            fresh = self.fresh(id)
            self.evaluating(op[1])
            h = self.ev.add_dictionary_handler(iter=1)
            for e in op[1]: h.add_task(getattr(P, e), name=e)
            raised = False
            if k == "Hfail":
                P.fail = next(P.raises[e] for e in op[1] if e in P.raises)
            try:
                if id is None:
                    # a different run of the same handlers may be at the same iteration and time
                    self.ev.handlers = [h]
                    self.ev.evaluate_scheduled(iteration=0, wall_time=1., sim_time=0., timestep=1.)
                else:
                    self.ev.evaluate_handlers([h], id=id, iteration=0, wall_time=1., sim_time=0., timestep=1.)
            except Boom:
                raised = True
            P.fail = None
            if not raised:
                for e in op[1]:
                    self.value(e, h[e], hist, k, fresh)
                    self.keep(e, h[e])
        self.survived(hist)

    def finish(self, hist, order):
        """Everything evaluates to the current data."""
        for n in order:
            self.evaluating([n])
            Y = getattr(self.P, n).evaluate()
            self.rec.step()
            self.value(n, Y, hist, "final")
            self.keep(n, Y)
        self.survived(hist)
        for n, v in zip("fg", self.ver):
            self.rec.close(self.E.leaves[n]["c"], self.E.coeffs[n] * (1 + 0.25*v), f"leaf:{self.tag}:{n}", f"{self.tag}: {n} changed after {hist}:", rtol=1e-9, atol=1e-10)

def run_case(case, rec):
    from mc.exprs import Env
    n = case["name"]
    E = Env(n, case["dtype"], SHAPES[n], seed=rec.seed)
    E2 = Env(n, case["dtype"], SHAPES[n], seed=rec.seed)
    memo = {}
    M = Machine(E, E2, memo, rec, f"{n}:{case['dtype']}")
    M.start()
    A = alphabet(M.P, case["small"])
    hs = itertools.islice(itertools.product(A, repeat=case["depth"]), case["part"], None, case["parts"])
    for k, h in enumerate(hs):
        # a history that ends with a change of data or layout only is covered by the final evaluations
        M.start()
        for i, op in enumerate(h):
            M.do(op, h[:i+1])
        order = M.P.names if k % 2 else M.P.names[::-1]
        M.finish(h, order if case["depth"] < 3 else order[:1] + order[3:5])
        rec.state(h)
        rec.trace()
    rec.sample(dict(space=M.tag, operations=len(A), depth=case["depth"]))
