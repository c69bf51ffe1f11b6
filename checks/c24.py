"""C24: caches and dispatch return what an uncached call would.

Synthetic part: every history of calls (all call forms, including colliding, keyword, default, variadic and invalid ones) up
to a depth on cached functions, methods, attributes and classes, against the same code without the cache. Dispatch: every
small class hierarchy with every outcome of its conditions. Real part: every cached member that a workload over all basis
families touches is recomputed on each hit and again at the end, and must give the same."""
import itertools

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all call histories up to a depth against an uncached reference, all small dispatch hierarchies, recomputation of every cache hit of a workload"
NOTE = "The histories cover every pair (triple for bounded caches) of call forms over a value set chosen for key collisions; the audit of the library's own caches is exhaustive over the hits of a fixed workload on every basis family."
BOUND = {"quick": "histories of 2 calls (unbounded) and 3 calls (bounds 1..5) over all call forms of 10 signatures; 4 operations on method/attribute/class histories; hierarchies of at most 3 subclasses and depth 2",
         "thorough": "histories of 3 and 4 calls; 5 operations"}
ASSUMPTIONS = ["arguments that compare equal are the same effective argument"]
TIMEOUT = 800

VALS = [1, 2, (1, 2), (), "a"]

def make_functions():
    def f1(a): return ("f1", a)
    def f2(a, b): return ("f2", a, b)
    def f3(a, b=()): return ("f3", a, b)
    def f4(a=1, b=2, c=()): return ("f4", a, b, c)
    def f5(*a): return ("f5", a)
    def f6(a, *b): return ("f6", a, b)
    def f7(**k): return ("f7", tuple(sorted(k.items(), key=str)))
    def f8(a, **k): return ("f8", a, tuple(sorted(k.items(), key=str)))
    def f9(a, *, b=1): return ("f9", a, b)
    def f10(a, b=1, *c, **k): return ("f10", a, b, c, tuple(sorted(k.items(), key=str)))
    def fx(a, b=1):
        if a == 2: raise LookupError((a, b))
        return ("fx", a, b)
    return [f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, fx]

def call_forms(vals, names=("a", "b", "z")):
    out = []
    for npos in range(0, 4):
        for pos in itertools.product(vals, repeat=npos):
            if npos == 3 and len(set(map(repr, pos))) < 2 and pos[0] != 1: continue
            for nk in range(0, 3):
                if npos + nk > 3: continue
                for ks in itertools.permutations(names, nk):
                    for kv in itertools.product(vals[:3], repeat=nk):
                        out.append((pos, tuple(zip(ks, kv))))
    return out

def cases(tier, seed):
    out = []
    for i in range(11):
        for part in range(4): out.append(dict(t="fun", i=i, depth=2, part=part, max_size=None))
        for ms in (1, 2, 3, 5): out.append(dict(t="fun", i=i, depth=3 if tier == "quick" else 4, part=None, max_size=ms))
        if tier == "thorough": out.append(dict(t="fun", i=i, depth=3, part="small", max_size=None))
    for p in range(4): out.append(dict(t="method", depth=4 if tier == "quick" else 5, part=p))
    out.append(dict(t="attr", depth=4 if tier == "quick" else 6))
    out.append(dict(t="class", depth=4 if tier == "quick" else 5))
    out.append(dict(t="multi"))
    for name in ["rf", "cheb", "rf_cheb", "cf_cf_cheb", "rf_none_cheb", "disk", "annulus", "sphere", "ball", "shell", "cyl", "cylann"]:
        out.append(dict(t="audit", space=name, dtype="complex128" if "cf" in name else "float64"))
        out.append(dict(t="ops", space=name, dtype="complex128" if "cf" in name else "float64"))
    for name in ["disk", "sphere", "ball"]: out.append(dict(t="audit", space=name, dtype="complex128"))
    return out

def outcome(f, pos, kw):
    try: return ("ok", f(*pos, **dict(kw)))
    except Exception as e: return ("raise", type(e).__name__, str(e.args[0])[:60] if isinstance(e, LookupError) else "")

def same(a, b):
    return a == b and repr(a) == repr(b) or a == b

def run_case(case, rec):
    globals()["run_" + case["t"]](case, rec)
    rec.sample(str(case))

def run_fun(case, rec):
    from dedalus.tools.cache import CachedFunction
    f = make_functions()[case["i"]]
    ms = case["max_size"]
    if ms is None and case["part"] != "small":
        forms = call_forms(VALS)
        valid = [c for c in forms if outcome(f, *c)[0] == "ok"] + [c for c in forms if outcome(f, *c)[0] != "ok"][::7]
        if len(valid) > 260: valid = valid[:260:1] if False else valid[::-(-len(valid)//260)]
    else:
        forms = [c for c in call_forms([1, 2, ()], ("a", "b")) if len(c[0]) + len(c[1]) <= 2]
        valid = [c for c in forms if outcome(f, *c)[0] == "ok"] + [c for c in forms if outcome(f, *c)[0] != "ok"][:3]
        n = 16 if case["depth"] == 3 else 9
        if len(valid) > n: valid = valid[::-(-len(valid)//n)]
    ref = [outcome(f, *c) for c in valid]
    first = range(len(valid)) if not isinstance(case["part"], int) else range(case["part"], len(valid), 4)
    for i0 in first:
        for rest in itertools.product(range(len(valid)), repeat=case["depth"] - 1):
            g = CachedFunction(f) if ms is None else CachedFunction(max_size=ms)(f)
            rec.trace()
            for i in (i0,) + rest:
                rec.step()
                got = outcome(g, *valid[i])
                if not rec.check(got == ref[i], "function", f"{f.__name__} history {[valid[j] for j in (i0,)+rest]}: call {valid[i]} gave {got}, uncached {ref[i]}"): break
                if ms is not None: rec.check(len(g.cache) <= ms, "bound", f"{f.__name__} max_size={ms}: {len(g.cache)} entries")
    rec.state(tuple(map(repr, valid)))
    for v in valid: rec.state(repr(v))

def hier(deco_m, deco_a):
    """A class hierarchy with overriding and super calls; the same source with and without caching."""
    class A:
        def __init__(self, x): self.x = x
        @deco_m
        def m(self, a, b=1): return ("A.m", self.x, a, b)
        @deco_m
        def n(self, a): return ("A.n", self.x, self.m(a), a)
        @deco_a
        def p(self): return ("A.p", self.x, self.m(0))
    class B(A):
        @deco_m
        def m(self, a, b=1): return ("B.m",) + super().m(a, b)
        @deco_a
        def p(self): return ("B.p", super().p)
    class C(B):
        def n(self, a): return ("C.n",) + super().n(a)
    return [A, B, C]

def run_method(case, rec):
    from dedalus.tools.cache import CachedMethod, CachedAttribute
    cached = hier(CachedMethod, CachedAttribute)
    plain = hier(lambda f: f, property)
    ops = [(k, name, args, kw) for k in range(4) for (name, args, kw) in
           [("m", (0,), ()), ("m", (0, 2), ()), ("m", (0,), (("b", 2),)), ("m", (), (("b", 2), ("a", 0))), ("n", (0,), ()), ("p", None, None)]]
    insts = [(0, "x"), (0, "y"), (1, "x"), (2, "z")]
    def do(objs, op):
        k, name, args, kw = op
        o = objs[k]
        return getattr(o, name) if args is None else getattr(o, name)(*args, **dict(kw))
    for first in ops[case["part"]::4]:
        for rest in itertools.product(ops, repeat=case["depth"] - 2):
            hist = (first,) + rest
            co = [cached[c](x) for c, x in insts]; po = [plain[c](x) for c, x in insts]
            rec.trace()
            for op in hist:
                rec.step()
                a, b = do(co, op), do(po, op)
                rec.check(a == b, "method", f"history {hist}: {op} gave {a}, uncached {b}")
            # every instance answers for itself afterwards
            for k in range(4):
                a, b = do(co, (k, "m", (0,), ())), do(po, (k, "m", (0,), ()))
                rec.check(a == b, "method", f"history {hist}: instance {k} then gave {a}, uncached {b}")
    rec.state(len(ops))
    for o in ops: rec.state(o)

def run_attr(case, rec):
    from dedalus.tools.cache import CachedMethod, CachedAttribute
    class A:
        def __init__(self, x): self.x = x; self.n = 0
        @CachedAttribute
        def p(self):
            """doc"""
            self.n += 1
            if self.x == "fail" and self.n < 2: raise LookupError
            return ("p", self.x)
        @CachedMethod
        def m(self, a):
            self.n += 1
            if self.x == "fail" and self.n < 2: raise LookupError
            return ("m", self.x, a)
    ops = [(k, o) for k in range(3) for o in ("p", "m", "del", "m2")]
    for hist in itertools.product(ops, repeat=case["depth"]):
        objs = [A("x"), A("y"), A("fail")]
        seen = {}
        rec.trace()
        for k, o in hist:
            rec.step()
            ob = objs[k]
            try:
                if o == "p": got = ob.p; want = ("p", ob.x)
                elif o == "m": got = ob.m(1); want = ("m", ob.x, 1)
                elif o == "m2": got = ob.m(2); want = ("m", ob.x, 2)
                else:
                    ob.__dict__.pop("p", None); continue
            except LookupError:
                rec.check(ob.x == "fail" and ob.n == 1, "attr-error", f"{hist}"); continue
            rec.check(got == want, "attribute", f"{hist}: {k}.{o} gave {got}")
        rec.check(isinstance(A.p, CachedAttribute) and A.p.__doc__ == "doc" and A.p(A("q")) == ("p", "q"), "attr-class", "access through the class")
        rec.check(A.m(A("q"), 3) == ("m", "q", 3), "attr-class", "method through the class")
    rec.state(len(ops))

def run_class(case, rec):
    import gc
    from dedalus.tools.cache import CachedClass
    class K(metaclass=CachedClass):
        def __init__(self, a, b=1): self.a, self.b = a, b
    class L(K):
        def __init__(self, a, b=2): self.a, self.b = a, b
    class M(metaclass=CachedClass):
        @classmethod
        def _preprocess_args(cls, a, b=1): return (abs(a), b), {}
        def __init__(self, a, b=1):
            if b == "bad": raise LookupError
            self.a, self.b = a, b
    table = [(K, (1,), {}, (1, 1)), (K, (1, 1), {}, (1, 1)), (K, (), dict(a=1), (1, 1)), (K, (1, 2), {}, (1, 2)), (K, (1,), dict(b=2), (1, 2)), (K, (2,), {}, (2, 1)),
             (L, (1,), {}, (1, 2)), (L, (1, 1), {}, (1, 1)), (M, (-1,), {}, (1, 1)), (M, (1,), {}, (1, 1)), (M, (1, "bad"), {}, None)]
    ops = [("new", i) for i in range(len(table))] + [("drop", 0), ("gc", 0)]
    for hist in itertools.product(ops, repeat=case["depth"] - 1):
        held = []
        rec.trace()
        for o, i in hist:
            rec.step()
            if o == "drop":
                held.clear()
            elif o == "gc": pass
            else:
                cls, a, k, want = table[i]
                try: ob = cls(*a, **k)
                except LookupError:
                    rec.check(want is None, "class-error", f"{hist}"); continue
                rec.check(type(ob) is cls and (ob.a, ob.b) == want, "class", f"{hist}: {cls.__name__}{a}{k} gave {type(ob).__name__} {(ob.a, ob.b)}")
                for c2, w2, o2 in held:
                    rec.check((o2 is ob) == (c2 is cls and w2 == want), "class-identity", f"{hist}: {cls.__name__}{want} against held {c2.__name__}{w2}")
                held.append((cls, want, ob))
                del ob
    rec.state(len(ops))
    class N(metaclass=CachedClass):
        def __init__(self, a, *b): self.a, self.b = a, b
    objs = {args: N(*args) for args in itertools.chain.from_iterable(itertools.product(VALS, repeat=n) for n in (1, 2, 3))}
    for args, o in objs.items():
        rec.step()
        rec.check((o.a,) + o.b == args and N(*args) is o, "class-varargs", f"{args}")

def run_multi(case, rec):
    from dedalus.tools.dispatch import MultiClass
    from dedalus.tools.exceptions import SkipDispatchException
    # trees: a root with up to 3 children, the first of which may have up to 2 children
    for nc in range(0, 4):
        for ng in (range(0, 3) if nc else [0]):
            for truth in itertools.product([True, False, "skip"], repeat=nc + ng):
                for stop in itertools.product([False, True], repeat=nc):
                    rec.trace()
                    def check_of(t):
                        def _check_args(cls, *args, **kw):
                            if t == "skip": raise SkipDispatchException(output=("skipped", args))
                            return t
                        return classmethod(_check_args)
                    class Root(metaclass=MultiClass):
                        def __init__(self, *args, **kw): self.args = args
                        _check_args = check_of(True)
                    kids = []
                    for i in range(nc):
                        kids.append(MultiClass(f"K{i}", (Root,), dict(_check_args=check_of(truth[i]), **({"stop_dispatch": True} if stop[i] else {}))))
                    grand = [MultiClass(f"G{j}", (kids[0],), dict(_check_args=check_of(truth[nc + j]))) for j in range(ng)]
                    # reference
                    def ref(cls, children, t):
                        live = [c for c in children if not c[3]]
                        if not live: return cls if t is True else ("skip" if t == "skip" else TypeError)
                        passed = []
                        for c in live:
                            if c[1] == "skip": return "skip"
                            if c[1]: passed.append(c)
                        if len(passed) == 0: return NotImplementedError
                        if len(passed) > 1: return ValueError
                        c = passed[0]
                        return ref(c[0], c[2], c[1])
                    # stop_dispatch is inherited by the grandchildren of a stopped child, which is never entered anyway
                    tree = [(kids[i], truth[i], [(g, truth[nc + j], [], stop[0]) for j, g in enumerate(grand)] if i == 0 else [], stop[i]) for i in range(nc)]
                    want = ref(Root, tree, True)
                    rec.step()
                    try: got = Root(7)
                    except (NotImplementedError, ValueError, TypeError) as e: got = type(e)
                    if want == "skip": ok = got == ("skipped", (7,))
                    elif want in (NotImplementedError, ValueError, TypeError): ok = got is want
                    else: ok = type(got) is want and got.args == (7,)
                    rec.check(ok, "dispatch", f"{nc} children, {ng} grandchildren, conditions {truth}, stopped {stop}: got {got}, expected {want}")
                    rec.state((nc, ng, truth, stop))

# ------------------------------------------------------------------ the library's own caches
def equal(a, b, depth=0):
    import numpy as np
    from scipy import sparse
    if a is b: return True
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        return type(a) is type(b) and a.shape == b.shape and bool(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))) and bool(np.array_equal(np.ma.filled(a, 0), np.ma.filled(b, 0)))
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype: return False
        if a.dtype == object: return all(equal(x, y, depth+1) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if sparse.issparse(a):
        return sparse.issparse(b) and a.shape == b.shape and abs(a - b).nnz == 0 if a.nnz or (sparse.issparse(b) and b.nnz) else sparse.issparse(b) and a.shape == b.shape
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y, depth+1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return type(a) is type(b) and list(map(repr, a)) == list(map(repr, b)) and all(equal(x, y, depth+1) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (int, float, complex, str, bytes, bool, slice, type(None), np.generic)):
        try: return bool(a == b)
        except Exception: return False
    if type(a) is not type(b): return False
    if depth > 2 or not hasattr(a, "__dict__"): return True
    skip = ("cache", "_instance_cache")
    va, vb = vars(a), vars(b)
    for k in va:
        if k in skip or k not in vb: continue
        x, y = va[k], vb[k]
        if callable(x): continue
        if not equal(x, y, depth + 1): return False
    return True

def run_audit(case, rec):
    import numpy as np
    import dedalus.public as d3
    from dedalus.tools import cache as cm
    from mc import spaces
    from dedalus.core import domain as dom
    calls = []        # (function, args, kw, result)
    names = set()
    orig = cm.CachedFunction.__call__
    busy = [0]
    SKIP = ("_build_fftw_plan", "ghost_data", "_dealias_buffer", "_compressed_buffer")    # work buffers: contents are scratch
    def audited(self, *args, **kw):
        n0 = len(self.cache)
        r = orig(self, *args, **kw)
        if busy[0] or self.__name__ in SKIP: return r
        rec.step()
        hit = len(self.cache) == n0
        names.add(self.function.__qualname__)
        if hit and rec.steps < 4000:
            busy[0] = 1
            try: fresh = self.function(*args, **kw)
            finally: busy[0] = 0
            rec.check(equal(r, fresh), "stale-hit", f"{self.function.__qualname__}{args[1:] if args else ()}{kw}: cached result differs from a fresh call")
        elif not hit and len(calls) < 1500:
            calls.append((self, args, kw, r))
        return r
    cm.CachedFunction.__call__ = audited
    cm.CachedMethod.__call__ = audited
    try:
        name, dt = case["space"], case["dtype"]
        dim = len(spaces.CART[name]) if name in spaces.CART else (2 if name in ("disk", "annulus", "sphere") else 3)
        A = {1: [(4,), (6,)], 2: [(4, 4), (8, 6)], 3: [(4, 4, 4), (8, 4, 3)]}[dim]
        if name in ("sphere",): A = [(4, 4), (8, 6)]
        if name in ("cyl", "cylann"): A = [(4, 4, 4), (4, 8, 5)]
        variants = []
        for i, sh in enumerate(A):
            kw = {}
            if name in ("disk", "sphere", "ball"): kw = dict(radius=1.5 + i)
            if name in ("annulus", "shell"): kw = dict(radii=(0.5 + i, 2.5 + i))
            variants.append(spaces.make(name, dt, sh, dealias=1.5, **kw))
        if name in ("disk", "annulus", "ball", "shell"):
            variants.append(spaces.make(name, dt, A[0], dealias=1.5, k=1))
        for rnd in range(2):
            for S in variants:
                workload(rec, S, d3, spaces, rnd)
        # everything handed out earlier is still what a fresh call gives
        busy[0] = 1
        for fn, args, kw, r in calls:
            try: fresh = fn.function(*args, **kw)
            except Exception as e:
                rec.violate("recompute", f"{fn.function.__qualname__}: {type(e).__name__}: {e}"); continue
            rec.check(equal(r, fresh), "changed-result", f"{fn.function.__qualname__}{args[1:]}{kw}: a cached result was changed after it was returned")
    finally:
        cm.CachedFunction.__call__ = orig
        cm.CachedMethod.__call__ = orig
    # attributes
    for S in variants:
        for ob in [S.dist] + list(S.dist.layouts) + list(S.bases) + [d for c, d in dom.Domain._instance_cache.items() if d.dist is S.dist]:
            for cls in type(ob).__mro__:
                for k, v in vars(cls).items():
                    if isinstance(v, cm.CachedAttribute) and k in vars(ob) and k not in SKIP + ('dim',) and getattr(type(ob), k) is v:
                        rec.step(); names.add(k)
                        rec.check(equal(vars(ob)[k], v.method(ob)), "changed-attribute", f"{type(ob).__name__}.{k}")
    # bases: equal arguments give the same basis, different ones a different basis
    for S in variants:
        for b in S.bases:
            rec.check(b.clone_with() is b, "basis-identity", f"{type(b).__name__} built again with its own arguments is another basis")
            d = b.domain(S.dist)
            rec.check(dom.Domain(S.dist, S.bases) is dom.Domain(S.dist, S.bases[::-1]) and dom.Domain(S.dist, (b, None, b)) is d, "domain-identity", f"{type(b).__name__}")
            for k, v in dict(dealias=tuple(2 for x in np.ravel(b.dealias)) if np.ndim(b.dealias) else 2).items():
                b2 = b.clone_with(**{k: v})
                rec.check(b2 is not b and tuple(np.ravel(b2.dealias)) == tuple(np.ravel(v)), "basis-arguments", f"{type(b).__name__}")
    for n in names: rec.state(n)

def workload(rec, S, d3, spaces, rnd):
    import numpy as np
    f = S.field(0); f['c'] = spaces.random_coeffs(f, 1 + rnd)
    V = S.field(1); V['c'] = spaces.random_coeffs(V, 2 + rnd)
    rec.trace()
    exprs = [lambda: f + f*f, lambda: d3.grad(f), lambda: d3.div(V), lambda: d3.lap(f), lambda: d3.lap(V), lambda: d3.grad(V), lambda: d3.integ(f), lambda: d3.ave(f), lambda: V@V, lambda: d3.trace(d3.grad(V)),
             lambda: d3.trans(d3.grad(V)), lambda: d3.curl(V), lambda: f*V, lambda: d3.skew(V), lambda: d3.radial(V), lambda: d3.azimuthal(V), lambda: d3.angular(V)]
    for b in S.bases:
        cs = b.coordsys
        c = getattr(cs, "coords", (cs,))[-1]
        for pos in (0.6, 0.9): exprs.append(lambda c=c, pos=pos: d3.Interpolate(f, c, pos))
    for e in exprs:
        try: g = e()
        except Exception: continue
        if not hasattr(g, "evaluate"): continue
        try: o = g.evaluate()
        except Exception: continue
        for sc in (1, 1.5, 0.5):
            if type(o).__name__ == "LockedField": break
            o.change_scales(sc); o['g']; o['c']
    for sc in (1, 1.5):
        S.dist.local_grids(*S.bases, scales=sc)
    f.fill_random('c', seed=1); f.low_pass_filter(scales=0.5); f.allgather_data('g')
    # a boundary value problem without boundary conditions exercises the matrix caches
    u = S.field(0); w = S.field(1)
    try:
        prob = d3.LBVP([u, w]); prob.add_equation((u + d3.lap(u) - d3.div(w), f)); prob.add_equation((w + d3.lap(w) + d3.grad(u) + w*2, V))
        sol = prob.build_solver(); sol.solve()
    except Exception: pass
    try:
        g = S.field(0, bases=(S.bases[-1],)) if len(S.bases) > 1 else S.dist.Field(bases=S.bases)
        prob = d3.LBVP([u]); prob.add_equation((u - d3.lap(u), f)); sol = prob.build_solver(); sol.solve()
    except Exception: pass

def run_ops(case, rec):
    """Dispatch of the real operators is unambiguous: exactly one leaf class accepts, or the call reports why none does."""
    import dedalus.public as d3
    from dedalus.core import operators as op, basis as bs, arithmetic as ar
    from dedalus.tools.dispatch import MultiClass
    from dedalus.tools.exceptions import SkipDispatchException
    from mc import spaces
    S = spaces.make(case["space"], case["dtype"], None, dealias=1)
    ranks = (0, 1, 2)
    operands = []
    nb = len(S.bases)
    for r in ranks:
        for k in range(nb + 1):
            for sub in itertools.combinations(range(nb), k):
                operands.append((f"rank {r} bases {sub}", S.field(r, bases=tuple(S.bases[i] for i in sub) or None)))
    seps = [S.coords] + list(getattr(S.coords, "coords", ())) + [b.coordsys for b in S.bases]
    def leaves(cls):
        sc = [c for c in cls.__subclasses__() if not getattr(c, "stop_dispatch", False)]
        return [cls] if not sc else [l for c in sc for l in leaves(c)]
    tests = []
    for tag, f in operands:
        for cls in (op.Gradient, op.Laplacian):
            for cs in seps: tests.append((cls, (f, cs), tag))
            tests.append((cls, (f,), tag))
        for cls in (op.Divergence, op.Curl, op.Trace, op.Skew, op.TransposeComponents, op.RadialComponent, op.AngularComponent, op.AzimuthalComponent):
            tests.append((cls, (f,), tag))
        for c in seps:
            tests.append((op.Differentiate, (f, c), tag)); tests.append((op.HilbertTransform, (f, c), tag))
            tests.append((op.Interpolate, (f, c, 0.9), tag)); tests.append((op.Integrate, (f, c), tag)); tests.append((op.Average, (f, c), tag))
        for b in S.bases: tests.append((op.Convert, (f, b), tag)); tests.append((op.Lift, (f, b, -1), tag))
        for t2, g in operands:
            for cls in (ar.Add, ar.Multiply, ar.DotProduct, ar.CrossProduct): tests.append((cls, (f, g), tag + " with " + t2))
        for p in (0, 1, 2, 0.5): tests.append((op.Power, (f, p), tag))
    for cls, args, tag in tests:
        rec.step(); rec.trace()
        try: got = cls(*args)
        except NotImplementedError: got = None
        except ValueError as e:
            rec.check("Degenerate" not in str(e), "degenerate", f"{cls.__name__} {tag}: {e}")
            continue
        except Exception:
            continue
        rec.state((cls.__name__, type(got).__name__))
        if isinstance(got, cls) and isinstance(cls, MultiClass):
            rec.check(type(got) in leaves(cls), "leaf", f"{cls.__name__} {tag}: {type(got).__name__}")
