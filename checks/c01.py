"""C01: a field is one function, whatever its layout and scale history.

Exhaustive exploration of field operation sequences on real fields. The reference model of a field is
(coefficients, scales, layout); the expected data in any layout come from a fresh field that takes the
shortest path from the model's coefficients."""
import itertools, warnings
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking of the implementation: all field operation sequences up to a depth against a reference model"
NOTE = "Every sequence of the 29-operation alphabet up to the stated depth runs on real fields of every basis family; the reference model is (coefficients, scales, layout). Data values are one pattern per write; transforms are trusted here and decided in C02."
BOUND = {"quick": "all operation sequences of length 2 (all spaces), length 3 (1-D and 2-D Cartesian spaces), 29-operation alphabet",
         "thorough": "all operation sequences of length 3 (all spaces), length 4 with state deduplication"}
ASSUMPTIONS = ["transforms themselves are exact (C02)", "data values: one pseudo-random pattern per write operation (VERIF_SEED)"]
TIMEOUT = 600

def space_list(tier):
    L = []
    for name in ["none", "rf", "cheb", "leg", "rf_cheb", "rf_none", "none_cheb", "rf_rf", "cheb_rf"]:
        L.append((name, "float64", 0, 3))
    for name in ["cf", "jac", "cf_cheb"]:
        L.append((name, "complex128", 0, 3))
    L.append(("rf_cheb", "float64", 1, 3))
    for name in ["rf_rf_cheb", "rf_none_cheb", "disk", "annulus", "sphere", "ball", "shell", "cyl"]:
        for rank in (0, 1):
            L.append((name, "float64", rank, 2))
    for name in ["disk", "annulus", "sphere", "ball", "shell"]:
        L.append((name, "complex128", 1, 2))
    for name in ["rf_cheb", "disk", "ball", "sphere"]:
        L.append((name, "float64", 2, 2))
    return L

def cases(tier, seed):
    out = []
    for name, dtype, rank, depth in space_list(tier):
        if tier == "thorough":
            depth = max(depth, 3)
        n = len(OPS)
        if depth == 2:
            out.append(dict(space=name, dtype=dtype, rank=rank, depth=2, first=list(range(n))))
        else:
            for k in range(0, n, 5):
                out.append(dict(space=name, dtype=dtype, rank=rank, depth=depth, first=list(range(k, min(n, k+5)))))
            if tier == "thorough":
                out.append(dict(space=name, dtype=dtype, rank=rank, depth=5, first=None))
    top = 24 if tier == "quick" else 60
    for kind in ("rf", "cheb", "leg"):
        for lo in range(1, top, 6):
            out.append(dict(space=kind, dtype="float64", rank=0, sizes=[lo, min(lo + 6, top + 1)]))
    return out

def load_sizes(case, rec):
    """Grid data of every size m <= 3n load into a basis of size n as the function they sample."""
    from mc import spaces
    import dedalus.public as d3
    for n in range(*case["sizes"]):
        S = spaces.make(case["space"], case["dtype"], shape=(n,), dealias=1.5)
        f = S.field()
        X = spaces.random_coeffs(f, 7 + rec.seed)
        f['c'] = X; f['g']; X = f['c'].copy()
        for m in range(n, 3*n + 1):
            # Independent samples on an m-point grid from an m-point basis holding the same modes
            src = spaces.make(case["space"], case["dtype"], shape=(m,), dealias=1).field()
            Cm = np.zeros(src['c'].shape)
            if X.size > Cm.size:
                continue
            Cm[:X.size] = X
            src['c'] = Cm
            D = src['g'].copy()
            g = S.field()
            rec.step()
            try:
                g.load_from_global_grid_data(D[None], pre_slices=(0,))
            except Exception as e:
                rec.violate("loadsize", f"loading {m} grid points into a size-{n} {case['space']} basis raises {type(e).__name__}: {e}", n=n, m=m)
                continue
            if not close(g['c'], X):
                rec.violate("loadsize", f"loading {m} grid points into a size-{n} {case['space']} basis gives other coefficients", n=n, m=m)
            rec.trace()
            # Filtering to a given grid shape keeps what that grid resolves
            k = m - n + 1
            if k <= n:
                g = S.field(); g['c'] = X
                rec.step()
                try:
                    g.low_pass_filter(shape=(k,))
                except Exception as e:
                    rec.violate("filtershape", f"low_pass_filter(shape={k}) on size {n} raises {type(e).__name__}: {e}", n=n, k=k)
                    continue
                h = S.field()
                h.preset_scales(min(1.0, (k - 0.5) / n) if n > 1 else 1)
                h['c'] = X
                h['g']
                if h.data.shape != (k,):
                    rec.violate("filtershape:reference", f"{h.data.shape} != {k}")
                if not close(g['c'], h['c']):
                    rec.violate("filtershape", f"low_pass_filter(shape={k}) on size {n} does not keep exactly the modes of a {k}-point grid", n=n, k=k)
                rec.trace()
            rec.state((n, m))

# Alphabet: (name, argument)
OPS = [("read", "c"), ("read", "g"), ("write", "c"), ("write", "g"), ("scale", 1), ("scale", 1.5), ("scale", 2.25), ("scale", 0.5), ("scale", "tuple"),
       ("readat", 1.5), ("readat", 0.5), ("writeat", 2.25), ("grid1", None), ("coeff1", None), ("togrid", None), ("tocoeff", None),
       ("inplace", "g"), ("inplace", "c"), ("copy", None), ("setglobal", None), ("loadgrid", None), ("loadcoeff", None),
       ("random", "g"), ("lowpass", 0.5), ("highpass", 0.5), ("gather", "g"), ("scalar", "g"), ("allgather", "c"), ("bystander", None)]

class Model:
    """Reference: expected data via fresh fields on the shortest path."""
    def __init__(self, S, rank, seed):
        self.S, self.rank = S, rank
        f = S.field(rank)
        self.A = self.proj(self.rand(f, 11 + seed))
        self.B = self.proj(self.rand(f, 23 + seed))
        self.cache = {}
        self.pcache = {}

    def rand(self, f, seed):
        from mc.spaces import random_coeffs
        return random_coeffs(f, seed)

    def fresh(self):
        return self.S.field(self.rank)

    def proj(self, X):
        f = self.fresh()
        f['c'] = X
        f['g']
        return f['c'].copy()

    def data(self, C, scales, index):
        key = (C.tobytes(), scales, index)
        if key not in self.cache:
            f = self.fresh()
            f.preset_scales(scales)
            f['c'] = C
            lay = f.dist.layouts[index]
            f.change_layout(lay)
            d = f.data.copy()
            f.change_layout('c')
            self.cache[key] = (d, f['c'].copy())
        return self.cache[key]

    def forward(self, D, scales, index):
        f = self.fresh()
        f.preset_scales(scales)
        f[f.dist.layouts[index]] = D
        return f['c'].copy()

def close(a, b, tol=1e-10):
    return a.shape == b.shape and (a.size == 0 or float(np.max(np.abs(a - b))) <= tol * (1 + float(np.max(np.abs(b)))))

def norm_scales(S, s):
    if s == "tuple":
        s = tuple([1.5, 0.5, 2][:S.dim])
    if not isinstance(s, tuple):
        s = (s,) * S.dim
    return s

class Run:
    def __init__(self, S, rank, M, rec, hist):
        self.S, self.M, self.rec, self.hist = S, M, rec, hist
        self.f = S.field(rank)
        self.by = S.field(rank)
        self.by['c'] = M.B
        self.C = np.zeros_like(M.A)
        self.scales = norm_scales(S, 1)
        # Start from a nonzero state
        self.f['c'] = M.A
        self.C = M.A.copy()

    def fail(self, what, msg=""):
        # The key names the shortest failing operation, the replay holds the whole history
        self.rec.violate(f"{what}", f"after {self.hist}: {msg}", history=[list(map(str, o)) for o in self.hist])
        return False

    def settle(self, opname):
        """After an operation: compare the field with the model in its current layout, update truncation."""
        f = self.f
        if tuple(float(s) for s in f.scales) != tuple(float(s) for s in self.scales):
            return self.fail(f"scales:{opname}", f"scales {f.scales} != {self.scales}")
        exp, C2 = self.M.data(self.C, self.scales, f.layout.index)
        if not close(f.data, exp):
            return self.fail(f"data:{opname}", f"layout {f.layout.index} scales {self.scales}: data differ by {np.max(np.abs(f.data-exp)) if f.data.shape==exp.shape else (f.data.shape, exp.shape)}")
        if all(s >= 1 for s in self.scales) and not close(C2, self.C):
            return self.fail(f"roundtrip:{opname}", f"round trip through layout {f.layout.index} at scales {self.scales} changes coefficients")
        self.C = C2
        lay = f.dist.layouts[f.layout.index]
        want = tuple(cs.dim for cs in f.tensorsig) + tuple(lay.local_shape(f.domain, f.scales))
        if f.data.shape != want:
            return self.fail(f"shape:{opname}", f"{f.data.shape} != {want}")
        b, _ = self.M.data(self.M.B, norm_scales(self.S, tuple(self.by.scales)), self.by.layout.index)
        if not close(self.by.data, b):
            return self.fail(f"bystander:{opname}", "another field changed")
        return True

    def expect(self, got, layout, what):
        index = self.f.dist.get_layout_object(layout).index
        exp, _ = self.M.data(self.C, self.scales, index)
        if not close(np.asarray(got), exp):
            return self.fail(what, f"returned data in {layout} at {self.scales} are wrong")
        if self.f.layout.index != index:
            return self.fail(what + ":layout", f"field not left in layout {layout}")
        return True

    def apply(self, op):
        name, arg = op
        f, M, S = self.f, self.M, self.S
        ok = True
        if name == "read":
            ok = self.expect(f[arg], arg, f"read:{arg}")
        elif name == "write":
            X = M.B if (self.C is not None and close(self.C, M.A)) else M.A
            if arg == "c":
                f["c"] = X
                self.C = X.copy()
            else:
                D, C2 = M.data(X, self.scales, len(f.dist.layouts) - 1)
                f["g"] = D
                self.C = C2
            src = X if arg == "c" else D
            if np.shares_memory(f.data, src):
                return self.fail("write:alias", "field data alias the assigned array")
        elif name == "scale":
            self.scales = norm_scales(S, arg)
            f.change_scales(arg if arg != "tuple" else self.scales)
        elif name == "readat":
            self.scales = norm_scales(S, arg)
            ok = self.expect(f["g", arg], "g", f"readat:{arg}")
        elif name == "writeat":
            self.scales = norm_scales(S, arg)
            D, C2 = M.data(M.B, self.scales, len(f.dist.layouts) - 1)
            f["g", arg] = D
            self.C = C2
        elif name == "grid1":
            f.require_grid_space(axis=S.dim - 1)
            ok = bool(f.layout.grid_space[S.dim - 1]) or self.fail("grid1", "axis not in grid space")
        elif name == "coeff1":
            f.require_coeff_space(axis=0)
            ok = (not f.layout.grid_space[0]) or self.fail("coeff1", "axis not in coefficient space")
        elif name == "togrid":
            if f.layout.index < len(f.dist.layouts) - 1:
                i = f.layout.index
                f.towards_grid_space()
                ok = f.layout.index == i + 1 or self.fail("togrid", "wrong layout")
        elif name == "tocoeff":
            if f.layout.index > 0:
                i = f.layout.index
                f.towards_coeff_space()
                ok = f.layout.index == i - 1 or self.fail("tocoeff", "wrong layout")
        elif name == "inplace":
            d = f[arg]
            _, C2 = M.data(self.C, self.scales, f.layout.index)
            d *= 2
            self.C = 2 * C2
        elif name == "copy":
            g = f.copy()
            old = (f.layout.index, f.data.copy())
            if g.tensorsig != f.tensorsig or g.domain is not f.domain or g.dtype != f.dtype:
                return self.fail("copy:meta", "copy differs in domain, tensorsig or dtype")
            g.data[...] += 1
            if f.layout.index != old[0] or not np.array_equal(f.data, old[1]):
                return self.fail("copy:alias", "modifying a copy changed the original")
            g.data[...] -= 1
            self.f = g
        elif name == "setglobal":
            D, C2 = M.data(M.B, self.scales, f.layout.index)
            f.set_global_data(D)
            self.C = C2
        elif name == "loadgrid":
            D, C2 = M.data(M.B, norm_scales(S, 2.25), len(f.dist.layouts) - 1)
            f.load_from_global_grid_data(np.stack([0*D, D]), pre_slices=(1,))
            self.C = C2
            self.scales = tuple(f.domain.dealias)
        elif name == "loadcoeff":
            f.load_from_global_coeff_data(np.stack([0*M.B, M.B]), pre_slices=(1,), func=lambda x: 3*x)
            self.C = 3 * M.B
        elif name == "random":
            f.fill_random(layout=arg, seed=5)
            g = M.fresh()
            g.preset_scales(self.scales)
            g.fill_random(layout=arg, seed=5)
            self.C = g['c'].copy()
        elif name == "lowpass":
            self.C = M.data(self.C, norm_scales(S, arg), len(f.dist.layouts) - 1)[1]
            f.low_pass_filter(scales=arg)
        elif name == "highpass":
            self.C = M.data(self.C, self.scales, f.layout.index)[1]
            self.C = self.C - M.data(self.C, norm_scales(S, arg), len(f.dist.layouts) - 1)[1]
            f.high_pass_filter(scales=arg)
        elif name in ("gather", "allgather"):
            d = f.gather_data(layout=arg) if name == "gather" else f.allgather_data(layout=arg)
            ok = self.expect(d, arg, name)
            if ok and np.shares_memory(d, f.data):
                ok = self.fail(name + ":alias", "gathered data alias the field")
        elif name == "scalar":
            f[arg] = 2.5
            D = np.full(f.data.shape, 2.5, dtype=f.dtype)
            self.C = M.forward(D, self.scales, f.layout.index)
        elif name == "bystander":
            self.by['g'] if self.by.layout.index == 0 else self.by.change_scales(1.5)
        else:
            raise ValueError(name)
        if not ok:
            return False
        # The filled-random data are only representable after projection: compare after a round trip
        if name in ("random", "scalar"):
            f = self.f
            f.change_layout('c')
            if not close(f.data, self.C):
                return self.fail(f"data:{name}", "coefficients differ from those of a fresh field filled alike")
        return self.settle(name)

def canon(run):
    return (run.f.layout.index, run.scales, np.round(run.C, 6).tobytes(), run.by.layout.index, tuple(run.by.scales))

def run_case(case, rec):
    from mc import spaces
    if "sizes" in case:
        return load_sizes(case, rec)
    S = spaces.make(case["space"], case["dtype"], dealias=1.5)
    rank = case["rank"]
    M = Model(S, rank, rec.seed)
    # Random and scalar writes in tensor grids are projected by the vector regularity conditions
    def play(seq):
        run = Run(S, rank, M, rec, [OPS[i] for i in seq])
        if not run.settle("init"):
            return None
        for n, i in enumerate(seq):
            rec.step()
            run.hist = [OPS[j] for j in seq[:n+1]]
            if not run.apply(OPS[i]):
                return None
            rec.state(canon(run))
        rec.trace()
        return run
    rec.sample([OPS[i] for i in (2, 5, 1)])
    if case["first"] is not None:
        for first in case["first"]:
            for rest in itertools.product(range(len(OPS)), repeat=case["depth"] - 1):
                play((first,) + rest)
                if rec.nviol > 20:
                    return
    else:
        # breadth-first with deduplication of (layout, scales, coefficients)
        seen, frontier = set(), [()]
        for d in range(case["depth"]):
            nxt = []
            for h in frontier:
                for i in range(len(OPS)):
                    run = play(h + (i,))
                    if run is None:
                        if rec.nviol > 20:
                            return
                        continue
                    k = canon(run)
                    if k not in seen:
                        seen.add(k)
                        nxt.append(h + (i,))
            frontier = nxt
            if len(seen) > 4000:
                rec.caps.append(f"{case['space']}: stopped after depth {d+1} with {len(seen)} states")
                break
