"""Typed expression trees over small fields of every basis family, with independent reference values.

An expression is a nested tuple. Leaves are low-degree functions that every product of up to four of them stays resolved
by the bases, so each expression denotes one function without truncation. The reference value of an arithmetic node is
numpy arithmetic on grid values; that of a linear operator node is one evaluation of that operator alone on a fresh field
holding the reference value of its operand (so the single operators, decided in C21, are trusted here and the evaluation
of trees is not)."""
import itertools
import numpy as np
import dedalus.public as d3
from dedalus.core import operators
from mc import spaces

SHAPES = {"rf": (10,), "cf": (10,), "cheb": (6,), "leg": (6,), "jac": (6,), "rf_cheb": (10, 6), "cf_cheb": (10, 5), "cheb_cheb": (5, 6), "cheb_rf": (5, 10), "rf_rf": (10, 10),
          "rf_none": (10, 1), "none_cheb": (1, 6), "rf_rf_cheb": (10, 10, 5), "cf_cf_cheb": (9, 9, 5), "rf_none_cheb": (10, 1, 5), "rf_rf_rf": (10, 10, 10),
          "disk": (12, 6), "annulus": (12, 8), "sphere": (12, 8), "ball": (12, 7, 6), "shell": (12, 7, 8), "cyl": (10, 12, 6), "cylann": (10, 12, 8)}

def outer(a, b, ra, rb):
    """Outer product over tensor axes, broadcasting over grid axes."""
    A = a.reshape(a.shape[:ra] + (1,)*rb + a.shape[ra:])
    B = b.reshape((1,)*ra + b.shape)
    return A * B

class Env:
    def __init__(self, name, dtype="float64", shape=None, dealias=1.5, seed=0, comm=None, mesh=None, degree=1):
        self.S = S = spaces.make(name, dtype, shape or SHAPES[name], dealias, comm=comm, mesh=mesh)
        self.name, self.dist, self.dtype = name, S.dist, S.dtype
        self.cart = name in spaces.CART
        self.complex = np.dtype(S.dtype).kind == "c"
        self.rng = np.random.default_rng(100 + seed)
        self.vec = S.vec
        self.vdim = S.vec.dim
        self.leaves = {}
        self.degree = degree
        self._build()
        self.coeffs = {}
        for n, f in self.leaves.items():
            self.coeffs[n] = f["c"].copy()
        self.grids = {}
        for n, f in self.leaves.items():
            f.change_scales(f.domain.dealias)
            self.grids[n] = f["g"].copy()
            f["c"]

    # --- data: global functions evaluated on local grids (the same on every decomposition)
    def _num(self):
        x = self.rng.uniform(0.3, 1.0) * self.rng.choice([-1, 1])
        if self.complex:
            x = x + 1j * self.rng.uniform(-0.5, 0.5)
        return x

    def _poly(self, bases, degree):
        """Random low-degree function of the coordinates of the given bases, on grids of scale 1."""
        dist = self.dist
        if not bases:
            return self._num()
        if self.cart:
            out = None
            for b in bases:
                x = dist.local_grid(b)
                if type(b).__name__ in ("RealFourier", "ComplexFourier"):
                    t = self._num() + sum(self._num()*np.sin(k*x) + self._num()*np.cos(k*x) for k in range(1, degree+1))
                else:
                    t = self._num() + sum(self._num()*x**k for k in range(1, degree+1))
                out = t if out is None else out * t
            return out
        grids = dist.local_grids(*bases)
        i = 0
        out = 0
        cart = []
        fourier = 1
        for b in bases:
            g = grids[i:i+b.dim]; i += b.dim
            n = type(b).__name__
            if b.dim == 1:
                fourier = self._num() + self._num()*np.sin(g[0]) + self._num()*np.cos(g[0])
            elif b.dim == 2 and n in ("DiskBasis", "AnnulusBasis"):
                cart = [g[1]*np.cos(g[0]), g[1]*np.sin(g[0])]
            elif b.dim == 2:
                cart = [np.sin(g[1])*np.cos(g[0]), np.sin(g[1])*np.sin(g[0]), np.cos(g[1]) + 0*g[0]]
            else:
                cart = [g[2]*np.sin(g[1])*np.cos(g[0]), g[2]*np.sin(g[1])*np.sin(g[0]), g[2]*np.cos(g[1])+0*g[0]]
        out = self._num()
        lin = [sum(self._num()*c for c in cart) for k in range(degree)]
        acc = 1
        for l in lin:
            acc = acc * l
            out = out + acc
        return out * fourier

    def _build(self):
        S, dist, L = self.S, self.dist, self.leaves
        def scalar(name, bases, degree=1):
            f = dist.Field(name=name, bases=bases or None, dtype=self.dtype)
            f["g"] = self._poly(bases, degree)
            L[name] = f
            return f
        scalar("f", S.bases); scalar("g", S.bases); scalar("k", ())
        if self.cart:
            if len(S.bases) > 1:
                scalar("h", S.bases[-1:])
                scalar("a", S.bases[:1])
            def vector(name, bases):
                u = dist.Field(name=name, bases=bases or None, tensorsig=(S.vec,), dtype=self.dtype)
                for i in range(self.vdim):
                    u["g"][i] = self._poly(bases, 1)
                L[name] = u
            vector("u", S.bases); vector("v", S.bases[-1:])
            T = dist.Field(name="T", bases=S.bases, tensorsig=(S.vec, S.vec), dtype=self.dtype)
            for i, j in np.ndindex(self.vdim, self.vdim):
                T["g"][i, j] = self._poly(S.bases, 1)
            L["T"] = T
        else:
            def gradvec(name, degree):
                p = dist.Field(bases=S.bases, dtype=self.dtype)
                p["g"] = self._poly(S.bases, degree)
                u = dist.Field(name=name, bases=S.bases, tensorsig=(S.vec,), dtype=self.dtype)
                G = d3.grad(p).evaluate()
                G.change_scales(1)
                u["g"] = G["g"]
                return u
            L["u"] = gradvec("u", 2)
            L["v"] = gradvec("v", 1)
            w = gradvec("", 3 if self.name not in ("sphere", "cyl", "cylann") else 2)
            T = dist.Field(name="T", bases=S.bases, tensorsig=(S.vec, S.vec), dtype=self.dtype)
            G = d3.grad(w).evaluate(); G.change_scales(1)
            T["g"] = G["g"]
            L["T"] = T
            b = S.bases[-1]
            if hasattr(b, "radial_basis") and self.name in ("disk", "annulus", "ball", "shell", "cyl", "cylann"):
                r = b.radial_basis
                h = dist.Field(name="h", bases=r, dtype=self.dtype)
                rg = dist.local_grids(b)[-1]
                h["g"] = self._num() + self._num()*rg**2
                L["h"] = h
            if self.name in ("ball", "shell"):
                a = dist.Field(name="a", bases=(b.surface if self.name == "ball" else b.outer_surface), dtype=self.dtype)
                bs = a.domain.bases[0]
                ph, th = dist.local_grids(bs)[:2] if bs.dim == 2 else dist.local_grids(b)[:2]
                a["g"] = self._num() + self._num()*np.cos(th) + self._num()*np.sin(th)*np.cos(ph)
                L["a"] = a

    def rank(self, name):
        return len(self.leaves[name].tensorsig)

    def reset(self, layout="c", scales=1, names=None):
        """Puts every leaf back to its data, in a layout and at scales."""
        for n in names or self.leaves:
            f = self.leaves[n]
            if f.scales != (1,) * self.dist.dim or f.layout.index != 0:
                f.preset_scales(1)
                f.preset_layout("c")
            f["c"] = self.coeffs[n]
            if scales != 1:
                f.change_scales(scales)
            if layout != "c" and layout != 0:
                f.change_layout(layout)

    def intact(self, rec, key, msg, names=None):
        """Every leaf still represents its function (leaves are left in coefficient space)."""
        for n in names or self.leaves:
            f = self.leaves[n]
            rec.close(f["c"], self.coeffs[n], key, f"{msg}: leaf {n} changed:", rtol=1e-9, atol=1e-10)

    # --- operators
    def unary_ops(self):
        """Names of the linear operators of this space by operand rank (0, 1, 2)."""
        S = self.S
        if self.cart:
            ops = {0: ["grad", "lap", "intall", "aveall"], 1: ["div", "lap", "grad"], 2: ["trace", "trans", "div"]}
            for i, c in enumerate(S.coords.coords):
                if any(c in b.coordsys.coords for b in S.bases):
                    for r in (0, 1):
                        ops[r] += [f"d{i}", f"int{i}", f"ave{i}", f"interp{i}"]
                    ops[2] += [f"d{i}", f"interp{i}"]
            for i in range(len(S.coords.coords)):
                ops[1].append(f"comp{i}")
            if self.vdim == 3:
                ops[1].append("curl")
            if self.vdim == 2:
                ops[1].append("skew")
            return ops
        ops = {0: ["grad", "lap", "intall", "aveall"], 1: ["div", "lap", "grad"], 2: ["trace", "trans", "div"]}
        if self.name in ("disk", "annulus"):
            ops[0] += ["interpr", "ave_phi", "interpphi"]
            ops[1] += ["interpr", "skew", "radial_edge", "azimuthal_edge"]
        elif self.name == "sphere":
            ops[0] += ["ave_phi"]; ops[1] += ["skew"]; ops[2] = ["trace", "trans"]
        elif self.name in ("ball", "shell"):
            ops[0] += ["interpr"]; ops[1] += ["interpr", "curl", "radial_edge", "angular_edge"]; ops[2] += ["interpr"]
        else:
            ops[0] += ["interpr", "dz", "intz"]; ops[1] += ["interpr", "dz", "curl", "intz"]
        return ops

    def apply(self, op, X):
        """The operator applied to an operand."""
        S = self.S
        if op in ("grad", "lap", "div", "trace", "trans", "curl", "skew"):
            return getattr(d3, op)(X)
        if op == "intall":
            return d3.Integrate(X)
        if op == "aveall":
            return d3.Average(X)
        if op == "interpr":
            return X(r=1.0)
        if op == "interpphi":
            return X(phi=0.5)
        if op == "ave_phi":
            return d3.Average(X, S.coords["phi"])
        if op.endswith("_edge"):
            return getattr(d3, op[:-5])(X(r=1.5))
        if op == "dz":
            return d3.Differentiate(X, S.coords.coords[0])
        if op == "intz":
            return d3.Integrate(X, S.coords.coords[0])
        for pre in ("interp", "int", "ave", "comp", "d"):
            if op.startswith(pre):
                c = S.coords.coords[int(op[len(pre):])]
                if pre == "d": return d3.Differentiate(X, c)
                if pre == "int": return d3.Integrate(X, c)
                if pre == "ave": return d3.Average(X, c)
                if pre == "comp": return operators.CartCompBase(X, 0, c)
                return X(**{c.name: 0.4})
        raise KeyError(op)

    # --- trees
    def build(self, e):
        k = e[0]
        if k == "leaf": return self.leaves[e[1]]
        if k == "num": return e[1]
        if k == "op": return self.apply(e[1], self.build(e[2]))
        if k == "ufunc": return getattr(np, e[1])(self.build(e[2]))
        if k == "pow": return self.build(e[1]) ** e[2]
        A = self.build(e[1])
        if k == "neg": return -A
        B = self.build(e[2])
        if k == "add": return A + B
        if k == "sub": return A - B
        if k == "mul": return A * B
        if k == "dot": return A @ B
        if k == "cross": return d3.cross(A, B)
        raise KeyError(k)

    def names(self, e):
        if e[0] == "leaf": return {e[1]}
        return set().union(*[self.names(x) for x in e if isinstance(x, tuple)]) if any(isinstance(x, tuple) for x in e) else set()

    def ref(self, e, memo):
        """(grid values at dealias scales, domain, tensorsig) by independent evaluation."""
        if e in memo: return memo[e]
        memo[e] = out = self._ref(e, memo)
        return out

    def _ref(self, e, memo):
        k = e[0]
        if k == "leaf":
            f = self.leaves[e[1]]
            return self.grids[e[1]], f.domain, f.tensorsig
        if k == "num":
            return np.full((1,)*self.dist.dim, e[1]), None, ()
        if k == "op":
            g, dom, ts = self.ref(e[2], memo)
            x = self.dist.Field(bases=dom.bases, tensorsig=ts, dtype=self.dtype)
            x.preset_scales(dom.dealias)
            x["g"] = g
            y = self.apply(e[1], x).evaluate()
            if type(y).__name__ != "LockedField":
                y["c"]; y.change_scales(y.domain.dealias)
            return y["g"].copy(), y.domain, y.tensorsig
        g, dom, ts = self.ref(e[1] if k != "ufunc" else e[2], memo)
        if k == "ufunc": return getattr(np, e[1])(g), dom, ts
        if k == "pow": return g**e[2], dom, ts
        if k == "neg": return -g, dom, ts
        h, dom2, ts2 = self.ref(e[2], memo)
        r1, r2 = len(ts), len(ts2)
        if k in ("add", "sub"):
            y = g + h if k == "add" else g - h
            return y, None, ts or ts2
        if k == "mul": return outer(g, h, r1, r2), None, ts + ts2
        if k == "dot":
            y = outer(g, h, r1, r2)
            return np.trace(y, axis1=r1-1, axis2=r1), None, ts[:-1] + ts2[1:]
        if k == "cross":
            g, h = np.broadcast_arrays(g, h)
            y = np.cross(g, h, axis=0)
            return (y if self.right_handed() else -y), None, ts

    def right_handed(self):
        return self.cart

    def ref_domains(self, e, X, memo):
        """Fills in the domain of arithmetic nodes from the built expression (metadata only)."""
        g, dom, ts = self.ref(e, memo)
        if dom is None:
            memo[e] = (g, X.domain, ts)

    def prepare(self, e, memo):
        """Reference values of a tree and its subtrees; builds each subtree once for its metadata."""
        if e in memo and memo[e][1] is not None or e[0] in ("leaf", "num"):
            return
        for x in e[1:]:
            if isinstance(x, tuple):
                self.prepare(x, memo)
        X = self.build(e)
        self.ref_domains(e, X, memo)

    # --- enumeration
    def depth1(self, leaves=None, nums=True):
        """All trees of one operator over the leaves: (rank, tree)."""
        L = [(self.rank(n), ("leaf", n)) for n in (leaves or self.leaves)]
        ops = self.unary_ops()
        out = []
        for r, l in L:
            out.append((r, ("neg", l)))
            if nums:
                out.append((r, ("mul", ("num", 2), l)))
                out.append((r, ("mul", l, ("num", -0.5))))
                if self.complex: out.append((r, ("mul", ("num", 1j), l)))
            if r == 0:
                out += [(0, ("add", l, ("num", 1.5))), (0, ("sub", ("num", 1.5), l)), (0, ("pow", l, 2))]
            for op in ops[r]:
                out.append((None, ("op", op, l)))
        for (r1, a), (r2, b) in itertools.product(L, L):
            out += self.binary(r1, a, r2, b)
        return out

    def binary(self, r1, a, r2, b):
        out = []
        if r1 == r2:
            out += [(r1, ("add", a, b)), (r1, ("sub", a, b))]
        if r1 + r2 <= 2:
            out.append((r1 + r2, ("mul", a, b)))
        if r1 and r2 and r1 + r2 <= 4:
            out.append((r1 + r2 - 2, ("dot", a, b)))
        if r1 == r2 == 1 and self.vdim == 3:
            out.append((1, ("cross", a, b)))
        return out
