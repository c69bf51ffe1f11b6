"""Variables of every kind and the linear operator alphabet of each small space (used by the matrix checks)."""
import numpy as np
import dedalus.public as d3
from dedalus.core import operators
from mc import spaces

SMALL = {"rf": (4,), "cf": (4,), "cheb": (4,), "leg": (4,), "jac": (4,), "rf_cheb": (4, 4), "cf_cheb": (4, 3), "cheb_cheb": (3, 4), "cheb_rf": (3, 4), "rf_rf": (4, 4), "rf_none": (4, 1), "none_cheb": (1, 4),
         "rf_rf_cheb": (4, 4, 3), "cf_cf_cheb": (4, 4, 3), "rf_none_cheb": (4, 1, 3), "rf_rf_rf": (4, 4, 4),
         "disk": (8, 3), "annulus": (4, 3), "sphere": (4, 3), "ball": (4, 4, 3), "shell": (4, 3, 3), "cyl": (4, 8, 3), "cylann": (4, 4, 3)}

class OpSpace:
    def __init__(self, name, dtype="float64", shape=None, dealias=1.5, comm=None, mesh=None, **kw):
        self.name = name
        self.S = S = spaces.make(name, dtype, shape or SMALL[name], dealias, comm=comm, mesh=mesh, **kw)
        self.dist, self.dtype, self.vec, self.cart = S.dist, S.dtype, S.vec, name in spaces.CART
        self.coords = S.coords
        self.kinds = spaces.CART.get(name)
        V = self.vars = {}
        def field(n, bases, *ts):
            V[n] = self.dist.Field(name=n, bases=bases or None, tensorsig=ts, dtype=self.dtype)
        v = S.vec
        B = S.bases
        field("f", B); field("u", B, v); field("k", ())
        field("T", B, v, v)
        if self.cart:
            if len(B) > 1:
                field("h", B[-1:]); field("a", B[:-1])
                field("ha", B[:1]) if len(B) > 2 else None
                field("ua", B[:-1], v)
            field("w", (), v)
        else:
            b = B[-1]
            if name in ("disk", "annulus"):
                field("e", b.edge if name == "disk" else b.outer_edge); field("ue", b.edge if name == "disk" else b.outer_edge, v)
            if name in ("ball", "shell"):
                s = b.surface if name == "ball" else b.outer_surface
                field("e", s); field("ue", s, v); field("Te", s, v, v)
            if name in ("cyl", "cylann"):
                s = (B[0], b.edge if name == "cyl" else b.outer_edge)
                field("e", s); field("ue", s, v); field("z", B[:1]); field("d", B[1:])
            # (fields on the radial bases of balls and shells cannot be problem variables: their bases do not define valid modes)
            if hasattr(b, "radial_basis") and name not in ("sphere", "ball", "shell"):
                field("h", b.radial_basis)
                field("uh", b.radial_basis, v)

    def rank(self, X):
        return len(X.tensorsig)

    def unary(self, X):
        """Names of the operators that take an operand like this one."""
        r = self.rank(X)
        S = self.S
        out = ["neg", "num"]
        has = [ax for ax in range(self.dist.dim) if not X.domain.constant[ax]]
        full = len(has) == self.dist.dim
        if r <= 1 and has: out += ["grad", "lap"]
        if r and has: out += ["div"]
        if r == 1: 
            if len(S.vec.coords) == 2: out += ["skew"]
            if self.vec_dim() == 3 and has: out += ["curl"]
        if r == 2: out += ["trace", "trans"]
        if has: out += ["intall", "aveall"]
        if self.cart:
            for i in has:
                out += [f"d{i}", f"int{i}", f"ave{i}", f"interp{i}"]
                kind = self.kinds[i]
                if kind in ("cheb", "leg", "jac"): out += [f"left{i}", f"right{i}", f"center{i}"]
                if kind in ("rf", "cf") and r == 0: out += [f"hilbert{i}"]
            if r:
                out += [f"comp{i}" for i in range(self.dist.dim)]
        else:
            n = self.name
            if n in ("disk", "annulus"):
                if 1 in has: out += ["outer", "interpr"] + (["inner"] if n == "annulus" else [])
                if 0 in has and 1 in has: out += ["ave_phi"]
                if r and 1 not in has: out += ["radial", "azimuthal"]
            elif n == "sphere":
                if r == 0: out += ["ave_phi", "interpnorth"]
            elif n in ("ball", "shell"):
                if 2 in has: out += ["outer", "interpr"] + (["inner"] if n == "shell" else [])
                if r and 2 not in has: out += ["radial", "angular"]
                if full and r == 0: out += ["ave_s2", "ave_phi"]
            else:
                if 0 in has: out += ["dz", "intz", "avez", "interpz"]
                if 2 in has: out += ["outer", "interpr"] + (["inner"] if n == "cylann" else [])
        return out

    def vec_dim(self):
        return self.vec.dim

    def apply(self, op, X):
        S = self.S
        if op == "neg": return -X
        if op == "num": return X * (0.5 - 2j) if np.dtype(self.dtype).kind == "c" else -1.5*X
        if op in ("grad", "lap", "div", "trace", "trans", "curl", "skew", "radial", "angular", "azimuthal"):
            return getattr(d3, op)(X)
        if op == "intall": return d3.Integrate(X)
        if op == "aveall": return d3.Average(X)
        if op == "interpr": return X(r=1.0)
        if op == "outer": return X(r=1.5)
        if op == "inner": return X(r=0.5)
        if op == "ave_phi": return d3.Average(X, S.coords["phi"])
        if op == "ave_s2": return d3.Average(X, S.coords.S2coordsys)
        if op == "interpnorth": return X(theta=0.)
        if op in ("dz", "intz", "avez", "interpz"):
            z = S.coords.coords[0]
            return {"dz": lambda: d3.Differentiate(X, z), "intz": lambda: d3.Integrate(X, z), "avez": lambda: d3.Average(X, z), "interpz": lambda: X(z=0.4)}[op]()
        for pre in ("interp", "int", "ave", "comp", "left", "right", "center", "hilbert", "d"):
            if op.startswith(pre):
                c = S.coords.coords[int(op[len(pre):])]
                if pre == "d": return d3.Differentiate(X, c)
                if pre == "int": return d3.Integrate(X, c)
                if pre == "ave": return d3.Average(X, c)
                if pre == "hilbert": return d3.HilbertTransform(X, c)
                if pre == "comp": return operators.CartCompBase(X, 0, c)
                return X(**{c.name: 0.4 if pre == "interp" else pre})
        raise KeyError(op)

    def lifts(self, name):
        """Lift expressions of an edge variable to the full domain."""
        X = self.vars[name]
        S = self.S
        b = S.bases[-1]
        out = []
        if self.cart:
            if name in ("a", "ua") and self.kinds[-1] not in ("rf", "cf") or name in ("k", "w") and len(S.bases) == 1 and self.kinds[0] not in ("rf", "cf", None):
                levels = (0, 1, 2)
                for l in levels:
                    for n in (-1, -2, 0): out.append((f"lift{l}{n}", lambda X, l=l, n=n: d3.Lift(X, b.derivative_basis(l), n)))
        elif name in ("e", "ue", "Te"):
            for l in (0, 1, 2):
                for n in ((-1,) if self.name in ("disk", "ball", "cyl") else (-1, -2)):
                    out.append((f"lift{l}{n}", lambda X, l=l, n=n: d3.Lift(X, b.derivative_basis(l), n)))
        return out
