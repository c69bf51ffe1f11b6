"""Small well-posed linear problems over every basis family, stated as text with a namespace."""
import numpy as np
import dedalus.public as d3
from mc import spaces

# name: (space, dtype, shape)
ALL = {
    "cheb": ("cheb", "float64", (6,)), "cheb_c": ("cheb", "complex128", (6,)), "ncc1": ("jac", "complex128", (6,)), "sys1": ("leg", "float64", (5,)), "noderiv": ("cheb", "float64", (4,)),
    "rf": ("rf", "float64", (6,)), "cf": ("cf", "complex128", (6,)), "gauge": ("rf_rf", "float64", (4, 4)), "gauge_c": ("cf_cf", "complex128", (4, 4)), "helm": ("rf_rf", "float64", (4, 4)), "helmv": ("rf_rf_rf", "float64", (4, 4, 4)),
    "slab": ("rf_cheb", "float64", (4, 5)), "slab_c": ("cf_cheb", "complex128", (4, 5)), "slabflip": ("cheb_rf", "float64", (5, 4)), "slab3": ("rf_rf_cheb", "float64", (4, 4, 4)), "slabnone": ("rf_none_cheb", "float64", (4, 1, 4)),
    "cond": ("rf_cheb", "float64", (6, 4)), "stokes": ("rf_cheb", "float64", (4, 5)), "stokes_c": ("cf_cheb", "complex128", (4, 5)), "channelncc": ("rf_cheb", "float64", (4, 5)), "cheb2": ("cheb_cheb", "float64", (4, 4)),
    "disk": ("disk", "float64", (8, 4)), "disk_c": ("disk", "complex128", (8, 4)), "diskv": ("disk", "float64", (8, 4)), "diskncc": ("disk", "float64", (8, 4)),
    "annulus": ("annulus", "float64", (4, 4)), "annulusv": ("annulus", "complex128", (4, 4)),
    "sphere": ("sphere", "float64", (8, 4)), "sphere_c": ("sphere", "complex128", (4, 4)), "spherev": ("sphere", "float64", (8, 4)),
    "ball": ("ball", "float64", (4, 4, 4)), "ball_c": ("ball", "complex128", (4, 4, 4)), "ballv": ("ball", "float64", (4, 4, 4)), "shell": ("shell", "float64", (4, 4, 4)), "shellv": ("shell", "complex128", (4, 4, 4)), "shellncc": ("shell", "float64", (4, 4, 4)),
    "cyl": ("cyl", "float64", (4, 4, 4)), "cylann": ("cylann", "float64", (4, 4, 4)),
}

class Problem:
    """A problem of one family: .vars, .rhs (given fields), .eqs [(text, condition)], .ns (namespace), .mass (index of the variable differentiated in time per equation, or None)."""
    def __init__(self, name, comm=None, mesh=None, dealias=1.5, seed=0, shape=None, fill=True):
        sp, dtype, sh = ALL[name]
        self.name = name
        self.S = S = spaces.make(sp, dtype, shape or sh, dealias, comm=comm, mesh=mesh)
        self.dist, self.dtype, self.coords = S.dist, S.dtype, S.coords
        self.vars, self.rhs, self.nccs, self.eqs, self.mass, self.ns = [], [], [], [], [], {}
        b = S.bases[-1] if S.bases else None
        self.ns.update(lift=lambda A, n, l=2: d3.Lift(A, b.derivative_basis(l), n), lift1=lambda A, n: d3.Lift(A, b.derivative_basis(1), n), lift0=lambda A, n: d3.Lift(A, b, n),
                       integ=d3.Integrate, avg=d3.Average, trace=d3.Trace, dt=d3.dt)
        for cs in S.coords.coords: self.ns[cs.name] = cs
        if sp in spaces.CART:
            for i, n in enumerate("xyz"[:S.dist.dim]):
                self.ns["d" + n] = lambda A, c=S.coords.coords[i]: d3.Differentiate(A, c)
        kind = name.rstrip("_c") if name.endswith("_c") else name
        getattr(self, "p_" + {"cheb_c": "cheb", "slab_c": "slab", "gauge_c": "gauge", "stokes_c": "stokes", "disk_c": "disk", "sphere_c": "sphere", "ball_c": "ball", "annulusv": "annulus", "cf": "rf",
                              "slabflip": "slabflip", "shellv": "shell", "ballv": "ball", "diskv": "disk", "spherev": "sphere", "cylann": "cylann"}.get(name, name))()
        if fill: self.fill(seed)

    def var(self, n, bases=(), *ts):
        f = self.dist.Field(name=n, bases=bases or None, tensorsig=ts, dtype=self.dtype)
        self.vars.append(f); self.ns[n] = f
        return f
    def given(self, n, bases=(), *ts):
        f = self.dist.Field(name=n, bases=bases or None, tensorsig=ts, dtype=self.dtype)
        self.rhs.append(f); self.ns[n] = f
        return f
    def eq(self, text, condition="True", mass=None):
        self.eqs.append((text, condition)); self.mass.append(mass)

    def fill(self, seed):
        for i, f in enumerate(self.rhs):
            f.preset_scales(1)
            f.fill_random("g", seed=100*seed + i)
            f["c"]; f["g"]; f["c"]

    # ---- families
    def p_cheb(self):
        b = self.S.bases[0]
        self.var("u", b); self.var("t1"); self.var("t2"); self.given("f", b.derivative_basis(2)); self.given("g")
        self.eq("dx(dx(u)) - 2*u + lift(t1,-1) + lift(t2,-2) = f", mass="u")
        self.eq("u(x='left') = g"); self.eq("dx(u)(x='right') = 0")

    def p_ncc1(self):
        b = self.S.bases[0]
        self.var("u", b); self.var("t1"); self.given("f", b.derivative_basis(1))
        n = self.dist.Field(name="n", bases=b, dtype=self.dtype); n["g"] = 2 + self.dist.local_grid(b)**2; self.ns["n"] = n; self.nccs.append(n)
        self.eq("dx(u) + n*u + lift1(t1,-1) = f", mass="u")
        self.eq("u(x='right') = 1 + 2j")

    def p_sys1(self):
        b = self.S.bases[0]
        self.var("u", b); self.var("v", b); self.var("t1"); self.var("t2"); self.given("f", b); self.given("h", b)
        self.eq("dx(u) - v + lift1(t1,-1) = h"); self.eq("dx(v) - u + lift1(t2,-1) = f", mass="u")
        self.eq("u(x='left') + v(x='left') = 1"); self.eq("u(x='right') = 0")

    def p_noderiv(self):
        b = self.S.bases[0]
        self.var("u", b); self.var("c"); self.given("f", b)
        self.eq("2*u + c = f", mass="u"); self.eq("integ(u) = 3")

    def p_rf(self):
        b = self.S.bases[0]
        self.var("u", b); self.given("f", b)
        self.eq("u - dx(dx(u)) + 0.5*dx(u) = f", mass="u")

    def p_gauge(self):
        B = self.S.bases
        self.var("u", B); self.var("c"); self.given("f", B)
        self.eq("lap(u) + c = f"); self.eq("integ(u) = 0")

    def p_helm(self):
        B = self.S.bases
        self.var("u", B); self.var("w", B[:1]); self.given("f", B); self.given("h", B[:1])
        self.eq("u - lap(u) + w = f", mass="u"); self.eq("w + 0.5*avg(u, y) = h")

    def p_helmv(self):
        B, v = self.S.bases, self.S.vec
        self.var("u", B, v); self.var("p", B); self.var("c"); self.given("f", B, v)
        self.eq("u - lap(u) + grad(p) = f", mass="u"); self.eq("div(u) + c = 0"); self.eq("integ(p) = 0")

    def slab(self, z):
        B = self.S.bases
        side = tuple(b for b in B if b is not B[-1])
        self.var("u", B); self.var("t1", side); self.var("t2", side); self.given("f", B); self.given("g", side)
        self.eq("lap(u) - u + lift(t1,-1) + lift(t2,-2) = f", mass="u")
        self.eq(f"u({z}='left') = g"); self.eq(f"d{z}(u)({z}='right') + u({z}='right') = 0")
    def p_slab(self): self.slab("y")
    def p_slab3(self): self.slab("z")
    def p_slabnone(self): self.slab("z")
    def p_slabflip(self):
        B = self.S.bases
        b = B[0]
        self.ns["liftx"] = lambda A, n: d3.Lift(A, b.derivative_basis(2), n)
        self.var("u", B); self.var("t1", B[1:]); self.var("t2", B[1:]); self.given("f", B)
        self.eq("lap(u) + liftx(t1,-1) + liftx(t2,-2) = f", mass="u"); self.eq("u(x='left') = 0"); self.eq("u(x='right') = 1")

    def p_cond(self):
        B = self.S.bases
        self.var("u", B); self.var("t1", B[:1]); self.var("t2", B[:1]); self.var("m"); self.given("f", B); self.given("g", B[:1])
        self.eq("lap(u) + m + lift(t1,-1) + lift(t2,-2) = f", mass="u")
        self.eq("dy(u)(y='left') = g", "nx != 0"); self.eq("u(y='left') = g", "nx == 0"); self.eq("dy(u)(y='right') = 0"); self.eq("integ(u) = 2")

    def p_stokes(self):
        B, v = self.S.bases, self.S.vec
        ex, ey = self.coords.unit_vector_fields(self.dist)
        self.ns["ey"] = ey
        self.var("p", B); self.var("u", B, v); self.var("tp"); self.var("tu1", B[:1], v); self.var("tu2", B[:1], v); self.given("f", B, v); self.given("g", B[:1], v)
        self.ns["grad_u"] = d3.grad(self.ns["u"]) + ey*d3.Lift(self.ns["tu1"], B[-1].derivative_basis(1), -1)
        self.eq("trace(grad_u) + tp = 0"); self.eq("-div(grad_u) + grad(p) + lift1(tu2,-1) = f", mass="u")
        self.eq("u(y='left') = g"); self.eq("u(y='right') = 0"); self.eq("integ(p) = 0")

    def p_channelncc(self):
        B = self.S.bases
        self.var("u", B); self.var("t1", B[:1]); self.var("t2", B[:1]); self.given("f", B)
        n = self.dist.Field(name="n", bases=B[-1], dtype=self.dtype); n["g"] = 1 + 0.5*self.dist.local_grid(B[-1]); self.ns["n"] = n; self.nccs.append(n)
        self.eq("lap(u) + n*dx(u) - n*n*u + lift(t1,-1) + lift(t2,-2) = f", mass="u")
        self.eq("u(y='left') = 0"); self.eq("u(y='right') = 0")

    def p_cheb2(self):
        B = self.S.bases
        self.var("u", B); self.given("f", B)
        n = self.dist.Field(name="n", bases=B, dtype=self.dtype); x, y = self.dist.local_grids(*B); n["g"] = 3 + x*y; self.ns["n"] = n; self.nccs.append(n)
        self.eq("n*u = f", mass="u")

    def polar(self, annulus, vec):
        b = self.S.bases[-1]
        ts = (self.S.vec,) if vec else ()
        e = b.outer_edge if annulus else b.edge
        self.var("u", self.S.bases, *ts)
        E = self.S.bases[:-1] + (e,)
        self.var("t1", E, *ts)
        if annulus: self.var("t2", self.S.bases[:-1] + (b.outer_edge,), *ts)
        self.given("f", self.S.bases, *ts); self.given("g", E, *ts)
        self.eq("lap(u) - u + lift(t1,-1)" + (" + lift(t2,-2)" if annulus else "") + " = f", mass="u")
        self.eq("u(r=1.5) = g")
        if annulus: self.eq("u(r=0.5) = 0")
    def p_disk(self): self.polar(False, self.name == "diskv")
    def p_annulus(self): self.polar(True, self.name == "annulusv")
    def p_ball(self): self.polar3(False, self.name == "ballv")
    def p_shell(self): self.polar3(True, self.name == "shellv")
    def p_cyl(self): self.polar(False, False)
    def p_cylann(self): self.polar(True, False)
    def p_diskncc(self):
        self.polar(False, False)
        b = self.S.bases[-1]
        n = self.dist.Field(name="n", bases=b.radial_basis, dtype=self.dtype); n["g"] = 1 + self.dist.local_grids(b)[1]**2; self.ns["n"] = n; self.nccs.append(n)
        self.eqs[0] = ("lap(u) - n*u + lift(t1,-1) = f", "True")

    def polar3(self, shell, vec, ncc=False):
        b = self.S.bases[-1]
        ts = (self.S.vec,) if vec else ()
        e = b.outer_surface if shell else b.surface
        self.var("u", b, *ts); self.var("t1", e, *ts)
        if shell: self.var("t2", b.inner_surface, *ts)
        self.given("f", b, *ts); self.given("g", e, *ts)
        self.eq("lap(u) - u + lift(t1,-1)" + (" + lift(t2,-2)" if shell else "") + " = f", mass="u")
        self.eq("u(r=1.5) = g")
        if shell: self.eq("u(r=0.5) = 0")
    def p_shellncc(self):
        self.polar3(True, False)
        b = self.S.bases[-1]
        n = self.dist.Field(name="n", bases=b.radial_basis, tensorsig=(self.S.vec,), dtype=self.dtype); n["g"][2] = 1 + 0.5*self.dist.local_grids(b)[2]; self.ns["n"] = n; self.nccs.append(n)
        self.eqs[0] = ("lap(u) + n@grad(u) - u + lift(t1,-1) + lift(t2,-2) = f", "True")

    def p_sphere(self):
        b = self.S.bases[0]
        if self.name == "spherev":
            v = self.S.vec
            self.var("u", b, v); self.var("h", b); self.given("f", b, v); self.given("q", b)
            self.eq("u - lap(u) + grad(h) = f", mass="u"); self.eq("h + div(u) = q")
        else:
            self.var("u", b); self.var("c"); self.given("f", b)
            self.eq("lap(u) + c = f"); self.eq("avg(u) = 1")

    # ---- use
    def pairs(self):
        """(LHS, RHS, condition) of every equation as operators."""
        import dedalus.core.operators as ops, dedalus.core.arithmetic as ar
        ns = {k: getattr(ops, k) for k in ops.__all__}; ns.update({k: getattr(ar, k) for k in ar.__all__}); ns.update(self.ns)
        out = []
        for text, cond in self.eqs:
            i = split(text)
            out.append((eval(text[:i].strip(), dict(ns)), eval(text[i+1:].strip(), dict(ns)), cond))
        return out

    def lbvp(self, eq_order=None, var_order=None):
        V = [self.vars[i] for i in var_order] if var_order else list(self.vars)
        p = d3.LBVP(V, namespace=self.ns)
        for i in eq_order if eq_order else range(len(self.eqs)):
            p.add_equation(self.eqs[i][0], condition=self.eqs[i][1])
        return p

    def ivp(self):
        p = d3.IVP(list(self.vars), namespace=self.ns)
        for (t, c), m in zip(self.eqs, self.mass):
            p.add_equation((f"dt({m}) + " if m else "") + t, condition=c)
        return p

    def solution(self):
        return [np.array(v["c"]) for v in self.vars]

def split(text):
    """Position of the equals sign outside brackets."""
    d = 0
    for i, ch in enumerate(text):
        if ch in "([{": d += 1
        elif ch in ")]}": d -= 1
        elif ch == "=" and not d: return i
    raise ValueError(text)
