"""Small problem spaces over every basis family."""
import numpy as np
import dedalus.public as d3

class Space:
    def __init__(self, name, dtype, coords, dist, bases, vec=None, dim=None):
        self.name, self.dtype, self.coords, self.dist, self.bases, self.vec = name, dtype, coords, dist, bases, vec
        self.dim = dist.dim

    def field(self, rank=0, bases="all", name=None):
        b = self.bases if bases == "all" else bases
        ts = (self.vec,) * rank
        return self.dist.Field(bases=b, tensorsig=ts, dtype=self.dtype, name=name)

CART = {
    # name: list of (kind) per axis
    "none": [None], "rf": ["rf"], "cf": ["cf"], "cheb": ["cheb"], "leg": ["leg"], "jac": ["jac"], "ultra": ["ultra"],
    "rf_cheb": ["rf", "cheb"], "cf_cheb": ["cf", "cheb"], "rf_leg": ["rf", "leg"], "rf_rf": ["rf", "rf"], "cf_cf": ["cf", "cf"],
    "rf_none": ["rf", None], "none_cheb": [None, "cheb"], "cheb_cheb": ["cheb", "cheb"], "cheb_rf": ["cheb", "rf"],
    "rf_rf_cheb": ["rf", "rf", "cheb"], "cf_cf_cheb": ["cf", "cf", "cheb"], "rf_none_cheb": ["rf", None, "cheb"],
    "rf_rf_rf": ["rf", "rf", "rf"], "none_rf_none": [None, "rf", None], "rf_rf_none": ["rf", "rf", None],
}
CURV = ["disk", "annulus", "sphere", "ball", "shell", "cyl", "cylann"]

def cart_basis(kind, coord, n, dealias=1, bounds=None, library=None):
    if kind is None:
        return None
    kw = dict(dealias=dealias)
    if library:
        kw["library"] = library
    if kind == "rf":
        return d3.RealFourier(coord, size=n, bounds=bounds or (0, 2*np.pi), **kw)
    if kind == "cf":
        return d3.ComplexFourier(coord, size=n, bounds=bounds or (0, 2*np.pi), **kw)
    bounds = bounds or (-1, 1)
    if kind == "cheb":
        return d3.ChebyshevT(coord, size=n, bounds=bounds, **kw)
    if kind == "leg":
        return d3.Legendre(coord, size=n, bounds=bounds, **kw)
    if kind == "jac":
        return d3.Jacobi(coord, size=n, bounds=bounds, a=0.5, b=1.5, **kw)
    if kind == "ultra":
        return d3.Ultraspherical(coord, size=n, bounds=bounds, alpha=1.5, **kw)
    if kind == "chebu":
        return d3.ChebyshevU(coord, size=n, bounds=bounds, **kw)
    raise ValueError(kind)

def make(name, dtype=np.float64, shape=None, dealias=1, comm=None, mesh=None, bounds=None, **kw):
    dtype = np.dtype(dtype).type
    distkw = dict(dtype=dtype)
    if comm is not None:
        distkw["comm"] = comm
    if mesh is not None:
        distkw["mesh"] = mesh
    if name in CART:
        kinds = CART[name]
        names = "xyz"[:len(kinds)]
        cs = d3.CartesianCoordinates(*names)
        dist = d3.Distributor(cs, **distkw)
        shape = shape or (4,) * len(kinds)
        dl = dealias if isinstance(dealias, (tuple, list)) else (dealias,) * len(kinds)
        bd = bounds or (None,) * len(kinds)
        bases = tuple(b for b in (cart_basis(k, cs[n], s, dl[i], bd[i]) for i, (k, n, s) in enumerate(zip(kinds, names, shape))) if b is not None)
        return Space(name, dtype, cs, dist, bases, vec=cs)
    def dl(n):
        return tuple(dealias) if isinstance(dealias, (tuple, list)) else (dealias,) * n
    if name in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        dist = d3.Distributor(cs, **distkw)
        shape = shape or (4, 4)
        if name == "disk":
            b = d3.DiskBasis(cs, shape=shape, dtype=dtype, radius=kw.get("radius", 1.5), dealias=dl(2), k=kw.get("k", 0), alpha=kw.get("alpha", 0))
        else:
            b = d3.AnnulusBasis(cs, shape=shape, dtype=dtype, radii=kw.get("radii", (0.5, 1.5)), dealias=dl(2), k=kw.get("k", 0))
        return Space(name, dtype, cs, dist, (b,), vec=cs)
    if name == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        dist = d3.Distributor(cs, **distkw)
        b = d3.SphereBasis(cs, shape=shape or (4, 4), dtype=dtype, radius=kw.get("radius", 1.5), dealias=dl(2))
        return Space(name, dtype, cs, dist, (b,), vec=cs)
    if name in ("ball", "shell"):
        cs = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(cs, **distkw)
        shape = shape or (4, 4, 4)
        if name == "ball":
            b = d3.BallBasis(cs, shape=shape, dtype=dtype, radius=kw.get("radius", 1.5), dealias=dl(3), k=kw.get("k", 0), alpha=kw.get("alpha", 0))
        else:
            b = d3.ShellBasis(cs, shape=shape, dtype=dtype, radii=kw.get("radii", (0.5, 1.5)), dealias=dl(3), k=kw.get("k", 0))
        return Space(name, dtype, cs, dist, (b,), vec=cs)
    if name in ("cyl", "cylann"):
        cz = d3.Coordinate("z")
        cp = d3.PolarCoordinates("phi", "r")
        cs = d3.DirectProduct(cz, cp)
        dist = d3.Distributor(cs, **distkw)
        shape = shape or (4, 4, 4)
        d = dl(3)
        bz = (d3.RealFourier if dtype is np.float64 else d3.ComplexFourier)(cz, size=shape[0], bounds=(0, 2*np.pi), dealias=d[0])
        if name == "cyl":
            bp = d3.DiskBasis(cp, shape=shape[1:], dtype=dtype, radius=1.5, dealias=d[1:])
        else:
            bp = d3.AnnulusBasis(cp, shape=shape[1:], dtype=dtype, radii=(0.5, 1.5), dealias=d[1:])
        return Space(name, dtype, cs, dist, (bz, bp), vec=cs)
    raise ValueError(name)

def dtype_ok(name, dtype):
    """cf needs complex data; rf with complex data is not supported by every operator but fields work."""
    if name in CART and "cf" in CART[name]:
        return np.dtype(dtype).kind == "c"
    return True

def valid_mask(field):
    """Boolean mask of the field's valid coefficients (serial)."""
    lay = field.dist.coeff_layout
    return lay.valid_elements(field.tensorsig, field.domain, (1,) * field.dist.dim)

def random_coeffs(field, seed):
    """Deterministic pseudo-random valid coefficient data (serial)."""
    rng = np.random.default_rng(seed)
    shape = tuple(cs.dim for cs in field.tensorsig) + tuple(field.dist.coeff_layout.local_shape(field.domain, (1,)*field.dist.dim))
    x = rng.uniform(-1, 1, shape)
    if np.dtype(field.dtype).kind == "c":
        x = x + 1j * rng.uniform(-1, 1, shape)
    x = x.astype(field.dtype)
    x *= valid_mask(field)
    return x
