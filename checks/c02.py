"""C02: transforms evaluate and recover the basis functions exactly.

Every mode of every basis family, at every small size, grid size, library and axis, is transformed by the real field
machinery and compared with an independent evaluation (numpy/scipy formulas) of the documented basis function."""
import itertools
import numpy as np

LEVEL = "exploration"
TECHNIQUE = "exhaustive bounded enumeration on the implementation: every mode x size x grid size x library x axis against independently evaluated basis functions"
NOTE = "Linear maps are fully determined by all unit vectors, which are enumerated; sizes and grid sizes are exhaustive up to the bound. Oracle: numpy/scipy evaluation of the documented expansions."
RULE = "every (size, grid size) pair up to the bound x library x dtype; every coefficient and every grid unit vector of each; every monomial x tensor component up to the degree bound for vector/tensor fields; a case counts as non-trivial when at least one mode survives"
BOUND = {"quick": "1-D sizes 1..10, grids 1..20; product spaces sizes <=5; curvilinear shapes up to (12,8,6); ranks 0-2, monomial degree <=2",
         "thorough": "1-D sizes 1..24, grids 1..48; curvilinear shapes up to (16,10,8); monomial degree <=4"}
ASSUMPTIONS = ["scipy.special evaluates Jacobi polynomials and Gauss-Jacobi nodes correctly"]
TIMEOUT = 800

LIBS = {"rf": ["matrix", "fftpack", "scipy", "fftw", "fftw_hc"], "cf": ["matrix", "scipy", "fftw"],
        "cheb": ["matrix", "scipy_dct", "fftw_dct"], "leg": ["matrix"], "jac": ["matrix"], "ultra": ["matrix"], "chebu": ["matrix"]}
JAC = {"cheb": (-0.5, -0.5), "leg": (0, 0), "jac": (0.5, 1.5), "ultra": (1, 1), "chebu": (0.5, 0.5)}

def cases(tier, seed):
    q = tier == "quick"
    out = []
    nmax = 10 if q else 24
    for kind in LIBS:
        for lib in LIBS[kind]:
            for dtype in (["float64", "complex128"] if kind != "cf" else ["complex128"]):
                if kind == "rf" and dtype == "complex128":
                    continue
                for k in ([0] if kind in ("rf", "cf") else [0, 1, 2]):
                    for before in ([True] if k == 0 else [True, False]):
                        step = 10 if q else 6
                        for lo in range(1, nmax + 1, step):
                            out.append(dict(t="one", kind=kind, lib=lib, dtype=dtype, k=k, before=before, sizes=[lo, min(lo+step, nmax+1)]))
    # Product spaces: every axis position, odd and even sizes, with and without tensor components
    combos = [("rf", "cheb"), ("cheb", "rf"), ("rf", "rf"), ("leg", "cheb"), ("rf", "rf", "cheb"), ("cheb", "rf", "rf"), ("rf", "cheb", "rf"), ("cheb", "leg", "rf"), ("rf", "rf", "rf")]
    ccombos = [("cf", "cheb"), ("cheb", "cf"), ("cf", "cf"), ("cf", "cf", "cheb"), ("cheb", "cf", "leg"), ("cf", "cf", "cf")]
    for dt, cc in (("float64", combos), ("complex128", ccombos)):
        for c in cc:
            shapes = [(4, 3), (5, 4), (1, 4), (3, 1)] if len(c) == 2 else [(4, 3, 2), (2, 4, 3), (3, 2, 4), (1, 3, 2)]
            for sh in shapes:
                out.append(dict(t="prod", kinds=c, dtype=dt, shape=sh, scales=[0.5, 1, 1.5, 2]))
    for name in ("disk", "annulus", "sphere", "ball", "shell", "cyl", "cylann"):
        for dt in ("float64", "complex128"):
            for sh in curv_shapes(name, dt, q):
                for k in ([0] if name in ("sphere", "cyl", "cylann") else [0, 1, 2]):
                    for before in ([True] if (k == 0) else [True, False]):
                        for alpha in ([0, 1] if name in ("disk", "ball") and k < 2 else [0]):
                            out.append(dict(t="curv", name=name, dtype=dt, shape=sh, k=k, before=before, alpha=alpha))
        for dt in ("float64", "complex128"):
            for rank in (0, 1, 2):
                for deg in range(0, 3 if q else 5):
                    for k in ([0] if name in ("sphere", "cyl", "cylann") else ([0, 1] if q else [0, 1, 2])):
                        out.append(dict(t="mono", name=name, dtype=dt, rank=rank, deg=deg, k=k))
    return out

def curv_shapes(name, dt, q):
    if name in ("disk", "annulus"):
        s = [(4, 4), (8, 3), (8, 3), (1, 4), (12, 8)] if dt == "float64" else [(4, 4), (1, 3), (6, 5), (8, 6)]
        return [x for x in s if not (dt == "float64" and x[0] % 2)]
    if name == "sphere":
        return [(4, 4), (8, 4), (8, 8), (4, 6), (12, 6), (1, 4)] if dt == "float64" else [(4, 4), (6, 4), (8, 5), (8, 8), (1, 4)]
    if name in ("ball", "shell"):
        return [(4, 4, 4), (8, 4, 3), (8, 6, 5), (12, 8, 4), (1, 4, 3)] if dt == "float64" else [(4, 4, 4), (6, 4, 3), (8, 5, 4)]
    return [(4, 4, 4), (3, 8, 3)] if dt == "float64" else [(4, 4, 3)]

# ---------------------------------------------------------------- independent 1-D expansions

def grid1(kind, g, bounds):
    from scipy import special
    L, R = bounds
    if kind in ("rf", "cf"):
        return L + (R - L) * np.arange(g) / g
    a, b = JAC[kind]
    x, _ = special.roots_jacobi(g, a, b) if g > 1 else (np.array([(b - a) / (a + b + 2)]), None)
    return L + (R - L) * (np.sort(x) + 1) / 2

def modes1(kind, n, k, x, bounds):
    """(values[grid, coefficient], mode number per coefficient, zero mask) of the documented expansion of size n."""
    from mc import geom
    L, R = bounds
    if kind == "rf":
        t = 2*np.pi*(x - L)/(R - L)
        K = (n - 1)//2
        cols = []
        for m in range(K + 1):
            cols += [np.cos(m*t), -np.sin(m*t)]
        return np.array(cols).T, np.repeat(np.arange(K + 1), 2)
    if kind == "cf":
        t = 2*np.pi*(x - L)/(R - L)
        K = (n - 1)//2
        ks = list(range(K + 1)) + ([None] if n % 2 == 0 else []) + list(range(-K, 0))
        return np.array([0*t if m is None else np.exp(1j*m*t) for m in ks]).T, np.array([10**6 if m is None else abs(m) for m in ks])
    a, b = JAC[kind]
    z = 2*(x - L)/(R - L) - 1
    return np.array([geom.jacobi_n(j, a + k, b + k, z) for j in range(n)]).T, np.arange(n)

def backward1(kind, n, g, k, bounds):
    """Matrix taking coefficients to values on the g-point grid."""
    x = grid1(kind, g, bounds)
    V, m = modes1(kind, n, k, x, bounds)
    lim = (g - 1)//2 if kind in ("rf", "cf") else g - 1
    V = V * (m <= lim)
    if kind == "rf":
        V[:, 1] = 0
    return V

def forward_pairs(kind, n, g, k, before, bounds):
    """Grid functions and the coefficients they must transform to: a spanning set of grid data."""
    x = grid1(kind, g, bounds)
    if kind == "rf":
        t = 2*np.pi*(x - bounds[0])/(bounds[1] - bounds[0])
        K = (n - 1)//2; G = (g - 1)//2
        for m in range(G + 1):
            for p in (0, 1):
                if m == 0 and p: continue
                c = np.zeros(2*(K + 1))
                if m <= K: c[2*m + p] = 1
                yield (-np.sin(m*t) if p else np.cos(m*t)), c
        if g % 2 == 0:
            yield np.cos(g//2*t), np.zeros(2*(K + 1))
    elif kind == "cf":
        t = 2*np.pi*(x - bounds[0])/(bounds[1] - bounds[0])
        K = (n - 1)//2; G = (g - 1)//2
        for m in list(range(-G, G + 1)) + ([g//2] if g % 2 == 0 else []):
            c = np.zeros(n, complex)
            if abs(m) <= K and abs(m) <= G: c[m % n] = 1
            yield np.exp(1j*m*t), c
    else:
        from scipy import special
        from mc import geom
        a, b = JAC[kind]
        z = 2*(x - bounds[0])/(bounds[1] - bounds[0]) - 1
        # Express base polynomials in the (a+k, b+k) polynomials by Gauss quadrature
        xx, ww = special.roots_jacobi(max(n, g) + 2, a + k, b + k)
        for j in range(g):
            c = np.array([np.sum(ww*geom.jacobi_n(j, a, b, xx)*geom.jacobi_n(i, a + k, b + k, xx)) if i <= j else 0 for i in range(n)])
            if before and j >= n: c[:] = 0
            yield geom.jacobi_n(j, a, b, z), c

def set_before(flag):
    from dedalus.tools.config import config
    config["transforms"]["DEALIAS_BEFORE_CONVERTING"] = str(bool(flag))

def run_one(case, rec):
    import dedalus.public as d3
    kind, lib, k, before = case["kind"], case["lib"], case["k"], case["before"]
    dtype = np.dtype(case["dtype"]).type
    set_before(before)
    bounds = (0.5, 2.25)
    rng = np.random.default_rng(rec.seed)
    for n in range(*case["sizes"]):
        c = d3.Coordinate("x"); dist = d3.Distributor(c, dtype=dtype)
        if kind == "rf": b = d3.RealFourier(c, n, bounds, library=lib)
        elif kind == "cf": b = d3.ComplexFourier(c, n, bounds, library=lib)
        else:
            a0, b0 = JAC[kind]
            b = d3.Jacobi(c, n, bounds, a=a0 + k, b=b0 + k, a0=a0, b0=b0, library=lib)
        f = dist.Field(bases=b)
        M = f['c'].size
        for g in (range(1, 2*n + 1) if n > 1 else [1]):     # size-1 bases are not padded
            s = (g - 0.5)/n
            f.preset_scales(s)
            tag = f"{kind}-{lib} size {n} grid {g} k {k}"
            rec.check(f['g'].shape == (g,), "gridshape", tag + f" shape {f['g'].shape}")
            rec.close(dist.local_grid(b, scale=s).ravel(), grid1(kind, g, bounds), "grid", tag)
            B = backward1(kind, n, g, k, bounds)
            got = np.zeros((g, M), dtype)
            for j in range(M):
                f.preset_scales(s); f['c'] = 0; f['c'][j] = 1
                got[:, j] = f['g']
                rec.step()
            rec.state((n, g))
            if B.any(): rec.nontriv()
            rec.close(got, B, "backward", tag)
            # a dense combination too: no mode shadows another
            X = rng.uniform(-1, 1, M); f.preset_scales(s); f['c'] = X
            rec.close(f['g'], B @ X, "backward-dense", tag)
            for j, (v, cc) in enumerate(forward_pairs(kind, n, g, k, before, bounds)):
                f.preset_scales(s); f['g'] = v
                rec.step()
                rec.close(f['c'], cc, "forward", tag + f" function {j}", rtol=1e-8)
            if case["dtype"] == "complex128":
                f.preset_scales(s); f['g'] = 1j * v
                rec.close(f['c'], 1j * cc, "forward", tag + " imaginary", rtol=1e-8)
    rec.sample(f"{tag}: {M} modes")

def run_prod(case, rec):
    import dedalus.public as d3
    from mc import spaces
    kinds, dtype, shape = case["kinds"], np.dtype(case["dtype"]).type, case["shape"]
    names = "xyz"[:len(kinds)]
    cs = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(cs, dtype=dtype)
    bd = [(0, 1.5), (-1, 2.25), (0.25, 1)]
    bases = tuple(spaces.cart_basis(kd, cs[nm], n, bounds=bd[i]) for i, (kd, nm, n) in enumerate(zip(kinds, names, shape)))
    rng = np.random.default_rng(rec.seed)
    for scales in itertools.product(case["scales"], repeat=len(kinds)):
        for rank in (0, 1):
            for sub in itertools.product((True, False), repeat=len(kinds)):
                if rank and not all(sub): continue
                bs = tuple(b for b, on in zip(bases, sub) if on)
                f = dist.Field(bases=bs or None, tensorsig=(cs,)*rank)
                X = rng.uniform(-1, 1, f['c'].shape).astype(dtype)
                mats, gs = [], []
                for ax, (kd, n, on) in enumerate(zip(kinds, shape, sub)):
                    if not on:
                        mats.append(np.eye(1)); continue
                    g = int(np.ceil(scales[ax]*n)) if n > 1 else 1
                    mats.append(backward1(kd, n, g, 0, bd[ax]))
                f.preset_scales(scales); f['c'] = X
                E = X
                for ax, Mx in enumerate(mats):
                    E = np.moveaxis(np.tensordot(Mx, E, (1, ax + rank)), 0, ax + rank)
                rec.step(); rec.state((scales, rank, sub)); rec.nontriv()
                tag = f"{kinds} {shape} scales {scales} rank {rank} bases {sub}"
                if rec.close(f['g'], E, "nd-backward", tag):
                    # forward of every resolvable combination: pseudo-inverse property on the range
                    P = [np.linalg.pinv(m) @ m for m in mats]
                    Y = X
                    for ax, Mx in enumerate(P):
                        Y = np.moveaxis(np.tensordot(Mx, Y, (1, ax + rank)), 0, ax + rank)
                    rec.close(f['c'], Y, "nd-roundtrip", tag, rtol=1e-8)
    rec.sample(tag)

# ---------------------------------------------------------------- curvilinear

def curv_grid(name, shape, S):
    """Independent grids."""
    from scipy import special
    def leg(n): return np.sort(np.arccos(np.clip(special.roots_legendre(n)[0], -1, 1)))[::-1]
    def jac(n, a, b): return np.sort(special.roots_jacobi(n, a, b)[0]) if n > 1 else np.array([(b - a)/(a + b + 2)])
    return leg, jac

def radial(name, case, j, m, r, rmax=None):
    """Radial function of radial index j for azimuthal/spherical degree m, or None when it does not exist."""
    from mc import geom
    k, alpha = case["k"], case.get("alpha", 0)
    if name in ("disk", "cyl"):
        n = j - m//2
        return geom.zernike_n(2, n, k + alpha, m, r/1.5) if n >= 0 else None
    if name == "ball":
        n = j - m//2
        return geom.zernike_n(3, n, k + alpha, m, r/1.5) if n >= 0 else None
    # shell and annulus on (0.5, 1.5)
    z = 2*(r - 1.0)
    return geom.jacobi_n(j, k - 0.5, k - 0.5, z) * (1.0/r)**k

def phi_function(elem, m, real, phi):
    if real:
        return (-np.sin(m*phi) if elem % 2 else np.cos(m*phi))
    return np.exp(1j*m*phi)

def run_curv(case, rec):
    from mc import spaces, geom
    from scipy import special
    name, real = case["name"], case["dtype"] == "float64"
    set_before(case["before"])
    shape = tuple(case["shape"])
    kw = {}
    if name in ("disk", "annulus", "ball", "shell"): kw["k"] = case["k"]
    if name in ("disk", "ball"): kw["alpha"] = case["alpha"]
    S = spaces.make(name, case["dtype"], shape, **kw)
    f = S.field(); dim = S.dim
    f['c']
    lay = S.dist.coeff_layout
    one = (1,)*dim
    ga = [np.ma.masked_array(a) for a in lay.local_group_arrays(f.domain, one)]
    cshape = f['c'].shape
    ga = [np.ma.masked_array(np.broadcast_to(a.data, cshape), np.broadcast_to(np.ma.getmaskarray(a), cshape)) for a in ga]
    valid = spaces.valid_mask(f)
    zero_ok = name in ("cyl", "cylann")
    scale_menu = [one, (2,)*dim, (1.5,)*dim]
    if dim == 2: scale_menu += [(1, 2), (2, 1), (1, 0.5)]
    else: scale_menu += [(1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 1, 0.5)]
    survive = 0
    for scales in scale_menu:
        grids = []
        for b in S.bases:
            grids += list(S.dist.local_grids(b, scales=scales))
        gsh = tuple(f.domain.grid_shape(scales))
        off = 1 if zero_ok else 0
        phi = grids[off]
        r = grids[-1] if name != "sphere" else None
        Ng_phi = gsh[off]
        # independent grids
        rec.close(phi.ravel(), 2*np.pi*np.arange(Ng_phi)/Ng_phi, "azimuth-grid", f"{case}")
        if name in ("sphere", "ball", "shell"):
            th = grids[1].ravel()
            rec.close(np.sort(np.cos(th)), np.sort(special.roots_legendre(th.size)[0]), "colatitude-grid", f"{case}")
        if r is not None:
            z = {"disk": lambda r: 2*(r/1.5)**2 - 1, "cyl": lambda r: 2*(r/1.5)**2 - 1, "ball": lambda r: 2*(r/1.5)**2 - 1,
                 "annulus": lambda r: 2*(r - 1), "shell": lambda r: 2*(r - 1), "cylann": lambda r: 2*(r - 1)}[name](r.ravel())
            al = case["alpha"]
            ab = {"disk": (al, 0), "cyl": (0, 0), "ball": (al, 0.5)}.get(name, (-0.5, -0.5))
            ref = np.sort(special.roots_jacobi(z.size, *ab)[0]) if z.size > 1 else np.array([(ab[1] - ab[0])/(sum(ab) + 2)])
            rec.close(z, ref, "radial-grid", f"{case}")
        KNg = min((Ng_phi - 1)//2, (shape[off] - 1)//2)
        for idx in np.ndindex(cshape):
            f.preset_scales(scales); f['c'] = 0; f['c'][idx] = 1
            G = f['g'].copy()
            rec.step()
            tag = f"{name} {case['dtype']} {shape} k={case['k']} alpha={case['alpha']} scales {scales} element {idx}"
            if any(np.ma.getmaskarray(a)[idx] for a in ga):
                rec.check(not np.abs(G).max() > 1e-12, "padding", tag + " is padding but appears on the grid")
                continue
            grp = [int(a[idx]) for a in ga]
            m = grp[off]
            exp = None
            azi = off
            alive = abs(m) <= KNg
            if real and m == 0 and idx[azi] % 2: alive = False
            if name == "sphere":
                l = grp[1]
                if l < abs(m) or l >= gsh[1]: alive = False
                if alive:
                    exp = geom.legendre_n(l, abs(m), np.cos(grids[1])) * phi_function(idx[azi], m, real, phi)
            elif dim == 2:
                j = grp[1]
                Rj = radial(name, case, j, abs(m), r)
                if Rj is None or j >= gsh[1]: alive = False
                if alive: exp = Rj * phi_function(idx[azi], m, real, phi)
            elif name in ("ball", "shell"):
                l, j = grp[1], grp[2]
                if l < abs(m) or l >= gsh[1]: alive = False
                Rj = radial(name, case, j, l, r) if alive else None
                if Rj is None or j >= gsh[2]: alive = False
                if alive: exp = Rj * geom.legendre_n(l, abs(m), np.cos(grids[1])) * phi_function(idx[azi], m, real, phi)
            else:
                kz, j = grp[0], grp[2]
                Rj = radial(name, case, j, abs(m), r)
                if Rj is None or j >= gsh[2]: alive = False
                KNz = min((gsh[0] - 1)//2, (shape[0] - 1)//2)
                if abs(kz) > KNz: alive = False
                if real and kz == 0 and idx[0] % 2: alive = False
                if alive: exp = Rj * phi_function(idx[azi], m, real, phi) * phi_function(idx[0], kz, real, grids[0])
            if alive:
                exp = exp + np.zeros(gsh)
                # sphere parity/sign conventions are fixed up to one sign per (l, m)
                if name in ("sphere", "ball", "shell"):
                    sg = np.sign(np.real(np.vdot(exp, G))) or 1
                    exp = sg * exp
                ok = rec.close(G, exp, "curv-backward", tag + f" group {grp}", rtol=1e-8)
                f['c']
                E = np.zeros(cshape); E[idx] = 1
                rec.close(f['c'], E, "curv-roundtrip", tag + f" group {grp}", rtol=1e-8)
                rec.check(bool(valid[idx]), "validity", tag + f" group {grp} carries a function but is marked invalid")
                survive += 1
            else:
                rec.check(not np.abs(G).max() > 1e-10, "curv-truncated", tag + f" group {grp} is not resolvable on this grid but appears on it (max {np.abs(G).max():.3g})")
    # Truncation: modes of a larger basis that this basis lacks vanish when loaded on a resolving grid
    rec.check(survive > 0, "vacuous", f"{case}")
    rec.nontriv(survive)
    rec.state(tuple(sorted(case.items(), key=str)).__repr__())
    trunc(case, rec, S, shape, kw)
    rec.sample(f"{name} {shape}: {survive} mode transforms")

def trunc(case, rec, S, shape, kw):
    """Radially higher modes loaded on a resolving grid are dropped, not aliased."""
    from mc import spaces
    name = case["name"]
    if name == "sphere" or not case["before"] and case["k"]:
        return
    big = shape[:-1] + (2*shape[-1],)
    B = spaces.make(name, case["dtype"], big, **kw)
    fb, f = B.field(), S.field()
    n, one = shape[-1], (1,)*S.dim
    k = case["k"]
    fb['c']; f['c']
    rng = np.random.default_rng(rec.seed + 5)
    # what survives: the k=0 coefficients below n; for k>0 only check the projection is idempotent
    X = spaces.random_coeffs(fb, 3 + rec.seed)
    fb['c'] = X; G = fb['g'].copy(); X = fb['c'].copy()
    f.preset_scales((1,)*(S.dim - 1) + (2,)); f['g'] = G
    C = f['c'].copy()
    if k == 0:
        rec.close(C, X[..., :n], "curv-truncation", f"{name} {shape} loading a {big} function", rtol=1e-8)
    f.preset_scales((1,)*(S.dim - 1) + (2,)); f['c'] = C; f['g']
    rec.close(f['c'], C, "curv-idempotent", f"{name} {shape}", rtol=1e-8)

def run_mono(case, rec):
    """Smooth tensor fields with polynomial Cartesian components are represented exactly at every scale."""
    from mc import spaces, geom
    set_before(True)
    name, rank, deg = case["name"], case["rank"], case["deg"]
    real = case["dtype"] == "float64"
    shape = {"disk": (16, 8), "annulus": (16, 8), "sphere": (16, 8), "ball": (16, 8, 6), "shell": (16, 8, 6), "cyl": (6, 16, 6), "cylann": (6, 16, 8)}[name]
    kw = dict(k=case["k"]) if name in ("disk", "annulus", "ball", "shell") else {}
    S = spaces.make(name, case["dtype"], shape, **kw)
    dimX = 2 if name in ("disk", "annulus") else 3
    f = S.field(rank)
    one, big = (1,)*S.dim, (1.5,)*S.dim
    def at(scales):
        grids = []
        for b in S.bases:
            grids += list(S.dist.local_grids(b, scales=scales))
        return geom.frame(name, grids)
    def build(scales, powers, comps):
        X, E = at(scales)
        Z = X
        if name in ("cyl", "cylann"):
            Z = [X[0], X[1], np.cos(X[2])]      # periodic in z
        v = 1.0
        for x, p in zip(Z, powers): v = v * x**p
        v = v + 0*X[0]
        out = np.zeros((S.vec.dim,)*rank + v.shape) if rank else np.array(v)
        if rank:
            for ii in np.ndindex((S.vec.dim,)*rank):
                w = v
                for i, c in zip(ii, comps): w = w * E[i][c]
                out[ii] = w
        return out
    for powers in itertools.product(range(deg + 1), repeat=dimX):
        if sum(powers) != deg: continue
        if name in ("annulus", "shell", "cylann") and case["k"] and deg > 3: continue
        for comps in itertools.product(range(dimX), repeat=rank):
            A, B = build(one, powers, comps), build(big, powers, comps)
            tag = f"{name} {case['dtype']} k={case['k']} monomial {powers} component {comps}"
            if not real: A, B = A*(1 - 2j), B*(1 - 2j)
            f.preset_scales(one); f['g'] = A
            f.change_scales(big)
            c1 = f['c'].copy()
            rec.step()
            rec.close(f['g'], B, "monomial", tag, rtol=1e-8)
            f.preset_scales(big); f['g'] = B
            rec.close(f['c'], c1, "monomial-forward", tag, rtol=1e-8)
            f.change_scales(one)
            rec.close(f['g'], A, "monomial-down", tag, rtol=1e-8)
            rec.state((powers, comps)); rec.nontriv()
    rec.sample(tag)

def run_case(case, rec):
    {"one": run_one, "prod": run_prod, "curv": run_curv, "mono": run_mono}[case["t"]](case, rec)
