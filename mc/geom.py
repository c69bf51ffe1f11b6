"""Independent geometry: unit vectors and Cartesian positions of the curvilinear coordinate systems, and normalised functions."""
import numpy as np
from scipy import special

def grids(S, scales):
    """Broadcastable global grids of a serial space (per axis)."""
    out = []
    for b in S.bases:
        g = S.dist.local_grids(b, scales=scales[b.first_axis(S.dist):b.last_axis(S.dist)+1] if hasattr(b, "first_axis") else scales)
        out.extend(g)
    return out

def frame(name, grids):
    """(cartesian positions, rows = unit vectors in Cartesian components), for grids (phi,r), (phi,theta), (phi,theta,r), (z,phi,r).

    Angles: x = r sin(theta) cos(phi), ..."""
    if name in ("disk", "annulus"):
        phi, r = grids
        o = 0*(phi + r)
        X = [r*np.cos(phi) + o, r*np.sin(phi) + o]
        E = [[-np.sin(phi)+o, np.cos(phi)+o], [np.cos(phi)+o, np.sin(phi)+o]]
        return X, E
    if name in ("cyl", "cylann"):
        z, phi, r = grids
        o = 0*(z + phi + r)
        X = [r*np.cos(phi)+o, r*np.sin(phi)+o, z+o]
        E = [[o, o, o+1], [-np.sin(phi)+o, np.cos(phi)+o, o], [np.cos(phi)+o, np.sin(phi)+o, o]]
        return X, E
    if name == "sphere":
        phi, theta = grids
        r = 1.0
    else:
        phi, theta, r = grids
    o = 0*(phi + theta + r)
    st, ct, sp, cp = np.sin(theta), np.cos(theta), np.sin(phi), np.cos(phi)
    X = [r*st*cp+o, r*st*sp+o, r*ct+o]
    ephi = [-sp+o, cp+o, o]
    eth = [ct*cp+o, ct*sp+o, -st+o]
    er = [st*cp+o, st*sp+o, ct+o]
    if name == "sphere":
        return X, [ephi, eth]
    return X, [ephi, eth, er]

def jacobi_n(n, a, b, z):
    """Jacobi polynomial with unit integral of its square against (1-z)^a (1+z)^b."""
    p = special.eval_jacobi(n, a, b, z)
    x, w = special.roots_jacobi(n + 1, a, b)
    nrm = np.sum(w * special.eval_jacobi(n, a, b, x)**2)
    p = p / np.sqrt(nrm)
    return p

def zernike_n(dim, n, k, l, r):
    """r^l P_n(2r^2-1) with unit integral of its square against (1-r^2)^k r^(dim-1) dr, 0<r<1; the radial sign is that of P_n at z=1 for k... """
    b = l + dim/2 - 1
    z = 2*r**2 - 1
    p = r**l * special.eval_jacobi(n, k, b, z)
    x, w = special.roots_jacobi(n + 1, k, b)      # weight (1-z)^k (1+z)^b
    # r^2=(1+z)/2, 1-r^2=(1-z)/2, r dr = dz/4 -> r^(2l) (1-r^2)^k r^(dim-1) dr = (1-z)^k (1+z)^b dz / 2^(k+b+2)
    nrm = np.sum(w * special.eval_jacobi(n, k, b, x)**2) / 2**(k + b + 2)
    return p / np.sqrt(nrm)

def legendre_n(l, m, ct):
    """Associated Legendre function with unit integral of its square over cos(theta), no Condon-Shortley sign, m>=0."""
    p = jacobi_n(l - m, m, m, ct) * (1 - ct**2)**(m/2)
    return p
