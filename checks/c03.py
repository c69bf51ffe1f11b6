"""C03: the processes' local data tile the global data exactly.

Every process of every small mesh is built (with a stand-in communicator answering topology questions only) and all its
layout descriptions are compared with the single-process ones."""
import itertools
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration on the implementation of every process of every mesh, layout, scale and domain, against the serial description"
NOTE = "All ranks of all meshes up to the bound are built from the real Distributor/Layout/Basis code; the communicator is replaced by one that answers topology queries in MPI's row-major order (the same numbering is exercised on real MPI in C04/C05)."
BOUND = {"quick": "meshes with entries 1..4 and at most 9 (2D) or 6 (3D) processes (plus a 3x3 one and one 16-process mesh larger than the data), sizes 1..8, scales {1/2, 1, 3/2, 2}, all layouts, all subsets of bases",
         "thorough": "the same with entries 1..5 and at most 25 processes, and more shapes"}
ASSUMPTIONS = ["MPI Cartesian communicators number processes in row-major order (checked against Open MPI in C04)"]
TIMEOUT = 800

def meshes(dim, tier):
    top, cap = (4, 9 if dim == 2 else 6) if tier == "quick" else (5, 25)
    out = []
    for r in range(1, dim):
        for m in itertools.product(range(1, top + 1), repeat=r):
            if m[-1] > 1 and np.prod(m) <= cap: out.append(m)
    if dim == 1: return []
    out.append((16,) if dim == 2 else (4, 4))
    if dim == 3 and (3, 3) not in out: out.append((3, 3))
    return out

def cases(tier, seed):
    out = []
    th = tier == "thorough"
    S2 = [(4, 3), (5, 4), (7, 1), (6, 6), (1, 8)] + ([(9, 5), (2, 2), (12, 7)] if th else [])
    for name in ["rf_cheb", "rf_none", "none_cheb", "rf_rf", "cheb_rf", "cheb_cheb"]:
        for sh in S2: out.append(dict(space=name, dtype="float64", shape=sh))
    for name in ["cf_cheb", "cf_cf"]:
        for sh in S2: out.append(dict(space=name, dtype="complex128", shape=sh))
    S3 = [(4, 4, 3), (5, 2, 4), (6, 3, 1)] + ([(8, 6, 5), (3, 9, 2)] if th else [])
    for name in ["rf_rf_cheb", "rf_none_cheb", "rf_rf_rf", "none_rf_none", "rf_rf_none"]:
        for sh in S3: out.append(dict(space=name, dtype="float64", shape=sh))
    for sh in S3: out.append(dict(space="cf_cf_cheb", dtype="complex128", shape=sh))
    curv = {"disk": [(4, 4), (8, 3), (12, 7), (1, 4)], "annulus": [(4, 4), (8, 3), (12, 5), (1, 4)],
            "sphere": [(4, 4), (8, 6), (12, 8), (1, 4)], "ball": [(4, 4, 4), (8, 6, 3), (12, 8, 4)], "shell": [(4, 4, 4), (8, 6, 3), (12, 8, 4)],
            "cyl": [(4, 4, 4), (5, 8, 3)], "cylann": [(4, 4, 4), (5, 8, 3)]}
    for name, shapes in curv.items():
        for dt in ("float64", "complex128"):
            for sh in shapes + ([tuple(2*s if s > 1 else 1 for s in shapes[0])] if th else []):
                out.append(dict(space=name, dtype=dt, shape=sh))
    return out

def ma_equal(a, b):
    am, bm = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    return a.shape == b.shape and (am == bm).all() and bool(np.all(np.ma.filled(a, -99) == np.ma.filled(b, -99)))

def run_case(case, rec):
    from mc import spaces, fakempi
    import dedalus.public as d3
    name, dtype, shape = case["space"], case["dtype"], tuple(case["shape"])
    S0 = spaces.make(name, dtype, shape, dealias=1.5)
    dim = S0.dim
    L0 = {tuple(l.grid_space): l for l in S0.dist.layouts}
    scale_menu = [(1,)*dim, (1.5,)*dim, (0.5,)*dim, (2,) + (1,)*(dim - 1), (1,)*(dim - 1) + (2,)]
    nb = len(S0.bases)
    subsets = [s for r in range(nb + 1) for s in itertools.combinations(range(nb), r)]
    for mesh in meshes(dim, rec.tier):
        size = int(np.prod(mesh))
        try:
            procs = [spaces.make(name, dtype, shape, dealias=1.5, comm=fakempi.FakeComm(size, r), mesh=mesh) for r in range(size)]
        except Exception as e:
            rec.violate("build", f"{name} {shape} mesh {mesh}: {type(e).__name__}: {e}")
            continue
        rec.trace()
        check_dists(rec, f"{name} {shape} mesh {mesh}", procs, mesh)
        for sub in subsets:
            doms = [P.dist.Field(bases=tuple(P.bases[i] for i in sub) or None).domain for P in procs]
            dom0 = S0.dist.Field(bases=tuple(S0.bases[i] for i in sub) or None).domain
            for scales in scale_menu:
                for li in range(len(procs[0].dist.layouts)):
                    check_layout(rec, case, mesh, procs, doms, S0, dom0, L0, scales, li, sub)
            if sub == tuple(range(nb)):
                for scales in scale_menu:
                    check_grids(rec, f"{name} {dtype} {shape} mesh {mesh} scales {scales}", procs, S0, scales)
        check_maps(rec, f"{name} {dtype} {shape} mesh {mesh}", procs, S0, mesh)
    if not meshes(dim, rec.tier): pass
    rec.sample(f"{name} {shape}: {len(meshes(dim, rec.tier))} meshes")

def check_dists(rec, tag, procs, mesh):
    """Successive layouts differ by one transform of a local axis or one transpose of adjacent axes."""
    seen = set()
    for P in procs:
        lay = P.dist.layouts
        D = P.dist.dim; R = sum(m > 1 for m in mesh)
        rec.check(len(lay) == D + R + 1, "layouts", tag)
        rec.check(not lay[0].grid_space.any() and lay[-1].grid_space.all(), "layouts", tag)
        for a, b in zip(lay, lay[1:]):
            dg = (a.grid_space != b.grid_space); dl = (a.local != b.local)
            ok = (dg.sum() == 1 and not dl.any() and a.local[np.argmax(dg)]) or (not dg.any() and dl.sum() == 2 and abs(np.diff(np.where(dl)[0])[0]) == 1)
            rec.check(ok, "layouts", f"{tag} {a.grid_space}{a.local} -> {b.grid_space}{b.local}")
            rec.check((~b.local).sum() == R, "layouts", tag)
        for l in lay:
            rec.check(int(np.prod(l.ext_mesh)) == len(procs), "layouts", tag)
        rec.check(tuple(lay[0].ext_coords) not in seen, "coords", tag); seen.add(tuple(lay[0].ext_coords))
        rec.check(P.dist.coeff_layout is lay[0] and P.dist.grid_layout is lay[-1], "layouts", tag)

def check_layout(rec, case, mesh, procs, doms, S0, dom0, L0, scales, li, sub):
    lays = [P.dist.layouts[li] for P in procs]
    l0 = L0[tuple(lays[0].grid_space)] if tuple(lays[0].grid_space) in L0 else None
    tag = f"{case['space']} {case['dtype']} {tuple(case['shape'])} bases {sub} mesh {mesh} scales {scales} layout {lays[0].grid_space.astype(int)}{lays[0].local.astype(int)}"
    dim = len(lays[0].local)
    G = tuple(int(x) for x in l0.global_shape(dom0, scales))
    rec.state((mesh, sub, scales, li))
    rec.check(all(tuple(l.global_shape(d, scales)) == G for l, d in zip(lays, doms)), "global-shape", tag)
    if lays[0].grid_space.all():
        rec.check(tuple(doms[0].grid_shape(scales)) == G, "grid-shape", tag)
    group = np.array(l0.group_shape(dom0))
    chunk = np.array(l0.chunk_shape(dom0))
    cover = np.zeros(G, dtype=int)
    garr = l0.global_group_arrays(dom0, scales)
    coeff = not l0.grid_space.any()    # validity only has a meaning for modes
    varr0 = l0.valid_elements((), dom0, scales) if coeff else None
    for r, (P, l, d) in enumerate(zip(procs, lays, doms)):
        rec.step()
        E = l.local_elements(d, scales)
        shp = tuple(l.local_shape(d, scales))
        sl = l.slices(d, scales)
        rec.check(tuple(len(e) for e in E) == shp, "local-shape", tag + f" rank {r}")
        for ax in range(dim):
            e = E[ax]
            rec.check(np.array_equal(e, np.arange(G[ax])[sl[ax]]), "slices", tag + f" rank {r} axis {ax}: elements {e} slice {sl[ax]}")
            if l.local[ax]: rec.check(len(e) == G[ax], "local-axis", tag + f" rank {r} axis {ax}")
            if len(e):
                rec.check(e[0] % chunk[ax] == 0 and (e[-1] + 1) % chunk[ax] == 0 or G[ax] % chunk[ax], "chunks", tag + f" rank {r} axis {ax}: {e}")
                # (with one azimuthal mode the sine part is only added in coefficient space)
                rec.check(G[ax] < group[ax] or e[0] % group[ax] == 0 and len(e) % group[ax] == 0, "groups", tag + f" rank {r} axis {ax}: group of {group[ax]} split by {e}")
        if all(shp): cover[np.ix_(*E)] += 1
        # asking for another process's part gives that process's part
        other = (r + 1) % len(procs)
        Eo = l.local_elements(d, scales, rank=other)
        Er = lays[other].local_elements(doms[other], scales)
        rec.check(all(np.array_equal(a, b) for a, b in zip(Eo, Er)), "rank-argument", tag + f" rank {r} about {other}")
        rec.check(tuple(l.local_shape(d, scales, rank=other)) == tuple(lays[other].local_shape(doms[other], scales)), "rank-argument", tag)
        if all(shp):
            la = l.local_group_arrays(d, scales)
            rec.check(ma_equal(la, garr[(slice(None),) + np.ix_(*E)]), "group-arrays", tag + f" rank {r}")
            if coeff: va = l.valid_elements((), d, scales)
            rec.check(not coeff or np.array_equal(va, varr0[np.ix_(*E)]), "valid-elements", tag + f" rank {r}")
        # broadcast: constant axes are present everywhere
        Eb = l.local_elements(d, scales, broadcast=True)
        for ax in range(dim):
            if d.full_bases[ax] is None:
                rec.check(len(Eb[ax]) == 1, "broadcast", tag + f" rank {r} axis {ax}")
            else:
                rec.check(np.array_equal(Eb[ax], E[ax]), "broadcast", tag + f" rank {r} axis {ax}")
        isz = np.dtype(P.dtype).itemsize
        rec.check(P.dist.buffer_size(d, scales, P.dtype) >= int(np.prod(shp))*isz, "buffer", tag + f" rank {r}")
    rec.check((cover == 1).all(), "tiling", tag + f": cover counts {np.unique(cover)}")
    # group sets over processes = global ones, and their slices select exactly their elements
    if scales == (1,)*dim and sub == tuple(range(len(S0.bases))):
        for coupling in itertools.product((True, False), repeat=dim):
            want = set()
            flat = garr.astype(object).reshape(dim, -1)
            keep = ~np.ma.getmaskarray(flat).any(axis=0)
            for k in np.where(keep)[0]:
                want.add(tuple(None if coupling[a] else int(flat[a, k]) for a in range(dim)))
            got = set()
            for r, (l, d) in enumerate(zip(lays, doms)):
                loc = l.local_groupsets(coupling, d, scales)
                loc = [tuple(None if x is None else int(x) for x in g) for g in loc]
                rec.check(len(set(loc)) == len(loc), "groupsets", tag)
                la = l.local_group_arrays(d, scales)
                for g in loc:
                    sel = np.ones(la[0].shape, bool)
                    for a in range(dim):
                        if g[a] is not None: sel &= np.ma.filled(la[a] == g[a], False)
                    hit = np.zeros(la[0].shape, int)
                    for s in l.local_groupset_slices(g, d, scales): hit[s] += 1
                    # slices may include padding elements but never another group's
                    bad = (hit > 0) & ~sel
                    for a in range(dim):
                        pass
                    valid = ~np.ma.getmaskarray(la[0])
                    rec.check((hit[sel] == 1).all(), "groupset-slices", tag + f" rank {r} group {g} elements missed or repeated")
                    rec.check(not (bad & valid).any(), "groupset-slices", tag + f" rank {r} group {g} includes elements of other groups")
                got |= set(loc)
            rec.check(got == want, "groupsets", tag + f" coupling {coupling}: missing {sorted(map(str, want - got))[:3]} extra {sorted(map(str, got - want))[:3]}")

def check_grids(rec, tag, procs, S0, scales):
    for bi, b0 in enumerate(S0.bases):
        ax0 = S0.dist.first_axis(b0)
        gg = b0.global_grids(S0.dist, scales[ax0:ax0 + b0.dim])
        lg0 = S0.dist.local_grids(b0, scales=scales)
        for a, b in zip(gg, lg0):
            rec.check(a.shape == b.shape and np.array_equal(a, b), "serial-grid", tag)
        for r, P in enumerate(procs):
            b = P.bases[bi]
            E = P.dist.grid_layout.local_elements(b.domain(P.dist), scales)
            lg = P.dist.local_grids(b, scales=scales)
            for k in range(b.dim):
                want = np.take(gg[k], E[ax0 + k], axis=ax0 + k)
                rec.check(lg[k].shape == want.shape and np.array_equal(lg[k], want), "grid", tag + f" rank {r} basis {bi} axis {k}")
            if b.dim == 1:
                rec.check(np.array_equal(P.dist.local_grid(b, scale=scales[ax0]), lg[0]), "grid", tag + f" rank {r} local_grid")
                if gg[0].size > 2:
                    sp = np.take(b0.global_grid_spacing(S0.dist, scale=scales[ax0]), E[ax0], axis=ax0)
                    rec.check(np.array_equal(b.local_grid_spacing(P.dist, scale=scales[ax0]), sp), "spacing", tag + f" rank {r}")
                Ec = P.dist.coeff_layout.local_elements(b.domain(P.dist), (1,)*P.dim)
                rec.check(np.array_equal(np.ravel(P.dist.local_modes(b)), Ec[ax0]), "modes", tag + f" rank {r}")
            else:
                for k in range(b.dim):
                    if gg[k].size > 2:
                        try:
                            g0 = b0.global_grid_spacing(S0.dist, k, scales=scales[ax0:ax0 + b0.dim])
                        except Exception as e:
                            rec.violate("spacing-error", f"{tag} axis {k}: {type(e).__name__}: {e}"); continue
                        want = np.take(g0, E[ax0 + k], axis=ax0 + k)
                        got = b.local_grid_spacing(P.dist, k, scales=scales[ax0:ax0 + b0.dim])
                        rec.check(got.shape == want.shape and np.array_equal(got, want), "spacing", tag + f" rank {r} axis {k}")
        rec.step()

def check_maps(rec, tag, procs, S0, mesh):
    """m_maps and ell_maps of curvilinear bases address exactly the local elements of each m or ell."""
    for bi, b0 in enumerate(S0.bases):
        sb = [getattr(P.bases[bi], "sphere_basis", P.bases[bi]) for P in procs]
        for r, (P, b) in enumerate(zip(procs, sb)):
            one = (1,)*P.dim
            if hasattr(b, "ell_maps"):
                ax = P.dist.first_axis(b)
                dom = b.domain(P.dist)
                try: maps = b.ell_maps(P.dist)
                except NotImplementedError: continue
                arr = P.dist.coeff_layout.local_group_arrays(dom, one, broadcast=True)
                ells = np.moveaxis(arr[ax + 1], (ax, ax + 1), (0, 1)).reshape(arr.shape[ax + 1], arr.shape[ax + 2], -1)[:, :, 0] if arr[0].size else np.ma.masked_array(np.zeros((0, 0)))
                hit = np.zeros(ells.shape, int)
                for ell, ms, es in maps:
                    blk = ells[ms, es]
                    rec.check(bool(np.all(np.ma.getmaskarray(blk) | (np.ma.filled(blk, ell) == ell))), "ell-maps", tag + f" rank {r} ell {ell} block {ms}{es} holds {np.unique(np.ma.compressed(blk))}")
                    hit[ms, es] += 1
                rec.check((hit[~np.ma.getmaskarray(ells)] == 1).all(), "ell-maps", tag + f" rank {r}: elements missed or repeated")
            if hasattr(b, "m_maps"):
                ax = P.dist.first_axis(b)
                dom = b.domain(P.dist)
                try: maps = b.m_maps(P.dist)
                except NotImplementedError: continue
                t = P.dist.get_transform_object(ax + 1)
                for lay, which in ((t.layout0, 2), (t.layout1, 1)):
                    E = lay.local_elements(dom, one, broadcast=True)
                    if not all(len(e) for e in E): continue
                    arr = lay.local_group_arrays(dom, one, broadcast=True)
                    mm = np.moveaxis(arr[ax], (ax, ax + 1), (0, 1)).reshape(arr.shape[ax + 1], arr.shape[ax + 2], -1)[:, :, 0]
                    hit = np.zeros(mm.shape, int)
                    for m, mg, mc, es in maps:
                        s = (mc, es) if which == 2 else (mg, slice(None))
                        blk = mm[s]
                        rec.check(bool(np.all(np.ma.getmaskarray(blk) | (np.ma.filled(blk, m) == m))), "m-maps", tag + f" rank {r} m {m}")
                        hit[s] += 1
                    rec.check((hit[~np.ma.getmaskarray(mm)] == 1).all(), "m-maps", tag + f" rank {r} layout {lay.grid_space}: elements missed or repeated")
