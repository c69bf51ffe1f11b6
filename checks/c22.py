"""C22: array kernels agree with their mathematical definition.

Every kernel is called on every shape, axis, dtype, sparsity pattern, memory layout and output choice up to a bound, with
guard elements around outputs, and compared with dense numpy algebra."""
import itertools, warnings
import numpy as np

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of all shapes, axes, dtypes, sparsity patterns, memory layouts and output aliasing choices up to a bound, run on the compiled kernels against dense algebra with guard regions"
NOTE = "Exhaustive in structure (shape, pattern, axis, dtype, layout, output); one pattern of integer-valued data per structure, so results are compared exactly or to rounding."
RULE = "a case is one (kernel, shape, axis, dtype, sparsity pattern, layout, output choice); all are non-trivial by construction (non-zero integer data, guards checked)"
BOUND = {"quick": "all sparsity patterns of matrices up to 3x3, arrays of rank 1-4 with sizes 0..3, all axes, 4 dtypes, C/transposed/strided layouts; permutations of up to 5 elements",
         "thorough": "all patterns up to 3x4 and 4x3, arrays of rank up to 5, permutations of up to 6 elements"}
ASSUMPTIONS = ["data values are small integers, one pattern per structure"]
TIMEOUT = 800
DT = ["float32", "float64", "complex64", "complex128"]

def cases(tier, seed):
    out = []
    shp = [(m, n) for m in range(0, 4) for n in range(0, 4)]
    if tier == "thorough": shp += [(3, 4), (4, 3), (1, 4), (4, 1), (2, 4), (4, 2)]
    for m, n in shp: out.append(dict(t="apply", m=m, n=n))
    for n in range(0, 4 if tier == "quick" else 5): out.append(dict(t="solve", n=n))
    out.append(dict(t="shapes", rank=4 if tier == "quick" else 5))
    out.append(dict(t="misc", n=5 if tier == "quick" else 6))
    out.append(dict(t="index"))
    out.append(dict(t="matvec"))
    out.append(dict(t="reject"))
    out.append(dict(t="matsolvers"))
    out.append(dict(t="clenshaw"))
    out.append(dict(t="transpose_kernels", n=4 if tier == "quick" else 5))
    return out

def data(shape, dtype, salt=0):
    n = int(np.prod(shape))
    x = (np.arange(n)*7 + 3 + salt) % 11 - 5
    if np.dtype(dtype).kind == "c": x = x + 1j*((np.arange(n)*5 + salt) % 7 - 3)
    return x.astype(dtype).reshape(shape)

def ref_apply(M, a, axis):
    return np.moveaxis(np.tensordot(M, a, axes=(1, axis)), 0, axis)

def layouts(shape, dtype, salt=0, which=("C", "T", "S", "O")):
    """The same values in several memory layouts."""
    base = data(shape, dtype, salt)
    out = []
    for k in which:
        if k == "C": out.append((k, base.copy()))
        elif k == "T" and len(shape) > 1:
            out.append((k, np.array(base.T, order="C").T))
        elif k == "S":
            big = np.full(tuple(2*s + 1 for s in shape), 99, dtype=dtype)
            v = big[tuple(slice(1, None, 2) for _ in shape)]
            v[...] = base; out.append((k, v))
        elif k == "O":        # offset sub-block
            big = np.full(tuple(s + 2 for s in shape), 99, dtype=dtype)
            v = big[tuple(slice(1, -1) for _ in shape)]
            v[...] = base; out.append((k, v))
    return out

class Guarded:
    """An output array inside a larger one whose surroundings must not change."""
    def __init__(self, shape, dtype, layout):
        self.layout = layout
        if layout == "C":
            self.n = int(np.prod(shape))
            self.big = np.full(self.n + 16, 77, dtype=dtype)
            self.out = self.big[8:8 + self.n].reshape(shape)
            assert np.shares_memory(self.out, self.big) or self.n == 0
            self.mask = np.ones(self.n + 16, bool); self.mask[8:8 + self.n] = False
        else:
            step = 2 if layout == "S" else 1
            self.big = np.full(tuple(step*s + 2 for s in shape), 77, dtype=dtype)
            sl = tuple(slice(1, 1 + step*s, step) for s in shape)
            self.mask = np.ones(self.big.shape, bool); self.mask[sl] = False
            self.out = self.big[sl]
    def intact(self):
        return bool((self.big[self.mask] == 77).all())

def patterns(m, n):
    for bits in itertools.product([0, 1], repeat=m*n):
        P = np.array(bits, int).reshape(m, n)
        vals = (np.arange(m*n).reshape(m, n)*3 + 2) % 7 - 3
        vals[vals == 0] = 4
        yield P * vals

def try_call(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: return f(*a, **k), None
        except (ValueError, TypeError, IndexError, NotImplementedError, BufferError) as e: return None, e

def run_case(case, rec):
    globals()["run_" + case["t"]](case, rec)
    rec.sample(str(case))

def check_apply(rec, array, M, sp_M, a, axis, tag, kind, out_layouts=(None, "C", "S"), must=True):
    dt = a.dtype
    want = ref_apply(M.astype(dt), a, axis)
    for ol in out_layouts:
        rec.step()
        rec.nontriv()
        keep = a.copy()
        if ol is None:
            f = array.apply_dense if kind == "dense" else array.apply_sparse
            got, err = try_call(f, M.astype(dt) if kind == "dense" else sp_M, a, axis)
            out = got
        else:
            g = Guarded(want.shape, dt, ol)
            got, err = try_call(array.apply_matrix, M.astype(dt) if kind == "dense" else sp_M, a, axis, out=g.out)
            out = g.out
            rec.check(g.intact(), "guard", f"{kind} {tag} out {ol}: wrote outside its output")
            if err is None and got is not None: rec.check(got is g.out or np.shares_memory(got, g.out) or got.size == 0, "returned", f"{kind} {tag}")
        rec.check(np.array_equal(a, keep), "input-changed", f"{kind} {tag} out {ol}")
        if err is not None:
            rec.check(not must or (kind == "sparse" and ol not in (None, "C")), "rejected", f"{kind} {tag} out {ol}: {type(err).__name__}: {err}")
        else:
            rec.check(out.shape == want.shape and np.array_equal(out, want), "apply", f"{kind} {tag} out {ol}: got {np.array(out).ravel()[:6]} expected {want.ravel()[:6]}")

def run_apply(case, rec):
    from dedalus.tools import array
    from scipy import sparse
    m, n = case["m"], case["n"]
    shapes = [(n,), (n, 2), (2, n), (n, 1), (1, n), (2, n, 2), (1, n, 1), (1, n, 2), (2, n, 1), (n, 2, 1), (2, 1, n)]
    for k, M in enumerate(patterns(m, n)):
        for dt in (DT if k % 5 == 0 or m*n <= 4 else ["float64", "complex128"]):
            S = sparse.csr_matrix(M.astype(dt))
            for shape in shapes:
                axis = [i for i, s in enumerate(shape) if s == n and (i > 0 or len(shape) == 1 or shape[0] == n)]
                for ax in set(i for i, s in enumerate(shape) if s == n):
                    for lay, a in layouts(shape, dt, k, ("C", "T") if k % 7 else ("C", "T", "S")):
                        check_apply(rec, array, M, S, a, ax, f"{M.tolist()} on {shape} axis {ax} {dt} {lay}", "sparse", (None, "C") if k % 7 else (None, "C", "S"))
            if k % 4 == 0:
                a = data((n, 2), dt); check_apply(rec, array, M, S, a, 0, f"{M.tolist()}", "dense")
                a = data((2, n, 2), dt); check_apply(rec, array, M, S, a, 1, f"{M.tolist()}", "dense"); check_apply(rec, array, M, S, a, -2, f"{M.tolist()}", "dense", (None, "C"))
        rec.state(M.tolist())
        # duplicates and unsorted indices mean their sum
        if m*n and k % 3 == 0:
            r, c = np.nonzero(M); v = M[r, c]
            C = sparse.csr_matrix((np.concatenate([v, v]).astype(float), (np.concatenate([r, r]), np.concatenate([c, c]))), shape=(m, n))
            check_apply(rec, array, 2*M, C, data((n, 2), "float64"), 0, f"2*{M.tolist()}", "sparse", (None,))
            # an explicitly stored zero and reversed column order
            rows = [np.arange(n)[::-1] for _ in range(m)]
            U = sparse.csr_matrix((np.array([M[i, j] for i in range(m) for j in rows[i]], float), np.array([j for i in range(m) for j in rows[i]], np.int32), np.arange(m + 1, dtype=np.int32)*n), shape=(m, n))
            check_apply(rec, array, M, U, data((n, 2), "float64"), 0, f"unsorted {M.tolist()}", "sparse", (None,))

def run_shapes(case, rec):
    """Every array shape with sizes 0..3 up to a rank, every axis, dense and sparse."""
    from dedalus.tools import array
    from scipy import sparse
    for rank in range(1, case["rank"] + 1):
        sizes = (0, 1, 2, 3) if rank < 4 else (1, 2, 3) if rank == 4 else (1, 2)
        for shape in itertools.product(sizes, repeat=rank):
            for ax in range(rank):
                n = shape[ax]
                for m in (0, 1, 3):
                    M = (np.arange(m*n).reshape(m, n)*3 + 1) % 5 - 2
                    for dt in ("float64", "complex128"):
                        for lay, a in layouts(shape, dt, m, ("C", "T", "S") if rank < 4 else ("C", "T")):
                            S = sparse.csr_matrix(M.astype(dt))
                            check_apply(rec, array, M, S, a, ax, f"{m}x{n} on {shape} axis {ax} {dt} {lay}", "sparse", (None, "C", "S") if rank < 4 else (None, "C"))
                            check_apply(rec, array, M, S, a, ax, f"{m}x{n} on {shape} axis {ax} {dt} {lay}", "dense", (None, "C", "S") if rank < 4 else (None, "C"))
                            if dt == "complex128" and lay == "C" and rank < 4:      # real matrix on complex data
                                check_apply(rec, array, M, sparse.csr_matrix(M.astype(float)), a, ax, f"real {m}x{n} on {shape} axis {ax}", "sparse", (None, "C"))
                                want = ref_apply(M, a, ax)
                                e = array.apply_dense_einsum(M.astype(float), a, ax)
                                rec.check(e.shape == want.shape and np.allclose(e, want), "einsum", f"{m}x{n} {shape} {ax}")
                                d = array.apply_sparse_dot(sparse.csr_matrix(M.astype(float)), a, ax)
                                rec.check(d.shape == want.shape and np.allclose(d, want), "sparse-dot", f"{m}x{n} {shape} {ax}")
                # in place with a square matrix
                M = (np.arange(n*n).reshape(n, n)*3 + 1) % 5 - 2
                a = data(shape, "float64"); want = ref_apply(M, a, ax); b = a.copy()
                got = array.apply_matrix(M.astype(float), b, ax, out=b)
                rec.check(np.array_equal(b, want), "in-place", f"dense {shape} axis {ax}"); rec.step()
                b = a.copy()
                got, err = try_call(array.apply_sparse, sparse.csr_matrix(M.astype(float)), b, ax, out=b)
                rec.check(err is not None and np.array_equal(a, b), "in-place", f"sparse {shape} axis {ax}: accepted in place"); rec.step()
                # moves and permutations of axes
                for d in range(rank):
                    rec.check(np.array_equal(array.move_single_axis(a, ax, d), np.moveaxis(a, ax, d)), "moveaxis", f"{shape} {ax} {d}")
        rec.state(rank)

def run_solve(case, rec):
    from dedalus.tools import array
    from scipy import sparse
    n = case["n"]
    upper = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for bits in itertools.product([0, 1], repeat=len(upper)):
        U = np.diag([2.0**((i % 3) - 1) * (-1)**i for i in range(n)]) if n else np.zeros((0, 0))
        for b, (i, j) in zip(bits, upper):
            if b: U[i, j] = (i + 2*j) % 5 - 2 or 3
        shapes = [(n,), (n, 2), (2, n), (n, 1), (1, n), (3, n, 2), (1, n, 1), (1, n, 2), (2, n, 1), (n, 2, 3), (2, 3, n), (2, 1, n, 2), (n, 0), (0, n), (0, n, 2)]
        for dt in DT:
            for shape in shapes:
                for ax in set(i for i, s in enumerate(shape) if s == n):
                    x = data(shape, dt, 1)
                    rhs = ref_apply(U.astype(dt), x, ax).astype(dt)
                    for form in ("csr", "dup", "unsorted"):
                        if form != "csr" and (dt not in ("float64",) or len(shape) > 2): continue
                        r, c = np.nonzero(U); v = U[r, c].astype(dt)
                        if form == "dup":
                            # 4x the value as 3 + 1 parts, repeated entries
                            S = sparse.csr_matrix((np.concatenate([0.75*v, 0.25*v]).astype(dt), np.concatenate([c, c])[np.argsort(np.concatenate([r, r]), kind="stable")].astype(np.int32), np.concatenate([[0], np.cumsum(2*np.bincount(r, minlength=n))]).astype(np.int32)), shape=(n, n))
                            d = np.concatenate([0.75*v, 0.25*v])[np.argsort(np.concatenate([r, r]), kind="stable")].astype(dt); S.data[:] = d
                        elif form == "unsorted":
                            S = sparse.csr_matrix((v, (r, c)), shape=(n, n))
                            ip = S.indptr; idx = S.indices.copy(); dd = S.data.copy()
                            for i in range(n):
                                idx[ip[i]:ip[i+1]] = idx[ip[i]:ip[i+1]][::-1]; dd[ip[i]:ip[i+1]] = dd[ip[i]:ip[i+1]][::-1]
                            S = sparse.csr_matrix((dd, idx, ip.copy()), shape=(n, n))
                        else: S = sparse.csr_matrix((v, (r, c)), shape=(n, n))
                        if form != "csr" and not (abs(S.toarray() - U) < 1e-12).all(): raise AssertionError("harness")
                        for ol in ("none", "same", "C", "T", "S"):
                            if ol in ("T", "S") and (sum(bits) % 2 or dt[-2:] == "32"): continue
                            rec.step(); rec.nontriv()
                            tag = f"{U.tolist()} on {shape} axis {ax} {dt} {form} out {ol}"
                            S2 = S.copy() if form == "csr" else S
                            if ol == "none":
                                b = rhs.copy(); got, err = try_call(array.solve_upper_sparse, S2, b, ax); out = got
                                rec.check(np.array_equal(b, rhs), "solve-rhs-changed", tag)
                                if err is None and not rec.check(got is not None, "solve-returns", tag + ": returns nothing"): continue
                                must = True
                            elif ol == "same":
                                b = rhs.copy(); got, err = try_call(array.solve_upper_sparse, S2, b, ax, out=b); out = b; must = True
                            elif ol == "C":
                                g = Guarded(shape, dt, "C"); got, err = try_call(array.solve_upper_sparse, S2, rhs.copy(), ax, out=g.out); out = g.out; must = True
                                rec.check(g.intact(), "guard", tag)
                            else:
                                b = dict(layouts(shape, dt, 0, (ol,))).get(ol)
                                if b is None: continue
                                b[...] = rhs
                                got, err = try_call(array.solve_upper_sparse, S2, b, ax, out=b); out = b; must = False
                            if err is not None: rec.check(not must, "solve-rejected", f"{tag}: {type(err).__name__}: {err}")
                            else: rec.close(out, x, "solve", tag, rtol=1e-4 if dt in ("float32", "complex64") else 1e-11, atol=1e-4 if dt in ("float32", "complex64") else 1e-11)
        rec.state(bits)

def run_matvec(case, rec):
    from dedalus.tools import array
    from scipy import sparse
    for m, n in itertools.product(range(0, 4), repeat=2):
        for k, M in enumerate(patterns(m, n)):
            if m*n > 6 and k % 5: continue
            for dt in ("float64", "complex128"):
                S = sparse.csr_matrix(M.astype(dt)); x = data((n,), dt); o = data((m,), dt, 3)
                want = o + M.astype(dt) @ x
                rec.step(); rec.nontriv()
                got = array.csr_matvec(S, x, o); rec.check(got is o and np.array_equal(o, want), "matvec", f"{M.tolist()}")
                for kx in range(0, 3):
                    x = data((n, kx), dt); o = data((m, kx), dt, 3); want = o + M.astype(dt) @ x
                    got = array.csr_matvecs(S, x, o); rec.check(np.array_equal(o, want), "matvecs", f"{M.tolist()} {kx}"); rec.step()
            rec.state(M.tolist())
        # wrong shapes and formats
        S = sparse.csr_matrix(np.ones((m, n)))
        for dm, dn in itertools.product((-1, 0, 1), repeat=2):
            if (dm, dn) == (0, 0) or m + dm < 0 or n + dn < 0: continue
            _, err = try_call(array.csr_matvec, S, np.ones(n + dn), np.ones(m + dm)); rec.check(err is not None, "reject", f"matvec {m}x{n} {dm} {dn}")
            _, err = try_call(array.csr_matvecs, S, np.ones((n + dn, 2)), np.ones((m + dm, 2))); rec.check(err is not None, "reject", f"matvecs {m}x{n} {dm} {dn}")
        _, err = try_call(array.csr_matvecs, S, np.ones((n, 2)), np.ones((m, 3))); rec.check(err is not None, "reject", "matvecs columns")
        _, err = try_call(array.csr_matvec, S.tocsc(), np.ones(n), np.ones(m)); rec.check(err is not None, "reject", "matvec csc")
        _, err = try_call(array.csr_matvec, S, np.ones((n, 1)), np.ones(m)); rec.check(err is not None, "reject", "matvec 2d")
        rec.step(12)

def run_reject(case, rec):
    """Arguments the kernels do not support raise when shapes are checked, and never give a wrong result."""
    from dedalus.tools import array
    from scipy import sparse
    for rank in (1, 2, 3):
        for shape in itertools.product((1, 2, 3), repeat=rank):
            a = data(shape, "float64")
            for m, n in itertools.product((1, 2, 3), repeat=2):
                M = np.arange(m*n).reshape(m, n) % 4 + 1.0
                S = sparse.csr_matrix(M)
                for ax in range(-rank - 1, rank + 2):
                    rec.step(); rec.nontriv()
                    ok = 0 <= ax < rank and shape[ax] == n
                    got, err = try_call(array.apply_sparse, S, a, ax, check_shapes=True)
                    rec.check(ok == (err is None), "reject", f"apply_sparse {m}x{n} on {shape} axis {ax}: {err}")
                    if err is None: rec.check(np.allclose(got, ref_apply(M, a, ax)), "apply", f"checked {m}x{n} on {shape} axis {ax}")
                    if ok:
                        for mm in (1, 2, 3):
                            o = list(shape); o[ax] = mm
                            o = np.zeros(o)
                            got, err = try_call(array.apply_sparse, S, a, ax, out=o, check_shapes=True)
                            rec.check((err is None) == (mm == m), "reject", f"apply_sparse {m}x{n} on {shape} axis {ax} into {o.shape}: {err}")
                    if m == n:
                        T = sparse.csr_matrix(np.triu(M))
                        ok2 = 0 <= ax < rank and shape[ax] == n
                        got, err = try_call(array.solve_upper_sparse, T, a, ax, check_shapes=True)
                        rec.check(ok2 == (err is None), "reject", f"solve {n} on {shape} axis {ax}: {err}")
                    if -rank <= ax < rank:
                        got, err = try_call(array.apply_dense, M, a, ax)
                        ok3 = shape[ax] == n
                        if rank == 1 and not ok3: rec.check(err is not None, "reject", f"dense {m}x{n} on {shape}")
                        elif ok3: rec.check(err is None and np.allclose(got, ref_apply(M, a, ax % rank)), "apply", f"dense {m}x{n} on {shape} axis {ax}")
                        else: rec.check(err is not None, "reject", f"dense {m}x{n} on {shape} axis {ax}")
    M = np.array([[1, 2j], [0, 1]])
    for conv in (sparse.csr_matrix, sparse.csc_matrix, sparse.coo_matrix, sparse.lil_matrix):
        for fn in (array.apply_sparse, array.solve_upper_sparse):
            got, err = try_call(fn, conv(np.array([[1., 2.], [0., 1.]])), np.array([1., 2.]), 0)
            rec.check((err is None) == (conv is sparse.csr_matrix), "reject", f"{fn.__name__} {conv.__name__}: {err}")
            # a complex matrix on real data is refused or answered in complex numbers, not silently truncated
            got, err = try_call(fn, sparse.csr_matrix(M), np.array([1., 2.]), 0)
            want = M @ [1, 2] if fn is array.apply_sparse else np.linalg.solve(M, [1, 2])
            rec.check(err is not None or (got is not None and np.allclose(got, want)), "complex-on-real", f"{fn.__name__}: complex matrix on real data gave {got}, expected {want}")
            o = np.zeros(2)
            got, err = try_call(fn, sparse.csr_matrix(M), np.array([1., 2.]), 0, out=o)
            rec.check(err is not None or np.allclose(o, want), "complex-on-real", f"{fn.__name__}: complex matrix into real output gave {o}")
            rec.step(3)
    for bad in (np.ones((2, 2)), np.ones(2), np.ones(2, np.complex64)):
        got, err = try_call(array.interleaved_view, bad); rec.check(err is not None, "reject", "interleaved_view")
    got, err = try_call(array.axindex, -1, 0); rec.check(err is not None, "reject", "axindex")
    rec.state("reject")

def run_index(case, rec):
    from dedalus.tools import array
    for rank in range(1, 5):
        for shape in itertools.product((1, 2, 3), repeat=rank):
            a = data(shape, "complex128")
            for ax in range(rank):
                for i in range(-shape[ax], shape[ax]):
                    rec.check(np.array_equal(a[array.axindex(ax, i)], np.take(a, i, axis=ax)), "axindex", f"{shape} {ax} {i}"); rec.step()
                for st, sp, step in itertools.product((None, 0, 1, -1), (None, 1, 2, -1), (None, 1, 2, -1)):
                    want = np.moveaxis(np.moveaxis(a, ax, 0)[st:sp:step], 0, ax)
                    rec.check(np.array_equal(a[array.axslice(ax, st, sp, step)], want), "axslice", f"{shape} {ax} {st}:{sp}:{step}"); rec.step(); rec.nontriv()
            v = array.interleaved_view(a)
            rec.check(v.shape == shape + (2,) and np.shares_memory(v, a) and np.array_equal(v[..., 0], a.real) and np.array_equal(v[..., 1], a.imag), "interleaved", f"{shape}")
            v[..., 1] = 5; rec.check((a.imag == 5).all(), "interleaved", f"{shape}: not a view")
    for n in range(0, 4):
        for dim in range(1, 4):
            for ax in list(range(dim)) + [-1]:
                v = array.reshape_vector(np.arange(n), dim=dim, axis=ax)
                want = [1]*dim; want[ax] = n
                rec.check(v.shape == tuple(want) and np.array_equal(v.ravel(), np.arange(n)), "reshape_vector", f"{n} {dim} {ax}"); rec.step()
    got, err = try_call(array.interleaved_view, data((2, 3), "complex128").T)
    rec.check(err is not None or np.array_equal(got[..., 0], data((2, 3), "complex128").T.real), "interleaved-strided", "transposed array viewed with its elements in another order")
    got, err = try_call(array.interleaved_view, data((6,), "complex128")[::2])
    rec.check(err is not None or np.array_equal(got[..., 0], data((6,), "complex128")[::2].real), "interleaved-strided", "strided array viewed with other elements")
    rec.state("index")

def run_misc(case, rec):
    from dedalus.tools import array
    from scipy import sparse
    N = case["n"]
    for n in range(0, N + 1):
        for perm in itertools.permutations(range(n)):
            p = np.array(perm, int)
            rec.step(); rec.nontriv()
            x = np.arange(n)*3 + 1
            for sps in (True, False):
                A = array.perm_matrix(p, sparse=sps); A = A.toarray() if sps else A
                want = np.zeros((n, n), int)
                for j in range(n): want[p[j], j] = 1
                rec.check(np.array_equal(A, want), "perm_matrix", f"{perm}")
                B = array.perm_matrix(p, source_index=True, sparse=sps); B = B.toarray() if sps else B
                rec.check(np.array_equal(B @ x if n else x, x[p] if n else x) and np.array_equal(B, want.T), "perm_matrix", f"{perm} source")
            for shape, ax in (((n,), 0), ((n, 2), 0), ((2, n), 1), ((2, n, 2), 1)):
                if n > 4 and len(shape) > 2: continue
                a = data(shape, "float64"); want = np.take(a, p, axis=ax)
                rec.check(np.array_equal(array.permute_axis(a, ax, p), want), "permute_axis", f"{shape} {perm}")
                o = Guarded(shape, "float64", "S"); array.permute_axis(a, ax, p, out=o.out)
                rec.check(np.array_equal(o.out, want) and o.intact(), "permute_axis", f"{shape} {perm} out")
                b = a.copy(); array.permute_axis(b, ax, p, out=b); rec.check(np.array_equal(b, want), "permute_axis", f"{shape} {perm} in place")
        # injections into a larger space
        for M in (n, n + 1, n + 2):
            for sub in itertools.permutations(range(M), min(n, 3)):
                A = array.perm_matrix(np.array(sub, int), M=M).toarray()
                want = np.zeros((M, len(sub)), int)
                for j, i in enumerate(sub): want[i, j] = 1
                rec.check(np.array_equal(A, want), "perm_matrix", f"{sub} into {M}"); rec.step()
        rec.state(n)
    blocks_menu = [np.zeros((0, 0)), np.zeros((0, 2)), np.zeros((2, 0)), np.ones((1, 1))*3, np.array([[1, 0], [0, 2.]]), np.array([[0, 5.]]), np.zeros((1, 2)), np.array([[1 + 2j], [3]])]
    # every small shape, with and without entries
    blocks_menu += [np.zeros(sh) for sh in ((1, 1), (2, 1), (2, 2), (0, 1), (1, 0), (3, 1))] + [np.array([[0], [7.], [0]]), np.array([[0, 0], [0, 4.]])]
    for k in range(0, 4):
        for bl in itertools.product(range(len(blocks_menu)), repeat=k):
            B = [blocks_menu[i] for i in bl]
            rows = sum(b.shape[0] for b in B); cols = sum(b.shape[1] for b in B)
            want = np.zeros((rows, cols), complex); i = j = 0
            for b in B: want[i:i+b.shape[0], j:j+b.shape[1]] = b; i += b.shape[0]; j += b.shape[1]
            for conv in (lambda b: b, sparse.csr_matrix):
                A = array.sparse_block_diag([conv(b) for b in B])
                rec.check(A.shape == want.shape and np.array_equal(A.toarray(), want), "block_diag", f"{bl}"); rec.step(); rec.nontriv()
            A = array.sparse_block_diag([sparse.csr_matrix(b) for b in B], shape=(rows + 2, cols + 1))
            rec.check(A.shape == (rows + 2, cols + 1) and np.array_equal(A.toarray()[:rows, :cols], want) and A.nnz == np.count_nonzero(want), "block_diag", f"{bl} with shape")
            if k >= 1 and all(b.shape == B[0].shape and min(b.shape) > 0 for b in B):
                A = array.interleave_matrices([sparse.csr_matrix(b) for b in B]); A = A.toarray()
                m, n = B[0].shape; want = np.zeros((m*k, n*k), complex)
                for q, b in enumerate(B): want[q::k, q::k] = b
                rec.check(A.shape == want.shape and np.array_equal(A, want), "interleave", f"{bl}")
            if k >= 1:
                want = np.identity(1)
                for b in B: want = np.kron(want, b)
                rec.check(np.array_equal(array.kron(*B), want), "kron", f"{bl}")
    rec.check(np.array_equal(array.kron(), np.identity(1)), "kron", "empty")
    for n in range(0, 4):
        want = np.identity(1)
        for _ in range(n): want = np.kron(want, np.array([[1, 2], [3, 4]]))
        rec.check(np.array_equal(array.nkron(np.array([[1, 2], [3, 4]]), n), want), "nkron", f"{n}")
    pats = [p for p in patterns(2, 3)][::3]
    for A, B in itertools.product(pats, repeat=2):
        rec.step(); rec.nontriv()
        SA, SB = sparse.csr_matrix(A.astype(float)), sparse.csr_matrix(B.astype(float))
        Z = array.zeros_with_pattern(SA, SB).tocsr()
        S = set(zip(*Z.tocoo().coords)) if hasattr(Z.tocoo(), "coords") else set(zip(Z.tocoo().row, Z.tocoo().col))
        rec.check(Z.shape == (2, 3) and not Z.toarray().any() and {(int(i), int(j)) for i, j in S} == {(int(i), int(j)) for i, j in zip(*np.nonzero((A != 0) | (B != 0)))}, "zeros_with_pattern", f"{A.tolist()} {B.tolist()}")
        E = array.expand_pattern(SA, Z).tocsr(); E.sum_duplicates()
        rec.check(np.array_equal(E.toarray(), A) and E.nnz == Z.nnz, "expand_pattern", f"{A.tolist()} {B.tolist()}")
        if np.array_equal(A, B):
            D = array.drop_empty_rows(SA); keep = A.any(axis=1)
            rec.check(D.shape == (keep.sum(), 3) and np.array_equal(D.toarray(), A[keep]), "drop_empty_rows", f"{A.tolist()}")
        rec.check(np.array_equal(array.add_sparse(SA, SB).toarray(), A + B), "add_sparse", f"{A.tolist()} {B.tolist()}")
        rec.check(array.sparse_allclose(SA, SB) == np.array_equal(A, B) if SA.nnz == SB.nnz else True, "sparse_allclose", f"{A.tolist()} {B.tolist()}")
    for A in patterns(2, 2):
        S = sparse.csr_matrix(A.astype(float))
        for c in (0, 1, -2.5):
            rec.check(np.array_equal(array.add_sparse(S, c).toarray(), A + c*np.eye(2)) and np.array_equal(array.add_sparse(c, S).toarray(), A + c*np.eye(2)), "add_sparse", f"{A.tolist()} {c}")
            rec.check(array.add_sparse(c, 2) == c + 2, "add_sparse", "scalars"); rec.step()
    # ordered sets, sorting, oscillation and other small tools used for iteration order
    from dedalus.tools import general
    for n in range(0, 5):
        for seq in itertools.product("abc", repeat=n):
            want = list(dict.fromkeys(seq))
            for cut in range(n + 1):
                rec.check(list(general.OrderedSet(seq[:cut], seq[cut:])) == want, "OrderedSet", f"{seq} {cut}"); rec.step()
            rec.check(list(general.rev_enumerate(seq)) == [(i, seq[i]) for i in range(n - 1, -1, -1)], "rev_enumerate", f"{seq}")
            if n:
                got, err = try_call(general.unify, seq); rec.check((err is None) == (len(set(seq)) == 1), "unify", f"{seq}")
    for n in range(2, 5):
        for p in (1, 2, 3):
            want = (list(range(n)) + list(range(n - 2, 0, -1)))*p
            rec.check(list(general.oscillate(list(range(n)), max_passes=p)) == want and list(general.oscillate(range(n), max_passes=p)) == want, "oscillate", f"{n} {p}")
    names = [f"f_s{i}" for i in (1, 2, 3, 9, 10, 11, 20, 100, 101)] + ["f_s02"]
    for sub in itertools.combinations(names[:-1], 4):
        for pm in itertools.permutations(sub):
            want = sorted(sub, key=lambda s: int(s[3:]))
            rec.check(general.natural_sort(pm) == want and general.natural_sort(pm, reverse=True) == want[::-1], "natural_sort", f"{pm}"); rec.step()

def run_matsolvers(case, rec):
    """Every matrix solver returns A^-1 b (and its adjoint where offered) for every small invertible pattern."""
    from dedalus.libraries import matsolvers
    from scipy import sparse
    names = sorted(k for k in matsolvers.matsolvers if k != 'dummysolver')     # the dummy solver is documented to return zeros
    for name in names:
        cls = matsolvers.matsolvers[name]
        for n in (1, 2, 3):
            for k, P in enumerate(patterns(n, n)):
                if n == 3 and k % 6: continue
                for dt in ("float64", "complex128"):
                    A = P.astype(dt) + (1j*np.triu(P, 1).T if dt[0] == "c" else 0)
                    if abs(np.linalg.det(A)) < 1e-9: continue
                    if "banded" in name.lower() or "spqr" in name.lower() or "umf" in name.lower(): pass
                    S = sparse.csr_matrix(A)
                    for shape in ((n,), (n, 2)):
                        b = data(shape, dt)
                        rec.step(); rec.nontriv()
                        try: sol = cls(S.copy())
                        except (ImportError, ModuleNotFoundError, NotImplementedError, AttributeError, NameError): continue
                        except Exception as e:
                            if "woodbury" in name: continue      # needs a subproblem: decided in C19
                            if "Block" in name or "block" in name or "Woodbury" in name: continue
                            rec.violate("matsolver-build", f"{name} {A.tolist()}: {type(e).__name__}: {e}"); continue
                        x, err = try_call(sol.solve, b.copy())
                        if err is not None:
                            if len(shape) == 2: continue
                            rec.violate("matsolver-solve", f"{name} {A.tolist()} {shape}: {err}"); continue
                        rec.close(np.reshape(x, shape), np.linalg.solve(A, b), "matsolver", f"{name} {A.tolist()} {shape}", rtol=1e-9, atol=1e-9)
                        if hasattr(sol, "solve_H"):
                            try: y = sol.solve_H(b.copy())
                            except (NotImplementedError, AttributeError): continue
                            except Exception as e:
                                if len(shape) == 1: rec.violate("matsolver-adjoint-error", f"{name}: {type(e).__name__}: {e}")
                                continue
                            rec.close(y, np.linalg.solve(A.conj().T, b), "matsolver-adjoint", f"{name} {A.tolist()}", rtol=1e-9, atol=1e-9)
        rec.state(name)

def run_clenshaw(case, rec):
    """Clenshaw sums of every unit coefficient equal the polynomials (scalars and matrices)."""
    from dedalus.tools import clenshaw, jacobi
    from scipy import sparse, special
    for a, b in itertools.product((-0.5, 0, 0.5, 1), repeat=2):
        for N in range(1, 7):
            x, w = jacobi.build_grid(N, a, b), jacobi.build_weights(N, a, b)
            P = jacobi.build_polynomials(N + 2, a, b, x)
            rec.step(); rec.nontriv(); rec.state((a, b, N))
            G = (P[:N]*w) @ P[:N].T
            rec.close(G, np.eye(N), "orthonormal", f"Jacobi {a},{b} N={N}", rtol=1e-10, atol=1e-10)
            rec.check(bool(np.all(np.diff(x) > 0)), "grid-order", f"Jacobi {a},{b} N={N}: {x}")
            J = jacobi.jacobi_matrix(N + 2, a, b).toarray()
            # x P_n = sum_m J[n, m] P_m
            rec.close((J.T @ P)[:N+1], (x*P)[:N+1], "jacobi-matrix", f"{a},{b} N={N}", rtol=1e-9, atol=1e-9)
            D = jacobi.differentiation_matrix(N, a, b).toarray()
            P1 = jacobi.build_polynomials(N, a + 1, b + 1, x)
            h = 1e-6
            if N > 1:
                dP = (jacobi.build_polynomials(N, a, b, x + h*(1 - x**2)) - jacobi.build_polynomials(N, a, b, x - h*(1 - x**2)))/(2*h*(1 - x**2))
                rec.close(D.T @ P1, dP, "differentiation", f"{a},{b} N={N}", rtol=1e-5, atol=1e-5)
            for da, db in itertools.product((0, 1, 2), repeat=2):
                C = jacobi.conversion_matrix(N, a, b, a + da, b + db)
                C = C.toarray() if hasattr(C, "toarray") else np.asarray(C)
                P2 = jacobi.build_polynomials(N, a + da, b + db, x)
                rec.close(C.T @ P2, P[:N], "conversion", f"{a},{b} -> {a+da},{b+db} N={N}", rtol=1e-9, atol=1e-9)
            I = jacobi.integration_vector(N, a, b)
            xl, wl = special.roots_legendre(N + 2)
            rec.close(np.ravel(I), jacobi.build_polynomials(N, a, b, xl) @ wl, "integration", f"{a},{b} N={N}", rtol=1e-9, atol=1e-9)
            if hasattr(clenshaw, "jacobi_recursion"):
                A, B = clenshaw.jacobi_recursion(N + 2, a, b, sparse.csr_matrix(np.diag(x)))
                f0 = 1/np.sqrt(jacobi.mass(a, b)) * sparse.identity(N)
                for n in range(N):
                    c = np.zeros(N); c[n] = 1.5
                    S = clenshaw.matrix_clenshaw(list(c), A, B, f0, cutoff=1e-12) if hasattr(clenshaw, "matrix_clenshaw") else None
                    if S is None: break
                    S = S.toarray() if hasattr(S, "toarray") else np.asarray(S)
                    rec.close(S, 1.5*np.diag(P[n]), "clenshaw", f"{a},{b} N={N} n={n}", rtol=1e-9, atol=1e-9)

def run_transpose_kernels(case, rec):
    """Local split/combine loops of the transpose extension move every element to its place (single process)."""
    try: from dedalus.core import transposes
    except ImportError: return
    from mpi4py import MPI
    comm = MPI.COMM_SELF
    for name in ("FFTWTranspose", "AlltoallvTranspose", "RowDistributor", "ColDistributor"):
        cls = getattr(transposes, name, None)
        if cls is None: continue
        for n1, n2 in itertools.product(range(1, case["n"]), repeat=2):
            for nb, na in ((1, 1), (2, 1), (1, 3), (2, 2)):
                for dt in (np.float64, np.complex128):
                    try: plan = cls((nb, n1, n2, na), (1, 1, 1, 1), dt, 1, comm)
                    except TypeError:
                        continue
                    a = data((nb, n1, n2, na), dt)
                    x = a.copy(); y = np.full(a.shape, 9, dt)
                    try: plan.localize_columns(x, y)
                    except Exception as e:
                        rec.violate("transpose-error", f"{name}: {type(e).__name__}: {e}"); return
                    rec.check(np.array_equal(y, a), "transpose", f"{name} {(nb, n1, n2, na)} columns"); rec.step(); rec.nontriv()
                    z = np.full(a.shape, 9, dt); plan.localize_rows(y, z)
                    rec.check(np.array_equal(z, a), "transpose", f"{name} {(nb, n1, n2, na)} rows")
        rec.state(name)
