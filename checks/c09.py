"""C09: output survives reopening, appending and crashes at any point."""
import itertools, json, os, pathlib, shutil, tempfile
import numpy as np

LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault injection on the implementation: the program is ended before (and in the middle of) every file-changing system call of each output history, the remains are judged and an append-mode run continues from them; all sequences of reopening runs against a reference model of the directory"
NOTE = "Every crash point of every history in the bound at the level of system calls (creates, writes, truncations, deletions, directory changes), with whole and torn writes, followed by a continuing run; every sequence of append/overwrite runs up to the stated length with foreign files present."
BOUND = {"quick": "crash: 2 file kinds x 3 set sizes x {fresh, overwriting, appending} x every system call (x torn writes), 3 writes then 2 more; reopening: all sequences of 2 runs from 20 and of 3 from 8; MPI on 2 and 3 processes",
         "thorough": "also both kinds in either order, a second crash at every 5th call of the continuing run, all sequences of 3 runs from 20"}
ASSUMPTIONS = ["the program dies but the operating system does not: completed system calls persist in order", "parallel HDF5 (mpio) is not available in this h5py build"]
TIMEOUT = 850

KINDS = ("gather", "virtual")
RUNS = [dict(mode=m, par=p, mw=mw, n=n) for m in ("append", "overwrite") for p in KINDS for mw, n in ((None, 1), (2, 3), (1, 2), (None, 0), (3, 3))]

def cases(tier, seed):
    q = tier == "quick"
    out = []
    for par in KINDS:
        for mw in (None, 1, 2):
            for prior in ("fresh", "overwrite", "append"):
                for par2 in ((par,) if q else KINDS):
                    for torn in ((0,) if q and (prior == "overwrite" or mw == 1) else (0, 1)):
                        out.append(dict(t="crash", par=par, mw=mw, prior=prior, par2=par2, torn=torn, second=not q))
    for k in (2, 3):
        out.append(dict(t="mpi", n=k))
    for name in ("snap", "x.y", "q[1]", "a_s1"):
        for i in range(len(RUNS)):
            if name == "snap" or i % 4 == 0:
                out.append(dict(t="reopen", name=name, first=i, n=2 if q else 3, runs=list(range(len(RUNS)))))
    sub = [0, 1, 3, 5, 7, 11, 12, 16]
    for i in sub:
        out.append(dict(t="reopen", name="snap", first=i, n=3, runs=sub))
    return out

def run_case(case, rec):
    import logging
    if case["t"] == "crash":
        from mc import preload
        return preload.into(rec, "checks.c09", "crash", case)
    logging.disable(logging.CRITICAL)
    globals()["t_" + case["t"]](case, rec)

_S = {}
def space(comm=None):
    key = comm is not None
    if key not in _S:
        from mc import spaces
        S = spaces.make("rf_cheb", "float64", dealias=1.5, comm=comm)
        _S[key] = (S, S.field(name="u"))
    return _S[key]

def value(u, k):
    """Data of write k: grid values depending on the position and k."""
    u.preset_scales(1)
    dist = u.dist
    full = full_value(k)
    u["g"] = full[dist.grid_layout.slices(u.domain, (1, 1))]

def full_value(k):
    a = np.arange(16.0).reshape(4, 4) % 3
    x = 2*np.pi*np.arange(4)/4
    return np.cos(x)[:, None]*(k + 1) + 0.25*np.ones((4, 4))*k

def do_run(base, par, mw, mode, ks, mark=lambda m: None, comm=None):
    from dedalus.core.evaluator import Evaluator
    S, u = space(comm)
    ev = Evaluator(S.dist, {})
    h = ev.add_file_handler(base, parallel=par, max_writes=mw, mode=mode)
    h.add_task(u, name="u")
    h.add_task(2*u, name="uu", layout="c")
    mark("open")
    for k in ks:
        value(u, k)
        ev.evaluate_handlers([h], iteration=10*k, wall_time=1.5*k, sim_time=k/4, timestep=0.25)
        mark(f"w{k}")

_coef = {}
def coef(k):
    if k not in _coef:
        S, u = space()
        value(u, k)
        _coef[k] = 2*u["c"].copy()
    return _coef[k]

def read_write(path, i):
    """(write number, k) of write i of a set file; the data must be whole."""
    import h5py
    with h5py.File(path, "r") as f:
        it = int(f["scales/iteration"][i])
        k = it // 10
        assert float(f["scales/sim_time"][i]) == k/4 and float(f["scales/wall_time"][i]) == 1.5*k and float(f["scales/timestep"][i]) == 0.25, "scales"
        assert np.allclose(f["tasks/u"][i], full_value(k), atol=1e-12), f"data of write {i}: {f['tasks/u'][i].tolist()}"
        assert np.allclose(f["tasks/uu"][i], coef(k), atol=1e-12), f"coefficients of write {i}"
        return int(f["scales/write_number"][i]), k

def numbers(path):
    """Write numbers present in a set file, [] if it cannot be read."""
    import h5py
    try:
        with h5py.File(path, "r") as f:
            return f["scales/write_number"][:].tolist()
    except (OSError, KeyError):
        return []

DECOYS = ["{n}_summary.txt", "{n}_s1x.h5", "{n}_s.h5", "{n}_s2.png", "x{n}_s1.h5", "{n}_s3.h5.bak", "{n}_stats.h5", "{n}_s2_p0.h5", "notes/{n}_s1.h5"]
def decoys(base, name):
    out = {}
    for d in DECOYS:
        p = base/d.format(n=name)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text("decoy " + d)
        out[p] = "decoy " + d
    for p in (base.parent/f"{name}_s1.h5", base.parent/"other"/f"{name}_s1.h5"):
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text("decoy"); out[p] = "decoy"
    return out

def check_decoys(rec, dec, tag):
    for p, s in dec.items():
        if not rec.check(p.exists() and p.read_text() == s, "foreign", f"{tag}: {p.name} is not this handler's and was {'changed' if p.exists() else 'removed'}"):
            return

def tree(base):
    return {p: p.read_bytes() for p in base.rglob("*") if p.is_file()}

def own_sets(base, name):
    import re
    out = {}
    for p in base.iterdir():
        m = re.fullmatch(re.escape(name) + r"_s(\d+)(\.h5)?", p.name)
        if m and p.is_dir() == (m.group(2) is None):
            out.setdefault(int(m.group(1)), []).append(p)
    return out

class Model:
    """Sets of one handler's directory: set number -> list of (write number, k)."""
    def __init__(self):
        self.sets = {}
    def run(self, mode, mw, ks):
        if mode == "overwrite": self.sets = {}
        s = max(self.sets, default=0) + 1
        n = max((w for v in self.sets.values() for w, k in v), default=0)
        for k in ks:
            n += 1
            if mw is not None and len(self.sets.get(s, [])) >= mw: s += 1
            self.sets.setdefault(s, []).append((n, k))

def verify(rec, base, name, model, tag):
    got = own_sets(base, name)
    if not rec.check(sorted(got) == sorted(model.sets), "sets", f"{tag}: sets {sorted(got)} expected {sorted(model.sets)}"):
        return
    for s, writes in model.sets.items():
        p = base/f"{name}_s{s}.h5"
        rec.check(numbers(p) == [w for w, k in writes], "numbers", f"{tag}: set {s} holds writes {numbers(p)}, expected {[w for w, k in writes]}")
        for i, (w, k) in enumerate(writes):
            try:
                r = read_write(p, i)
                rec.check(r == (w, k), "content", f"{tag}: set {s} write {i} is {r} expected {(w, k)}")
            except Exception as e:
                rec.violate("content", f"{tag}: set {s} write {i}: {type(e).__name__} {e}")

def t_reopen(case, rec):
    for rest in itertools.product(case["runs"], repeat=case["n"] - 1):
        seq = [RUNS[case["first"]]] + [RUNS[i] for i in rest]
        with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as td:
            reopen(case, rec, pathlib.Path(td), seq)
        rec.trace(); rec.state((case["name"], seq))
        if rec.nviol > 3: return

def reopen(case, rec, td, seq, comm=None):
    name = pathlib.Path(case["name"]).stem
    base = td/case["name"]
    root = comm is None or comm.rank == 0
    if root: dec = decoys(base, name)
    if comm: comm.Barrier()
    model, k = Model(), 0
    for i, r in enumerate(seq):
        if root: before = tree(base)
        ks = list(range(k, k + r["n"])); k += r["n"]
        if comm: comm.Barrier()
        do_run(base, r["par"], r["mw"], r["mode"], ks, comm=comm)
        rec.step()
        if comm: comm.Barrier()
        model.run(r["mode"], r["mw"], ks)
        tag = f"{case['name']}: {seq[:i+1]}"
        if root:
            if r["mode"] == "append":
                after = tree(base)
                ch = [p.name for p in before if after.get(p) != before[p]]
                rec.check(not ch, "altered", f"{tag}: appending changed {ch}")
            check_decoys(rec, dec, tag)
            verify(rec, base, name, model, tag)

def t_mpi(case, rec):
    from mc import mpi
    jobs = [dict(name=nm, seq=[a, b, 1]) for nm, a, b in (("snap", 1, 1), ("snap", 6, 2), ("x.y", 7, 6), ("snap", 11, 5), ("snap", 5, 16), ("snap", 16, 6))]
    mpi.into(rec, case["n"], "checks.c09", "mpi_job", jobs, timeout=200)

def mpi_job(case, rec, comm):
    from mpi4py import MPI
    if "self" not in _S:
        from mc import spaces
        Sr = spaces.make("rf_cheb", "float64", dealias=1.5, comm=MPI.COMM_SELF, mesh=())
        _S[False] = (Sr, Sr.field(name="u")); _S["self"] = 1
    td = comm.bcast(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]) if comm.rank == 0 else None)
    reopen(case, rec, pathlib.Path(td), [RUNS[i] for i in case["seq"]], comm=comm)
    comm.Barrier()
    if comm.rank == 0: shutil.rmtree(td); rec.trace()

# --- Crashes

def crash(case, rec):
    from mc.preload import Crash
    C = Crash()
    par, mw, prior, torn = case["par"], case["mw"], case["prior"], case["torn"]
    space()   # built once, inherited by every child
    for k in range(12): coef(k)
    top = pathlib.Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    def fresh():
        td = top/"t"
        shutil.rmtree(td, ignore_errors=True)
        base = td/"snap"
        base.mkdir(parents=True)
        dec = decoys(base, "snap")
        model = Model()
        if prior != "fresh":
            # Output of an earlier run, in both kinds
            C.run(td, lambda mark: (do_run(base, "virtual", 1, "append", [7]), do_run(base, "gather", 2, "append", [8, 9])), -1, 0)
            model.run("append", 1, [7]); model.run("append", 2, [8, 9])
        return td, base, dec, model
    mode = "overwrite" if prior != "append" else "append"
    first = lambda base: (lambda mark: do_run(base, par, mw, mode, [0, 1, 2], mark))
    td, base, dec, model = fresh()
    marks, N, err = C.run(td, first(base), -1, 0)
    rec.check(err is None, "run", f"{case}: {err}")
    if err: return
    rec.sample(dict(calls=N))
    for point in range(N):
        td, base, dec, model = fresh()
        marks, n, err = C.run(td, first(base), point, torn)
        tag = f"{par} max_writes={mw} {prior} crash at call {point} of {N}{' (torn)' if torn else ''}"
        rec.check(err is None, "run", f"{tag}: {err}")
        rec.step()
        done = [int(m[1:]) for m in marks if m.startswith("w")]
        opened = "open" in marks
        judge(rec, case, C, td, base, dec, point, model if (mode == "append" or not opened) else Model(), done, mode, opened, tag, prior)
        rec.trace()
        rec.state((point, tuple(marks)))
        if rec.nviol > 6: break
    shutil.rmtree(top, ignore_errors=True)

def completed(model, mode, mw, done, opened):
    m = Model()
    m.sets = {s: list(v) for s, v in model.sets.items()}
    m.run("append", mw, done)
    return m

def judge(rec, case, C, td, base, dec, point, model, done, mode, opened, tag, prior):
    check_decoys(rec, dec, tag)
    if mode == "overwrite" and not opened and prior != "fresh":
        comp = None                      # died while removing its own earlier output
    else:
        comp = completed(model, mode, case["mw"], done, opened)
        intact(rec, base, comp, tag + " afterwards")
    # The continuing run
    before = tree(base)
    present = own_sets(base, "snap")
    top_set = max(present, default=0)
    top_write = max([w for s, ps in present.items() for w in numbers(base/f"snap_s{s}.h5")], default=0)
    par2 = case["par2"]
    if case["second"] and point % 7 == 0:
        # The continuing run dies as well, at every 5th call; a third run continues
        keep = td.parent/"keep"
        shutil.rmtree(keep, ignore_errors=True); shutil.copytree(td, keep)
        n2 = 0
        while True:
            marks, n, err = C.run(td, lambda mark: do_run(base, par2, case["mw"], "append", [4, 5], mark), n2, case["torn"])
            if n is None:
                d2 = [int(m[1:]) for m in marks if m.startswith("w")]
                m3, n3, err3 = C.run(td, lambda mark: do_run(base, par2, case["mw"], "append", [6], mark), -1, 0)
                rec.check(err3 is None, "continue", f"{tag}, then an appending run dying at call {n2}, then another: {err3}")
                if comp is not None: intact(rec, base, comp, f"{tag} after a second crash at call {n2} and appending")
                found = [k for s, ps in own_sets(base, "snap").items() for i in range(len(numbers(base/f"snap_s{s}.h5"))) for k in [safe(base/f"snap_s{s}.h5", i)]]
                rec.check(set(d2) | {6} <= set(found), "intact", f"{tag}, second crash at call {n2}: writes {d2} and 6 expected among {found}")
            shutil.rmtree(td); shutil.copytree(keep, td)
            if n is not None: break
            n2 += 5
    marks, n, err = C.run(td, lambda mark: do_run(base, par2, case["mw"], "append", [4, 5], mark), -1, 0)
    if not rec.check(err is None, "continue", f"{tag}, then an appending run: {err}"):
        return
    after = tree(base)
    ch = [p.name for p in before if after.get(p) != before[p]]
    rec.check(not ch, "altered", f"{tag}: the appending run changed {ch}")
    check_decoys(rec, dec, tag)
    if comp is not None:
        intact(rec, base, comp, tag + " after appending")
    exp = Model()
    exp.sets = {top_set: [(top_write, None)]} if top_set else {}
    exp.run("append", case["mw"], [4, 5])
    new = {s: v for s, v in exp.sets.items() if s > top_set}
    for s, writes in new.items():
        p = base/f"snap_s{s}.h5"
        for i, (w, k) in enumerate(writes):
            try:
                r = read_write(p, i)
                rec.check(r == (w, k), "continuation", f"{tag}: continuing run's set {s} write {i} is (number, data) {r}, expected {(w, k)}")
            except Exception as e:
                rec.violate("continuation", f"{tag}: continuing run's set {s} write {i}: {type(e).__name__} {e}")

def safe(path, i):
    try: return read_write(path, i)[1]
    except Exception: return None

def intact(rec, base, comp, tag):
    for s, writes in comp.sets.items():
        p = base/f"snap_s{s}.h5"
        for i, (w, k) in enumerate(writes):
            rec.evals += 1
            try:
                r = read_write(p, i)
                rec.check(r == (w, k), "intact", f"{tag}: set {s} write {i} is {r}, expected {(w, k)}")
            except Exception as e:
                rec.violate("intact", f"{tag}: completed write {w} (set {s} index {i}) is unreadable: {type(e).__name__} {e}")
                return
