"""Runs a batch of cases under mpirun: the named function of a check module runs on every rank for each case.

The function gets (case, rec, comm); what any rank records counts. A batch that does not end in time is a hang."""
import json, os, signal, subprocess, sys, tempfile, time
from . import env as E

STALL = 120
HUNG = os.path.join(os.path.dirname(os.environ.get("VERIF_SCRATCH", "/tmp/x").rstrip("/")), "hung")

def run(n, module, func, cases, tier, seed, timeout=120, mesh=None, preload=None):
    """List of per-case result dicts, or a dict(error=...)."""
    scratch = tempfile.mkdtemp(prefix="mpi-", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    env = E.make_env(scratch)
    env.pop("OMPI_MCA_ess_singleton_isolated", None)
    if preload: env["MC_TRACE"] = preload
    env["VERIF_SEED"], env["VERIF_TIER"] = str(seed), tier
    inp, out = os.path.join(scratch, "in.json"), os.path.join(scratch, "out.json")
    with open(inp, "w") as f:
        json.dump(dict(module=module, func=func, cases=cases, tier=tier, seed=seed, out=out, stall=STALL), f)
    for attempt in range(3):
        log = open(os.path.join(scratch, "log"), "wb")
        p = subprocess.Popen(["mpirun", "-n", str(n), "--oversubscribe", "--allow-run-as-root"] + (["-x", "MC_TRACE"] if preload else []) + [E.PY, "-m", "mc.mpi", inp],
                             env=env, cwd=scratch, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        hang, t0, seen = False, time.time(), (time.time(), -1)
        while p.poll() is None and not hang:
            # a hang is a case which makes no progress
            try: p.wait(0.1)
            except subprocess.TimeoutExpired: pass
            size = os.path.getsize(out + ".progress") if os.path.exists(out + ".progress") else 0
            if size != seen[1]: seen = (time.time(), size)
            hang = p.poll() is None and (time.time() - t0 > timeout or time.time() - seen[0] > STALL)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        log.close()
        tail = open(os.path.join(scratch, "log"), "rb").read()[-6000:].decode(errors="replace")
        progress = [l for l in _read(out + ".progress").splitlines() if l]
        if not hang and p.returncode == 0 and os.path.exists(out):
            return json.load(open(out))
        if not hang and not progress and ("MPI_INIT failed" in tail or "ORTE" in tail or "PMIX" in tail):
            time.sleep(1 + attempt)
            continue
        at = int(progress[-1]) if progress else 0
        return dict(error="hang" if hang else f"exit status {p.returncode}", at=at, log=tail)
    return dict(error=f"mpirun does not start: {tail[-500:]}", at=0, log=tail)

def _read(p):
    return open(p).read() if os.path.exists(p) else ""

def into(rec, n, module, func, cases, timeout=120, label="", preload=None):
    """Runs a batch and adds its findings to rec. After a hang was found and reported, further batches are left out."""
    if os.path.exists(HUNG):
        rec.caps.append("batches left out after a hang")
        return None
    res = run(n, module, func, cases, rec.tier, rec.seed, timeout, preload=preload)
    if isinstance(res, dict):
        rec.evals += 1
        if res["error"] == "hang": open(HUNG, "w").close()
        c = cases[min(res["at"], len(cases) - 1)]
        rec.violate(f"{res['error'].split(' ')[0]}" if res["error"] == "hang" else "mpifail", f"{label} {n} processes: {res['error']} at case {json.dumps(c)}", log=res["log"])
        return None
    for c, r in zip(cases, res):
        for k in ("steps", "traces", "evals", "nontrivial"):
            setattr(rec, k, getattr(rec, k) + r[k])
        rec.state((label, n, json.dumps(c, sort_keys=True)))
        for v in r["violations"]:
            rec.violate(v["key"], f"{n} processes, {json.dumps(c)}: {v['msg']}", **v["data"])
    return res

def main():
    rank = os.environ.get("OMPI_COMM_WORLD_RANK", "0")
    if os.environ.get("MC_HASH") != "1":
        # each process hashes strings in its own way, so that the order of sets differs between them
        env = dict(os.environ, MC_HASH="1", PYTHONHASHSEED=str(int(rank) + 1))
        if env.get("MC_TRACE"): env["LD_PRELOAD"] = env["MC_TRACE"]
        os.execve(sys.executable, [sys.executable, "-m", "mc.mpi"] + sys.argv[1:], env)
    job = json.load(open(sys.argv[1]))
    import faulthandler, importlib, traceback, warnings
    warnings.simplefilter("ignore")
    from mc import ddl
    ddl.quiet()
    from mc.rec import Rec
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    mod = importlib.import_module(job["module"])
    fn = getattr(mod, job["func"])
    out = []
    for i, case in enumerate(job["cases"]):
        if comm.rank == 0:
            with open(job["out"] + ".progress", "a") as f:
                f.write(f"{i}\n")
        rec = Rec(case)
        rec.tier, rec.seed = job["tier"], job["seed"]
        faulthandler.dump_traceback_later(job["stall"]*0.8)
        try:
            fn(case, rec, comm)
        except Exception as e:
            rec.violate(f"exception:{type(e).__name__}", f"rank {comm.rank}: unexpected {type(e).__name__}: {e}", traceback="".join(traceback.format_exception(e))[-3000:])
            print(f"rank {comm.rank}, case {i}: {type(e).__name__}: {e}", file=sys.stderr, flush=True)
            failed = True
        else:
            failed = False
        # A process which ended early must not join in the collectives the others are still in
        req, t0 = comm.Ibarrier(), time.time()
        while not req.Test():
            if failed and time.time() - t0 > 20: comm.Abort(3)
            time.sleep(0.001)
        all_ = comm.gather(rec.dump(), root=0)
        if comm.rank == 0:
            tot = dict(all_[0])
            for k in ("steps", "traces", "evals", "nontrivial", "nviol"):
                tot[k] = sum(a[k] for a in all_) if k in ("evals", "nviol") else max(a[k] for a in all_)
            tot["violations"] = [dict(v, msg=f"(rank {r}) {v['msg']}") for r, a in enumerate(all_) for v in a["violations"]][:8]
            out.append(tot)
    if comm.rank == 0:
        with open(job["out"] + ".tmp", "w") as f:
            json.dump(out, f, default=str)
        os.replace(job["out"] + ".tmp", job["out"])

if __name__ == "__main__":
    from mc import mpi as _m
    _m.main()
