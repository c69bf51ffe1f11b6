"""Runs one check: enumerates its cases over worker processes, judges, writes evidence and replays."""
import importlib, json, os, selectors, shutil, signal, subprocess, sys, tempfile, time
from . import env as E

def known_findings(pid):
    """(key -> description) of the findings recorded for this property."""
    out = {}
    path = os.path.join(E.VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                assert rest.startswith("key="), line
                key, what = rest[4:].split(" :: ", 1)
                out[key.strip()] = what.strip()
    return out

class Worker:
    def __init__(self, modname, tier, seed, env, cwd, n):
        self.log = open(os.path.join(cwd, f"worker{n}.log"), "ab")
        self.p = subprocess.Popen([E.PY, "-m", "mc.worker", modname, tier, str(seed)], env=env, cwd=cwd,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
                                  start_new_session=True)
        self.buf = b""
        self.current = None
        self.t0 = None

    def send(self, idx, case):
        self.current, self.t0 = idx, time.time()
        self.p.stdin.write((json.dumps(dict(idx=idx, case=case)) + "\n").encode())
        self.p.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.log.close()

def run(pid, tier, seed, replay=None, nworkers=None):
    t0 = time.time()
    sys.path.insert(0, E.VERIF)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
    try:
        return _run(pid, tier, seed, replay, nworkers, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def _run(pid, tier, seed, replay, nworkers, t0, scratch):
    env = E.make_env(scratch)
    env["VERIF_SEED"], env["VERIF_TIER"] = str(seed), tier
    E.rebuild(env)
    modname = pid.lower()
    # The case list may need dedalus: computed in a worker-like process
    p = subprocess.run([E.PY, "-m", "mc.listcases", modname, tier, str(seed)], env=env, cwd=scratch,
                       stdout=subprocess.PIPE, text=True)
    if p.returncode:
        print("ERROR: cannot list cases"); return 2
    info = json.loads(p.stdout.splitlines()[-1])
    cases, meta = info["cases"], info["meta"]
    if replay:
        cases = [json.load(open(replay))["case"]]
    case_timeout = meta["timeout"]
    nworkers = min(nworkers or meta["workers"] or (os.cpu_count() or 4), len(cases))
    results = [None] * len(cases)
    todo = list(range(len(cases)))[::-1]
    if meta["order"] == "long_first":
        pass
    workers, sel = [], selectors.DefaultSelector()
    count = 0
    def spawn():
        nonlocal count
        wdir = os.path.join(scratch, f"w{count}")
        os.makedirs(wdir)
        wenv = dict(env); wenv["TMPDIR"] = wdir; wenv["HOME"] = wdir; wenv["VERIF_SCRATCH"] = wdir
        wenv["OMPI_MCA_orte_tmpdir_base"] = wdir; wenv["OMPI_MCA_ess_singleton_isolated"] = "1"
        w = Worker(modname, tier, seed, wenv, wdir, count)
        count += 1
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        workers.append(w)
        return w
    def feed(w):
        if todo:
            i = todo.pop()
            try:
                w.send(i, cases[i])
            except BrokenPipeError:
                pass
            return True
        w.current = None
        return False
    def drop(w):
        sel.unregister(w.p.stdout)
        workers.remove(w)
        w.kill()
    crashes, retries = 0, {}
    for _ in range(nworkers):
        feed(spawn())
    def lost(w, key, msg):
        nonlocal crashes
        i = w.current
        tail = ""
        try:
            with open(w.log.name, "rb") as f:
                tail = f.read()[-3000:].decode(errors="replace")
        except OSError:
            pass
        drop(w)
        if i is not None and "MPI_INIT failed" in tail and retries.setdefault(i, 0) < 3:
            retries[i] += 1      # the launcher, not the code under test
            todo.append(i)
            feed(spawn())
            return
        if i is not None:
            results[i] = dict(states=0, steps=0, traces=0, evals=1, nontrivial=0, nviol=1, samples=[], caps=[], idx=i,
                              wall=time.time() - w.t0,
                              violations=[dict(key=key, msg=msg, data=dict(log=tail))])
        crashes += 1
        if todo and crashes < 12:
            feed(spawn())
    while any(w.current is not None for w in workers):
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            chunk = os.read(w.p.stdout.fileno(), 1 << 20)
            if not chunk:
                rc = w.p.wait()
                lost(w, "crash", f"the process running this case ended with status {rc}")
                continue
            w.buf += chunk
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                r = json.loads(line)
                results[r["idx"]] = r
                feed(w)
        now = time.time()
        for w in list(workers):
            if w.current is not None and now - w.t0 > case_timeout:
                lost(w, "hang", f"no result within {case_timeout} s")
    for w in list(workers):
        drop(w)
    # Judge
    known = known_findings(pid)
    hits, viol = {}, []
    tot = dict(states=0, steps=0, traces=0, evals=0, nontrivial=0)
    samples, caps, missing = [], [], 0
    for i, r in enumerate(results):
        if r is None:
            missing += 1
            continue
        for k in tot:
            tot[k] += r[k]
        caps += r["caps"]
        if r["samples"] and len(samples) < 12 and (len(samples) < 4 or i % max(1, len(cases) // 8) == 0):
            samples.append(dict(case=cases[i], observed=r["samples"][0]))
        for v in r["violations"]:
            if v["key"] in known:
                hits.setdefault(v["key"], 0); hits[v["key"]] += 1
            else:
                viol.append((i, v))
    for key in sorted(hits):
        print(f"KNOWN-FINDING: property={pid} {known[key]}")
    os.makedirs(os.path.join(E.VERIF, "replays"), exist_ok=True)
    rc = 0
    if viol:
        rc = 1
        shown = set()
        for i, v in viol:
            if len(shown) >= (int(os.environ.get('VERIF_ALL', '0')) * 40 or 5):
                break
            if (v["key"]) in shown:
                continue
            shown.add(v["key"])
            path = os.path.join(E.VERIF, "replays", f"{pid}-{len(shown)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, case=cases[i], violation=v,
                               how=f"cd /verif && ./run.sh {pid} {tier} --replay {path}"), f, indent=1, default=str)
            print(f"  {v['key']}: {v['msg'][:600]}  case={json.dumps(cases[i])[:300]}")
            print(f"VIOLATION property={pid} replay={path}")
    if missing and not viol:
        print(f"ERROR: {missing} cases have no result"); rc = 2
    wall = time.time() - t0
    if not replay:
        cov = dict(samples=samples or [dict(case=cases[0])], cases=len(cases))
        if meta["level"] == "model_checking":
            cov.update(states=tot["states"], transitions=tot["steps"], traces_validated_against_impl=tot["traces"],
                       oracle_evaluations=tot["evals"])
        else:
            cov.update(evaluations=tot["evals"], distinct_nontrivial=tot["nontrivial"] or tot["states"], rule=meta["rule"],
                       operations_executed=tot["steps"])
        cov["exhaustive"] = not caps and not missing
        cov["bound"] = meta["bound"]
        if caps:
            cov["caps"] = caps[:20]
        ev = dict(property=pid, tier=tier, seed=seed, level=meta["level"], coverage=cov,
                  assumptions=meta["assumptions"], wall_s=round(wall, 2), violations=len(viol))
        os.makedirs(os.path.join(E.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(E.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if os.environ.get("VERIF_TIMES"):
        for i, r in enumerate(results):
            if r: print(f"TIME {r['wall']:.1f} {json.dumps(cases[i])}")
    slow = sorted(((r["wall"], i) for i, r in enumerate(results) if r), reverse=True)[:3]
    print(f"{pid} {tier}: cases={len(cases)} states={tot['states']} steps={tot['steps']} traces={tot['traces']} "
          f"evals={tot['evals']} violations={len(viol)} known={len(hits)} wall={wall:.1f}s slowest={[(round(s,1), json.dumps(cases[i])[:80]) for s, i in slow]}")
    return rc
