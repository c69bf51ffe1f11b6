#!/usr/bin/env python3
"""Development helper: judges planted bugs in private mount namespaces (the real /repo is never touched).
  seed.py [--tests] [--check] [--tier T] ID...     (all of seeded/ when no ID is given)
  demo on the clean tree, demo with the patch, optionally the stable tests and the property's check with the patch."""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys
V = "/verif"
def ns(repo, verif, cmd, timeout=1500):
    script = f"mount --bind {repo} /repo && " + (f"mount --bind {verif} /verif && " if verif else "") + cmd
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd="/")
    return p.returncode, p.stdout
def one(sid, a):
    out = {"id": sid}
    d = f"{V}/seeded/{sid}"
    meta = json.load(open(d + "/meta.json"))
    work = f"/tmp/seedwork-{sid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        subprocess.run(["cp", "-a", os.environ.get("SEED_REPO", "/repo"), work + "/repo"], check=True)
        subprocess.run(["cp", "-a", d, work + "/demo"], check=True)
        for f in ("patch.diff", "meta.json"): os.remove(f"{work}/demo/{f}")
        envs = ". /opt/vp/lib/env.sh; cd /repo; "
        rc, o = ns(work + "/repo", None, envs + f"timeout 300 bash {work}/demo/demo.sh")
        out["clean"] = rc
        if rc: out["clean_out"] = o[-1500:]
        p = subprocess.run(["git", "-C", work + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
        if p.returncode: out["apply"] = p.stderr[-500:]; return out
        rc, o = ns(work + "/repo", None, envs + "/opt/venv/bin/python /opt/vp/lib/ext.py >/dev/null; cd /repo; " + f"timeout 300 bash {work}/demo/demo.sh")
        out["patched"] = rc
        out["demo"] = o.strip()[-200:]
        if a.tests:
            rc, o = ns(work + "/repo", None, f"bash /opt/vp/test.sh {work}/t.json >/dev/null 2>&1; python3 {V}/tools/baseline.py {work}/t.json")
            out["tests"] = o.strip()[-300:]
        if a.check:
            os.makedirs(work + "/verif")
            subprocess.run(f"cp -a {V}/checks {V}/mc {V}/run.sh {V}/KNOWN_FINDINGS {work}/verif/; mkdir -p {work}/verif/evidence {work}/verif/replays", shell=True)
            pids = a.props.split(",") if a.props else [meta["property"]]
            for pid in pids:
                if not os.path.exists(f"{V}/checks/{pid.lower()}.py"): out["check " + pid] = "none"; continue
                rc, o = ns(work + "/repo", work + "/verif", f"cd /verif && VERIF_SEED=1 timeout 900 ./run.sh {pid} {a.tier}")
                out["check " + pid] = rc
                out["viol " + pid] = [l[:220] for l in o.splitlines() if not l.startswith("VIOLATION")][-4:]
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*"); ap.add_argument("--tests", action="store_true"); ap.add_argument("--check", action="store_true")
ap.add_argument("--tier", default="quick"); ap.add_argument("--props"); ap.add_argument("-j", type=int, default=1)
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(V + "/seeded"))
with cf.ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(lambda s: one(s, a), ids):
        print(json.dumps(r, indent=1), flush=True)
