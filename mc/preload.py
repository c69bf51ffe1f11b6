"""Runs one case function in a process with the crash shim preloaded (mc/native/crash.c, built on first use into the scratch folder)."""
import json, os, subprocess, sys, ctypes
from . import env as E

def shim(scratch):
    so = os.path.join(scratch, "crash.so")
    if not os.path.exists(so):
        src = os.path.join(E.VERIF, "mc", "native", "crash.c")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so + ".tmp", src, "-ldl"], check=True)
        os.replace(so + ".tmp", so)
    return so

def into(rec, module, func, case, timeout=700):
    scratch = os.environ["VERIF_SCRATCH"]
    so = shim(scratch)
    env = dict(os.environ, LD_PRELOAD=so, MC_SHIM=so)
    p = subprocess.run([E.PY, "-m", "mc.preload", module, func, json.dumps(case), rec.tier, str(rec.seed)], env=env, cwd=scratch,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode:
        raise RuntimeError(f"{module}.{func}: status {p.returncode}: {p.stderr[-1500:].decode(errors='replace')}")
    r = json.loads(p.stdout.decode().splitlines()[-1])
    for k in ("steps", "traces", "evals", "nontrivial"):
        setattr(rec, k, getattr(rec, k) + r[k])
    for h in r["hashes"]:
        rec._states.add(h)
    for v in r["violations"]:
        rec.violate(v["key"], v["msg"], **v["data"])

class Crash:
    """Runs a function in a forked child that ends before its `point`-th file-changing system call under root."""
    def __init__(self):
        self.lib = ctypes.CDLL(os.environ["MC_SHIM"])

    def run(self, root, fn, point, torn):
        """(marks written by the child, number of calls or None if it died, exception text or None)."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                self.lib.crash_arm(str(root).encode(), ctypes.c_long(point), ctypes.c_long(int(torn)), -1)
                err = None
                try:
                    fn(lambda m: os.write(w, (m + "\n").encode()))
                except BaseException as e:
                    err = f"{type(e).__name__}: {e}"
                n = self.lib.crash_disarm()
                if err: os.write(w, ("!" + err.replace("\n", " ")[:500] + "\n").encode())
                os.write(w, f"#{n}\n".encode())
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        while True:
            c = os.read(r, 65536)
            if not c: break
            buf += c
        os.close(r)
        os.waitpid(pid, 0)
        lines = buf.decode().splitlines()
        n = [int(l[1:]) for l in lines if l.startswith("#")]
        err = [l[1:] for l in lines if l.startswith("!")]
        return [l for l in lines if l[0] not in "#!"], (n[0] if n else None), (err[0] if err else None)

def main():
    module, func, case, tier, seed = sys.argv[1:6]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import importlib
    from mc import ddl
    ddl.quiet()
    from mc.rec import Rec
    case = json.loads(case)
    rec = Rec(case)
    rec.tier, rec.seed = tier, int(seed)
    getattr(importlib.import_module(module), func)(case, rec)
    d = rec.dump()
    d["hashes"] = sorted(rec._states)
    out.write(json.dumps(d, default=str) + "\n")
    out.flush()
    os._exit(0)

if __name__ == "__main__":
    from mc import preload as _m
    _m.main()
