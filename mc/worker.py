"""Runs cases of one check; speaks JSON lines with mc.driver."""
import importlib, json, os, sys, time, traceback

def main():
    modname, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    out = os.fdopen(os.dup(1), "w", buffering=1)
    # Keep the protocol channel clean of whatever the code under test prints
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_VERBOSE"):
        os.dup2(devnull, 1)
    else:
        os.dup2(2, 1)
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module("checks." + modname)
    if getattr(mod, "NEEDS_DEDALUS", True):
        from mc import ddl
        ddl.quiet()
    from mc.rec import Rec
    for line in sys.stdin:
        msg = json.loads(line)
        case = msg["case"]
        rec = Rec(case)
        rec.tier, rec.seed = tier, seed
        t0 = time.time()
        try:
            mod.run_case(case, rec)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            rec.violate(f"exception:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}", traceback="".join(traceback.format_exception(e))[-3000:])
        res = rec.dump()
        res["idx"] = msg["idx"]
        res["wall"] = time.time() - t0
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()

if __name__ == "__main__":
    main()
