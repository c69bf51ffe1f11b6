"""Prints the case list and metadata of a check as one JSON line."""
import importlib, json, os, sys, warnings
warnings.simplefilter("ignore")
def main():
    modname, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    mod = importlib.import_module("checks." + modname)
    cases = mod.cases(tier, seed)
    meta = dict(level=getattr(mod, "LEVEL", "model_checking"), rule=getattr(mod, "RULE", ""), bound=mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
                timeout=getattr(mod, "TIMEOUT", 300), workers=getattr(mod, "WORKERS", None), order="",
                assumptions=getattr(mod, "ASSUMPTIONS", []))
    out.write(json.dumps(dict(cases=cases, meta=meta)) + "\n")
    out.flush()
main()
