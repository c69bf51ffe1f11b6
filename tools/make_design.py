"""Writes /verif/DESIGN.md from tools/design_head.md, the check modules, tools/design_notes.md, seeds and findings."""
import ast, json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from make_manifest import consts, REASONS
out = [open(V + "/tools/design_head.md").read()]
notes = {}
cur = None
for line in open(V + "/tools/design_notes.md"):
    m = re.match(r"## (\S+)", line)
    if m: cur = m.group(1); notes[cur] = ""
    elif cur: notes[cur] += line
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out.append("## Properties\n")
for p in props:
    pid = p["id"]
    out.append(f"### {pid} {p['title']}\n")
    path = f"{V}/checks/{pid.lower()}.py"
    if os.path.exists(path):
        c = consts(path)
        doc = ast.get_docstring(ast.parse(open(path).read())) or ""
        out.append(doc.strip() + "\n")
        out.append(f"* Technique: {c['TECHNIQUE']}.\n* Enumerated: {c['NOTE']}\n* Bounds, quick: {c['BOUND']['quick']}.\n* Bounds, thorough: {c['BOUND']['thorough']}.")
        if c.get("ASSUMPTIONS"): out.append("* Assumptions: " + "; ".join(c["ASSUMPTIONS"]) + ".")
    else:
        out.append("Not claimed: " + REASONS.get(pid, "no check built yet") + ".")
    if notes.get(pid): out.append(notes[pid].strip())
    out.append("")
out.append(notes.get("GENERAL", ""))
out.append("## Planted bugs\n\nWritten from the property texts and the code; judged with `tools/seed.py` (demo on both trees, stable tests, checks).\n")
res = {}
try: res = json.load(open(V + "/tools/seed_results.json"))
except OSError: pass
out.append("| id | property | needs | caught by (quick) |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    sid = d.split("/")[-2]; m = json.load(open(d))
    out.append(f"| {sid} | {m['property']} | {m['needs']} | {res.get(sid, 'not run')} |")
out.append("\n## Findings\n\n" + "\n".join("* " + l.strip() for l in open(V + "/KNOWN_FINDINGS") if l.strip() and not l.startswith("#")) + "\n")
open(V + "/DESIGN.md", "w").write("\n".join(out))
