#!/usr/bin/env python3
"""DESIGN.md from design.tmpl, the property texts and the planted changes"""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
g = {"__file__": os.path.join(H, "props.py"), "__name__": "x"}
exec(open(os.path.join(H, "props.py")).read(), g)
how = {}
exec(open(os.path.join(H, "design_how.py")).read())
o = []
for d, tech, note, na in sorted(g["PROPS"], key=lambda p: p[0]["id"]):
    if na:
        continue
    o.append("### %s %s\n" % (d["id"], d["title"]))
    o.append(d["statement"] + "\n")
    o.append("*Decided by* " + tech + ".\n")
    o.append(how.get(d["id"], "").strip() + "\n")
    o.append("*Bounds and trust.* " + note + "\n")
    o.append("*Beyond tests.* " + d["why_tests_cant"] + "\n")
s = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(H, "seeded_results.json"))) if os.path.exists(os.path.join(H, "seeded_results.json")) else {}
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    s.append("| %s | %s | %s | %s |" % (i, j["property"], j["needs"], res.get(i, "?")))
t = open(os.path.join(H, "design.tmpl")).read()
k = json.load(open(os.path.join(H, "known_findings.json")))
op = "\n".join("* open: %s `%s` %s" % (e["property"], e["key"], e["what"]) for e in k["findings"]) or "No finding is open."
na = "\n".join("* %s: %s" % (d["id"] + " " + d["title"], na) for d, te, no, na in g["PROPS"] if na)
open(os.path.join(H, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(o)).replace("@@SEEDS@@", "\n".join(s)).replace("@@OPEN@@", op).replace("@@NA@@", na))
