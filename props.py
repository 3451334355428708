#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def prop(id, title, statement, over, text, tests, files, mech, state=None, technique=None, note=None, na=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": tests, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    PROPS.append((d, technique, note, na))


exec(open(os.path.join(HERE, "props_text.py")).read())

if __name__ == "__main__":
    ids = [p[0]["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    for p in PROPS:
        assert len(p[0]["title"]) <= 80, p[0]["id"]
        assert bool(p[1]) != bool(p[3]), p[0]["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p[0]["id"]):
            f.write(json.dumps(p[0]) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -m amgcheck setup", "checks": [], "not_applicable": [],
           "notes": "All checks are static: a libTooling extractor built from /verif/tool turns every translation unit of /repo "
                    "into resolved facts (cached by content hash under /verif/.cache), and Python rules decide each property on them."}
    for d, tech, note, na in sorted(PROPS, key=lambda p: p[0]["id"]):
        if na:
            man["not_applicable"].append({"property": d["id"], "reason": na})
        else:
            man["checks"].append({"property": d["id"], "quick_cmd": "./check.sh %s quick" % d["id"],
                                  "thorough_cmd": "./check.sh %s thorough" % d["id"], "technique": tech, "level": "other",
                                  "level_note": note})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
