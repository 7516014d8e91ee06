#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property without a check program goes under not_applicable with its reason."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, technique=None, note="", observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, technique=technique, note=note, na=na))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
P.sort(key=lambda p: p["id"])
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for fn in p["files"]: assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["qtext"].split())}, "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["na"] or not os.path.exists(f"{ROOT}/checks/{p['id']}.cpp"):
        na.append({"property": p["id"], "reason": p["na"] or "no check yet"})
    else:
        checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
            "technique": p["technique"], "level": "exploration", "level_note": " ".join(p["note"].split()) or "random search over generated cases against an explicit oracle; finds counterexamples, never proves absence"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")
