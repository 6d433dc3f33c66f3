#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.json5-like python data (tools/props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOTES
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("observe"): a["observe_at"] = p["observe"]
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(rec) + "\n")
checks, na = [], []
for p in PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]}); continue
    checks.append({"property": p["id"], "quick_cmd": f"sh check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough sh check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
        "level": p.get("level", "model_checking"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

# the table of planted bugs in DESIGN.md
d = os.path.join(root, 'DESIGN.md')
s = open(d).read()
rows = []
for i in sorted(os.listdir(os.path.join(root, 'seeded'))) if os.path.isdir(os.path.join(root, 'seeded')) else []:
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
a, b = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
s = s[:a] + '<!-- seeded -->\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:]
open(d, 'w').write(s)
