#!/usr/local/bin/python3
"""Adds or replaces lines of properties.jsonl from a JSON list on stdin, and rewrites MANIFEST.json from checks.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pp = os.path.join(V, "properties.jsonl")
props = {}
if os.path.exists(pp):
    for l in open(pp):
        p = json.loads(l); props[p["id"]] = p
data = sys.stdin.read().strip()
for p in json.loads(data) if data else []:
    props[p["id"]] = p
with open(pp, "w") as f:
    for k in sorted(props):
        p = props[k]
        assert len(p["title"]) <= 80, (k, len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
cfg = json.load(open(os.path.join(V, "checks.json")))
checks, na = [], []
for k in sorted(props):
    if k not in cfg:
        na.append({"property": k, "reason": "No check is registered yet."}); continue
    c = cfg[k]
    checks.append({"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "python3 check.py " + k,
                   "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["level_note"],
                   "evidence_file": "evidence/%s.json" % k})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every command builds the harness (and, where needed, idmd) from the current /repo. VERIF_TIER selects the budget, VERIF_SEED every random choice. A violation prints the shrunk case and writes a replay file; run it with: python3 check.py ID --replay FILE"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
