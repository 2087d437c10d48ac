"""Runs every check at the quick tier and keeps the measured sizes for DESIGN.md."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, "tools/design/measured.json")
M = json.load(open(F)) if os.path.exists(F) else {}
for p in sys.argv[1:] or sorted(json.load(open(os.path.join(V, "checks.json")))):
    r = subprocess.run([sys.executable, "check.py", p], cwd=V, capture_output=True, text=True,
                       env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    e = json.load(open(os.path.join(V, "evidence", p + ".json")))
    M[p] = {"wall": round(e["wall_s"]), "evaluations": e["coverage"]["evaluations"], "nontrivial": e["coverage"]["distinct_nontrivial"]}
    print(p, r.returncode, M[p], "" if r.returncode == 0 else r.stdout[-1500:], flush=True)
    if r.returncode == 0:
        json.dump(M, open(F, "w"), indent=1, sort_keys=True)
