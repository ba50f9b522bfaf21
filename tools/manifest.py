"""Writes MANIFEST.json from the check modules present (run: python3 tools/manifest.py)."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "checks", p["id"] + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in ast.parse(open(f).read()).body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "LEVEL", "TECHNIQUE")}
    checks.append({"property": p["id"], "quick_cmd": f"./run {p['id']}", "thorough_cmd": f"./run {p['id']} --tier thorough",
                   "technique": d.get("TECHNIQUE", "property-based testing (Hypothesis): generated inputs and histories against an independent reference model"),
                   "level": d["LEVEL"], "level_note": d["RULE"] + ". Assumes: " + "; ".join(d["ASSUMPTIONS"]) + ". Search over generated cases, not a proof."})
json.dump({"version": 1, "setup_cmd": "./run --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check observes public behaviour. ./run --replay FILE reruns a saved failing case."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
