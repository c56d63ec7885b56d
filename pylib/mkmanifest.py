"""Regenerates MANIFEST.json from the table of claimed checks (checks/claims.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(V, "checks", "claims.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 pylib/build.py rel ttdrv",
     "checks": [], "not_applicable": [],
     "notes": "Every check: TLA+ specification in spec/ explored with TLC; behaviours replayed on, or traces recorded from, the library "
              "built from /repo's current working tree (pylib/build.py, no hooks in /repo). See DESIGN.md."}
for i in ids:
    c = claims.get(i)
    if c and "technique" in c:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": (c or {}).get("reason", "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
