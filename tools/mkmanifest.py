#!/usr/bin/env python3
"""Write MANIFEST.json from the checks present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if not os.path.exists(os.path.join(V, "checks", i + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    m = importlib.import_module(i)
    checks.append({
        "property": i, "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": getattr(m, "TECHNIQUE", "model-based property testing: random command "
                             "sequences against a real server and a reference model, with shrinking"),
        "level": getattr(m, "LEVEL", "exploration"),
        "level_note": getattr(m, "NOTE", "generated cases only; see DESIGN.md for bounds")})
d = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: clocks, I/O sizes, the interface list and free() are "
              "replaced at link time in the server that the checks build from /repo. Repaired "
              "defects and known findings are listed in KNOWN_FINDINGS."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(d, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks;", len(na), "not built")
