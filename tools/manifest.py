"""Writes MANIFEST.json from the list of checks and properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt run_check.py %s" % i,
            "thorough_cmd": "python3-vt run_check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the real Python code, z3 decides branches and assertions, "
                         "counterexamples replayed on the uninstrumented code",
            "level": "model_checking",
            "level_note": "Every input within the bounds written in the evidence (per configuration); environment "
                          "(files, processes, pool, clock) is the stub of symx/env.py. Nothing is claimed beyond the bounds.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())'",
               "checks": checks, "not_applicable": na,
               "notes": "One check per property; see DESIGN.md."}, f, indent=1)
    f.write("\n")
