"""Writes /verif/MANIFEST.json from the check modules present."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        m = importlib.import_module("checks." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "%s run.py check %s quick" % (PY, pid),
            "thorough_cmd": "%s run.py check %s thorough" % (PY, pid),
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "symbolic execution of the real functions, claims discharged by z3, counterexamples replayed on the real code",
            "level": "other",
            "level_note": "%s Bounds: %s Outside: %s" % (m.METHOD, m.BOUNDS, m.OUTSIDE),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
man = {"version": 1, "setup_cmd": "%s run.py setup" % PY, "checks": checks, "not_applicable": na,
       "notes": "All checks share the engine in symx/; see DESIGN.md. Nothing in /repo is instrumented, there are no hooks."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
