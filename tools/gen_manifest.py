"""Writes /verif/MANIFEST.json from the check modules and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        m = importlib.import_module("checks." + p.lower())
        checks.append({"property": p, "quick_cmd": "bash check.sh %s --tier quick" % p, "thorough_cmd": "bash check.sh %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": getattr(m, "TECHNIQUE", "explicit enumeration of all bounded executions of the real code against a reference model"),
                       "level": m.LEVEL,
                       "level_note": "Exhaustive within the stated bounds: " + m.RULE + ". Assumes: " + "; ".join(m.ASSUMPTIONS) +
                       ". Trusted: jax/XLA, numpy, h5py, the explorer in mc/ and the reference models in checks/. Nothing is claimed beyond the bounds."})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks drive the public interface and replace mpi4py and the pseudo-random generator from outside."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
