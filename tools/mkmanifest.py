"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from config import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + PROPS[i]["technique"],
                       "level": PROPS[i]["level"], "level_note": PROPS[i]["note"]})
na = [{"property": i, "reason": NA.get(i, "the check is not built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam (storage, heap, entropy, clock, process lifetime, thread scheduling, solver) is put in place by the build in /verif, at link, system call or include level."},
          open(V + "/MANIFEST.json", "w"), indent=1)
