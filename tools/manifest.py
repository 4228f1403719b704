"""Write MANIFEST.json from contracts.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import contracts

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in contracts.PROPS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt check.py {i}",
        "thorough_cmd": f"python3-vt check.py {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "contract-based deductive verification: weakest-precondition style symbolic execution of the "
                     "CPython bytecode of /repo's functions against contracts, loops cut by inferred inductive "
                     "invariants, obligations discharged by z3",
        "level": "proof",
        "level_note": contracts.note(i),
    })
na = [{"property": p["id"], "reason": contracts.NOT_APPLICABLE.get(p["id"], "no contract written for it yet")}
      for p in props if p["id"] not in contracts.PROPS]
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "The checks read /repo's sources directly; nothing is built and no hooks are used."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
