#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "symbolic execution of the LLVM IR of /repo's current sources, every branch and assertion decided by Z3 over all inputs within the bounds; counterexamples replayed natively",
                 "level": "model_checking",
                 "level_note": "Exhaustive within: %s. Outside: %s. Trusts /verif/symex (IR semantics, sampled against native runs), Z3, and the runtime models in harness/." % (CHECKS[p["id"]]["bounds"], CHECKS[p["id"]].get("outside", "-"))}
                for p in props if p["id"] in CHECKS],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in CHECKS]}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks")
