#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + "/tools"]
T = "TLA+ specification model-checked with TLC; TLC-emitted behaviours replayed into the sanitized library"
N = ("Exhaustive over the specification's bounded scenario sets (all trees/batches/mutations listed in the .tla file), every emitted behaviour "
     "executed on the code built from the working tree under ASan/UBSan and compared exactly with the observations the specification predicts. "
     "Assumes TLC and the replay harness; says nothing about inputs larger than the scenario bounds.")
CLAIMS = {}
def claim(p, level="model_checking", technique=T, note=N): CLAIMS[p] = (level, technique, note)
exec(open(ROOT + "/tools/claims.py").read())
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/build.py setup",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                 "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                 "technique": CLAIMS[p["id"]][1], "level": CLAIMS[p["id"]][0], "level_note": CLAIMS[p["id"]][2]}
                for p in props if p["id"] in CLAIMS],
     "not_applicable": [{"property": p["id"], "reason": "no check yet: under construction"} for p in props if p["id"] not in CLAIMS]}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
