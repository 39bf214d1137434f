#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/bin")
import props
P = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in props.PROPS:
        e = props.PROPS[i]
        lvl = e.get("level", "model_checking")
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i} --tier quick", "thorough_cmd": f"python3 bin/check.py {i} --tier thorough",
          "evidence_file": f"evidence/{i}.json",
          "technique": e.get("technique", "explicit TLA+ specification checked with TLC; every specification edge replayed in the real code, recorded code histories judged by TLC against the same specification"),
          "level": lvl, "level_note": e.get("note", "exhaustive within the small configurations; seeded random histories beyond them" if lvl == "model_checking" else
             "the TLA+ definition judges every answer of the code on the generated inputs (all single characters and boundaries, random combinations)")})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "its specification is not written yet (work in progress)")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
