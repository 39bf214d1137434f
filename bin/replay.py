#!/usr/bin/env python3
"""replay.py FILE -- runs a recorded violation again on the code in /repo and prints what it does."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
m = json.load(open(sys.argv[1]))
R = vlib.Run("replay", "quick", 1, os.path.join(vlib.ROOT, "work", "replay"))
R.build([m["driver"]])
if "case" in m:
    c = {k: v for k, v in m["case"].items() if k != "out"}
    r = subprocess.run([R.bin(m["driver"]), "eval"], input=(json.dumps(c) + "\n").encode(), stdout=subprocess.PIPE, env=vlib.env())
    print("expected by the specification:", m.get("verdict"))
    print(r.stdout.decode())
else:
    cfg = json.load(open(os.path.join(vlib.SPEC, "cfg", m["cfg"] + ".json")))
    f = R.path("acts.json")
    json.dump({"cfg": cfg, "acts": m["path"]}, open(f, "w"))
    r = subprocess.run([R.bin(m["driver"]), "run", "--acts", f], stdout=subprocess.PIPE, env=vlib.env())
    for l in r.stdout.decode().splitlines():
        print(l[:2000])
    print("differs in:", m.get("diff"), "broken:", m.get("broken"))
    print("specification says:", json.dumps(m.get("spec"))[:4000])
