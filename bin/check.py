#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  -- one property's check. Exit 0 held, 1 violation, 2 tool error."""
import os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props

def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.path.join(vlib.ROOT, "work", f"{prop}.{os.getpid()}")
    R = vlib.Run(prop, tier, seed, work)
    P = props.PROPS[prop]
    try:
        R.build(P["drivers"])
        R.cov["build_s"] = round(__import__("time").time() - R.t0, 1)
        for part in P["parts"]:
            part(R)
        R.known_scenarios()
        rc = R.finish(P.get("level", "model_checking"), P.get("assumptions", props.ASSUME))
    except vlib.ToolError as e:
        vlib.log("TOOL ERROR:", e)
        rc = 1 if R.viol and R.finish(P.get("level", "model_checking"), props.ASSUME) else 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if "--keep" not in sys.argv:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)
main()
