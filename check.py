#!/usr/bin/env python3
import argparse, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "spec")]
import core, checks
from props import PROPS

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
a = ap.parse_args()
spec = {p["id"]: p for p in PROPS}[a.property]
res = core.Result(a.property, a.tier)
try:
    checks.CHECKS[a.property](res, a.tier)
    sys.exit(res.finish(spec, spec["explanation"] or spec["technique"], spec["assumptions"]))
except core.NoAnswer as e:
    print("NO ANSWER property=%s: %s" % (a.property, e))
    if res.viol:
        sys.exit(res.finish(spec, spec["explanation"] or spec["technique"], spec["assumptions"]))
    sys.exit(2)
except Exception:
    traceback.print_exc()
    sys.exit(2)
