#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]   (exit 0 holds, 1 violated, 2 no answer)"""
import argparse, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import verif, checks

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
ap.add_argument("--replay")
a = ap.parse_args()
spec = checks.CHECKS[a.prop]
ctx = verif.Ctx(a.prop, a.tier)
if a.replay: ctx.only = json.load(open(a.replay))
rp = os.path.join(verif.VERIF, "evidence", "replay-%s.json" % a.prop)
try:
    spec.run(ctx)
except verif.Violation as v:
    if not a.replay:
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        r = dict(v.replay or {}); r.update({"property": a.prop, "tier": a.tier, "why": v.why, "case": v.desc,
                                           "command": "python3 check.py %s --tier %s --replay %s" % (a.prop, a.tier, rp)})
        json.dump(r, open(rp, "w"), indent=1)
        ctx.evidence(spec.level, 1)
    print("case: %s\nwhy:  %s" % (v.desc[:3000], v.why[:3000]))
    print("VIOLATION property=%s replay=%s" % (a.prop, rp))
    sys.exit(1)
except verif.Broken as e:
    print("NO ANSWER property=%s: %s" % (a.prop, e))
    sys.exit(2)
except Exception:
    traceback.print_exc()
    sys.exit(2)
if a.replay:
    print("replay passes"); sys.exit(0)
d = ctx.evidence(spec.level, 0)
c = d["coverage"]
print("property %s held: %s (%.1f s)" % (a.prop, {k: c[k] for k in c if isinstance(c[k], (int, bool))}, d["wall_s"]))
