#!/usr/bin/env python3
"""check.py ID --tier quick|thorough: decides one property on /repo's working tree.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import argparse, json, os, re, shutil, sys, time, traceback
from vlib import *
import props

def load_known(prop):
    """The recorded, unrepaired findings of one property (known-findings.txt:
    "known: property=<id> defect=<name> -- <description>").  A trace specification that models the defect reports
    its name for the recordings that are exactly as the defect would have them, and for no others."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) defect=(\S+) -- (.*)", l)
            if m and m[1] == prop:
                res.append((m[2], m[3].strip()))
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(a.prop, a.tier, seed)
    rc = 2
    try:
        spec = props.CHECKS[a.prop]
        ctx.build(*spec["crate"])
        spec["run"](ctx)
        rc = 1 if ctx.violations else 0
    except Violation as v:
        ctx.violate(v.what, v.replay)
        rc = 1
    except ToolError as e:
        print("ERROR:", e)
        rc = 1 if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if ctx.violations else 2
    finally:
        if not a.keep:
            shutil.rmtree(ctx.dir, ignore_errors=True)
    listed = dict(load_known(a.prop))
    for name, n in sorted(ctx.explained.items()):
        if name in listed:
            ctx.known.append("%s: %s (%d recordings)" % (name, listed[name], n))
        else:
            ctx.violate("recordings show the unlisted defect " + name)
            rc = 1
    wall = round(time.time() - ctx.t0, 1)
    if rc == 2:
        sys.exit(2)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    if ctx.violations:
        d = os.path.join(VERIF, "replays", a.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "seed%d-%s.json" % (seed, a.tier))
        with open(p, "w") as f:
            json.dump({"property": a.prop, "seed": seed, "tier": a.tier,
                       "rerun": "VERIF_SEED=%d python3 check.py %s --tier %s" % (seed, a.prop, a.tier),
                       "violations": [{"what": w, "replay": r} for w, r in ctx.violations[:20]]}, f, indent=1)
        for w, _ in ctx.violations[:3]:
            print("  " + w[:1200])
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples or ["none"], "stages": ctx.stages, "known_findings_seen": ctx.explained}
    if ctx.exhaustive is not None:
        cov["exhaustive"] = ctx.exhaustive
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump({"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": spec.get("assumptions", props.ASSUMPTIONS), "wall_s": wall,
                   "violations": len(ctx.violations)}, f, indent=1)
    if rc == 0:
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (a.prop, a.tier, ctx.states, ctx.transitions, ctx.traces, wall))
    sys.exit(rc)

main()
