#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, shutil, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    out = common.Outcome(a.prop, tier)
    import props
    try:
        props.CHECKS[a.prop](a.prop, tier, out)
        rc = out.finish()
    except common.Violation as v:
        out.violations.append({"Property": a.prop, "Scenario": "build", "Fails": [str(v)], "Detail": v.detail})
        out.cov.setdefault("states", 0)
        rc = out.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    if not a.keep:
        shutil.rmtree(os.path.join(common.VERIF, ".build", a.prop), ignore_errors=True)
    sys.exit(rc)

main()
