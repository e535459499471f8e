#!/usr/bin/env python3
"""run.py --property ID --tier quick|thorough      decide one property
   run.py --replay FILE                            run one recorded failure again (exit 1: it still fails)"""
import argparse, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib, checks

def replay(path):
    r = json.load(open(path))
    print("recorded: %s" % r["message"][:600])
    return checks.replay(r)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="are the tools the checks need here?")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    if a.selftest:
        for t in (["node", "--version"], ["nasm", "-v"], ["g++", "--version"]):
            vlib.run(t)
        print("tools present; every check builds what it needs from /repo itself")
        return
    c = vlib.Check(a.property, a.tier, checks.RULES[a.property])
    checks.CHECKS[a.property](c)
    c.finish()

if __name__ == "__main__":
    main()
