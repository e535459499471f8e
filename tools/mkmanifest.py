"""Writes MANIFEST.json: a check for every registered property, the rest under not_applicable."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib", "py"))
import checks
NOTES = checks.NOTES
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/py/run.py --selftest",
     "checks": [{"property": p, "quick_cmd": "python3 lib/py/run.py --property %s --tier quick" % p, "thorough_cmd": "python3 lib/py/run.py --property %s --tier thorough" % p,
                 "technique": NOTES.get(p, ("property-based testing against an exact integer model",))[0], "level": "exploration",
                 "level_note": (NOTES[p][1] if p in NOTES else "Search over generated inputs against an exact model; never proves absence. Trusts GMP, the compilers and the harness's own model.")} for p in props if p in checks.CHECKS],
     "not_applicable": [{"property": p, "reason": "no check built yet"} for p in props if p not in checks.CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
