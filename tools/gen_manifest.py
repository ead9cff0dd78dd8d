"""Regenerate MANIFEST.json from the list of built checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusted: TLC, the JSON bridge, the Python driver that builds the toy models from the specification's "
         "own data, and NumPy/CasADi/JAX as the execution platform.")
BUILT = {
 "C01": ("TLA+ (Layout.tla) state enumeration by TLC replayed on the code; recorded lookups validated by a TLC trace specification",
         "Exhaustive over all small shapes, randomised over larger ones; the specification's bijection/coverage invariants are checked by TLC for the same shapes."),
}
NA = {}
extra = os.path.join(HERE, "tools", "built.json")
if os.path.exists(extra):
    BUILT.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        t, n = BUILT[i]
        checks.append({"property": i, "quick_cmd": "./run.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough ./run.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t,
                       "level": "model_checking", "level_note": n + " " + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, "Specification planned (see DESIGN.md); its check is not built yet.")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC throughout. No hooks in /repo: every check drives public APIs."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
