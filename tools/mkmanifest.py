"""Write MANIFEST.json from properties.jsonl and the contract files present."""
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
NA = {}
props = [json.loads(x) for x in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(H, "contracts", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no contract within reach built for it")})
        continue
    m = importlib.import_module("contracts." + i.lower())
    from pyvc.harness import REGISTRY

    hs = REGISTRY.get(i, [])
    level = getattr(m, "LEVEL", "proof")
    nfull = sum(1 for h in hs if h.sym and not h.bounded)
    nb = sum(1 for h in hs if h.sym and h.bounded)
    nc = sum(1 for h in hs if not h.sym)
    note = getattr(m, "NOTE", "")
    checks.append(
        {
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification: pre/postconditions and loop contracts on the real functions, obligations generated by symbolic execution of /repo's source and discharged by z3/cvc5",
            "level": level,
            "level_note": "%d contract harnesses unbounded, %d over stated bounded shapes (labelled bounded, not counted as proved), %d concrete only. %sTrusts the pyvc engine, z3/cvc5, the stdlib models and environment stubs named in the evidence; float as real."
            % (nfull, nb, nc, note + " " if note else ""),
        }
    )
d = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the source is instrumented in memory on every run (pyvc/instrument.py).",
}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
