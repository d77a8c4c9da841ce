"""Write MANIFEST.json from the contracts that exist."""
import json, os, sys, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import vapi
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
for m in ["geometry", "structures", "rgbd", "odometry", "slam", "datasets", "config"]:
    if os.path.exists(os.path.join(ROOT, "contracts", m + ".py")):
        importlib.import_module("contracts." + m)
NOTES = {}
try:
    NOTES = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    cs = vapi.REG.get(i)
    if not cs:
        na.append({"property": i, "reason": "contracts not written yet"})
        continue
    sym = [c for c in cs if c.opts.get("only") != "conc"]
    level = "proof" if sym else "exploration"
    n = NOTES.get(i, "")
    note = ("Contracts on the real functions, discharged for all inputs (shapes and batch sizes symbolic) from /repo's current "
            "source; floats as reals, torch/numpy/kornia by assumed contracts, cross-checked by running every contract on the real "
            "libraries. ") if sym else "Bounded: contracts run on the real code over sampled inputs. "
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                   "technique": "contract-based deductive verification (symbolic execution of the real source, z3/cvc5/polynomial "
                                "identities)" if sym else "executable contracts on the real code (bounded)",
                   "level": level, "level_note": note + n, "evidence_file": "evidence/%s.json" % i})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Engine in engine/, contracts in contracts/; see DESIGN.md. No hooks in /repo."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
