#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan and the property list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
SPECNOTE = {"Trace": "recorded calls and call histories are accepted by the specification (trace validation with TLC)",
            "Agree": "results of the same call in several forms, partitions or builds are related as the specification demands (TLC)",
            "VecTrace": "recorded register-machine sessions are accepted by the specification of the vector classes (TLC)",
            "Edge": "recorded arguments and results of elementary functions satisfy the specified ranges, limits and symmetries (TLC)",
            "Pure": "recorded repetitions of calls, on several threads too, are accepted by the specification (trace validation with TLC)"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason="check under construction")); continue
    pl = PLAN[i]
    specs = sorted(set(r["spec"] for r in pl["runs"] if r.get("spec")))
    tech = "TLA+ specification (%s.tla) with TLC: trace validation of recorded executions" % ".tla, ".join(specs)
    if pl.get("models"): tech += ", exhaustive model checking of %s.tla" % ".tla, ".join(sorted(set(m["spec"] for m in pl["models"])))
    if any(r["driver"] == "replay" for r in pl["runs"]): tech += ", replay of TLC-generated behaviours (Gen.tla) in the real code"
    note = "Explicit-state: " + "; ".join(SPECNOTE.get(s, s) for s in specs) + ". Inputs, lengths, forms, alignments and histories are drawn from VERIF_SEED over number classes and boundary values; it is not a proof over all inputs. A native selector shows TLC every call it finds odd plus a random sample. Trusts TLC, the recording drivers, the compilers; x86-64 paths only."
    if pl.get("models"): note += " The design models are exhaustive for their small constants."
    checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na, notes="No hooks are needed in /repo: the library is header-only and every observable is reachable through its public interface. Repairs of genuine defects are the fix: commits listed in known-findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
