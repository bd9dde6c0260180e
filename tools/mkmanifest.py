#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the contracts."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check

NOT_YET = "no contract for it has been written yet (work in progress)"
# the statement itself is decided at run time, only functions it depends on are proved
PARTLY = ("C19", "C20")
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    scs = check.scenarios(p)
    if not scs:
        na.append({"property": p, "reason": NOT_YET})
        continue
    sym = [s for s in scs if s[2].get("sym", True)]
    unb = [s for s in sym if not s[2].get("bounded")]
    bnd = [(s[1], s[2]["bounded"]) for s in scs if s[2].get("bounded")]
    con = [s[1] for s in scs if not s[2].get("sym", True)]
    if unb and p not in PARTLY:
        level = "proof"
    else:
        level = "exploration"
    note = "%d contracts (scenarios over the public API of the real code in /repo) executed symbolically, every generated obligation discharged by z3 or by normalisation" % len(unb)
    if p in PARTLY:
        note = "Not counted as proved: the statement is decided by run-time contracts. " + note
    if bnd:
        note += "; bounded, not counted as proved: " + ", ".join("%s (%s)" % b for b in bnd)
    if con:
        note += "; only evaluated at run time on the real code over generated inputs, not proved: " + ", ".join(con)
    note += ". The same contracts are also evaluated by CPython on the real code (counterexamples are replayed that way). Trusted: npver, its numpy models, z3, floats as reals, pure row-wise model."
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification of the real Python source (symbolic execution to VCs over a numpy theory, discharged by z3), plus run-time evaluation of the same contracts" if sym else "run-time evaluation of contracts on the real code (bounded stand-in)",
        "level": level,
        "level_note": note,
    })
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3, sys; print(z3.get_version_string())\" && mkdir -p out evidence", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Every check reads /repo's current source (or EFFECTOR_REPO)."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
