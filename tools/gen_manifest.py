#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has a harness in props/."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}  # property id -> reason
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")):
        missing.append({"property": p, "reason": NA.get(p, "no check built yet")})
        continue
    m = importlib.import_module("props." + p.lower())
    note = ("Bounded: the package's functions run symbolically from /repo's current source and z3 decides every assertion for all values within the bounds. "
            "Bounds: %s. Outside: %s. Assumes: real arithmetic instead of floating point; %s." % (
                m.BOUNDS, getattr(m, "OUTSIDE", "larger sizes"), "; ".join(getattr(m, "ASSUMES", [])) or "contracts of numpy and scipy listed in DESIGN.md"))
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the real Python source, assertions decided by z3",
        "level": "model_checking",
        "level_note": note,
    })
out = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": missing,
       "notes": "No hooks in /repo: the checks load its sources with numpy, scipy and matplotlib replaced by symbolic stand-ins. Violations are replayed with the installed package's real numpy and scipy before they are reported."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
