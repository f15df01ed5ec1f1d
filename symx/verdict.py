"""Command line: verdict, replay files, known findings and evidence."""
import importlib
import json
import os
import sys

from .run import HERE, PY, REPO, run_property

KNOWN = os.path.join(HERE, "known_findings.txt")
LEVEL = "model_checking"


def known(prop):
    """Listed findings: instance names of this property (open ones only)."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                f = line.split(None, 3)
                if f[1] == "property=" + prop:
                    out[f[2].split("=", 1)[1]] = f[3]
    return out


def main(argv):
    prop = argv[0].upper()
    verbose = argv.count("-v")
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + prop.lower())
    insts, res, wall = run_property(prop, tier, seed, only, verbose)
    findings = known(prop)
    vio = [r for r in res if r["status"] == "violation"]
    listed = [r for r in vio if r["name"] in findings]
    vio = [r for r in vio if r["name"] not in findings]
    und = [r for r in res if r["status"] in ("undecided", "error")]
    if not only:
        write_evidence(prop, tier, seed, mod, insts, res, wall, vio)
    for r in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, findings[r["name"]]))
    if vio:
        r = vio[0]
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        v = r["violation"]
        v["how"] = "%s %s --replay %s" % (PY, os.path.join(HERE, "symx", "conc.py"), path)
        with open(path, "w") as fh:
            json.dump(v, fh, indent=1)
        fs = v["concrete"].get("failures") or []
        what = "%s: %s" % (fs[0]["label"], fs[0]["detail"]) if fs else "%s %s (%s)" % (
            v["concrete"].get("exc"), v["concrete"].get("msg"), v["concrete"].get("where"))
        print("%s [%s]: %s" % (prop, r["name"], what))
        t = "inputs: %s %s" % (json.dumps(v["replay"]["params"]), json.dumps(v["replay"]["values"]))
        print(t if len(t) < 900 else t[:900] + " ... (all in the replay file)")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if und:
        for r in und:
            print("UNDECIDED %s [%s]: %s" % (prop, r["name"], r.get("why", "")))
            for c in r.get("candidates", [])[:4]:
                print("   %s: %s" % (c["by"], c["label"]))
            for c in r.get("crashes", [])[:2]:
                print("   %s %s at %s" % (c["exc"], c["msg"], c["where"]))
        return 2
    st = total(res)
    print("%s: %d instances, %d paths, %d/%d obligations discharged by %d solver queries, %d concrete validation runs, %.1f s" % (
        prop, len(res), st["paths"], st["discharged"], st["obligations"], st["queries"], st["witness"], wall))
    return 0


def total(res):
    t = dict(paths=0, branches=0, decisions=0, obligations=0, discharged=0, aborted=0,
             queries=0, unsat=0, sat=0, unknown=0, linear=0, nonlinear=0, solver_s=0.0, witness=0, replays=0, literal_noise=0)
    for r in res:
        s, q = r.get("stats") or {}, r.get("queries") or {}
        for k in ("paths", "branches", "decisions", "obligations", "discharged", "aborted", "literal_noise"):
            t[k] += s.get(k, 0)
        for k in ("queries", "unsat", "sat", "unknown", "linear", "nonlinear"):
            t[k] += q.get(k, 0)
        t["solver_s"] += q.get("seconds", 0.0)
        t["witness"] += r.get("witness_passed", 0)
        t["replays"] += r.get("replays", 0)
    return t


def write_evidence(prop, tier, seed, mod, insts, res, wall, vio):
    st = total(res)
    funcs = sorted({f for r in res for f in r.get("functions", [])})
    samples = []
    for r in res:
        for s in r.get("samples", [])[:2]:
            samples.append(dict(s, instance=r["name"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "states": st["paths"] + st["decisions"],
            "transitions": st["paths"] + st["branches"],
            "traces_validated_against_impl": st["witness"],
            "samples": samples[:24] or [{"note": "no obligation was generated"}],
            "paths": st["paths"],
            "paths_cut_by_assumptions": st["aborted"],
            "obligations": st["obligations"],
            "discharged": st["discharged"],
            "solver": "z3 (python3-vt)",
            "solver_queries": {k: st[k] for k in ("queries", "unsat", "sat", "unknown", "linear", "nonlinear")},
            "solver_seconds": round(st["solver_s"], 3),
            "float_literal_noise_identified": st["literal_noise"],
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside": getattr(mod, "OUTSIDE", ""),
            "concrete_runs": st["replays"],
            "instances": [{
                "name": r["name"], "status": r["status"], "seconds": r.get("seconds"),
                "params": insts[i].get("params"), "paths": (r.get("stats") or {}).get("paths"),
                "obligations": (r.get("stats") or {}).get("obligations"),
                "discharged": (r.get("stats") or {}).get("discharged"),
                "queries": (r.get("queries") or {}).get("queries"),
                "solver_s": round((r.get("queries") or {}).get("seconds", 0.0), 3),
                "validation_runs": r.get("witness_passed"), "why": r.get("why")}
                for i, r in enumerate(res)],
        },
        "assumptions": GENERAL + list(getattr(mod, "ASSUMES", [])),
        "wall_s": round(wall, 2),
        "violations": len(vio),
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)


GENERAL = [
    "claims are over real arithmetic: floating-point literals denote the simplest rational within their rounding error, and rounding of the arithmetic itself is not modelled",
    "a division assumes a non-zero divisor unless the claim is about it",
    "numpy.linalg.solve and eig, scipy quad and brentq are replaced by their contracts (A x = b; A v = lambda v; exact linear integral; a root inside the bracket)",
    "z3 is trusted; refuted claims are reported only after the real package reproduced them",
]
