"""DESIGN.md = design_head.md + per-property section + design_tail.md + table of planted bugs."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
sys.dont_write_bytecode = True
from design_notes import NOTES
out = [open(os.path.join(HERE, "tools/design_head.md")).read()]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("props." + p["id"].lower())
    oracle, reach = NOTES[p["id"]]
    ev = os.path.join(HERE, "tools/costs.json")
    cost = json.load(open(ev)).get(p["id"], "?") if os.path.exists(ev) else "?"
    out.append("### %s %s\n\n%s\n\n* **How decided / oracle:** %s\n* **Bounds:** %s.%s\n* **Assumes:** %s.\n* **Beyond tests:** %s\n* **Cost:** %s s (quick).\n\n" % (
        p["id"], p["title"], p["statement"], oracle, m.BOUNDS, " Outside: %s." % m.OUTSIDE if m.OUTSIDE else "",
        "; ".join(getattr(m, "ASSUMES", [])) or "nothing beyond section 1", reach, cost))
out.append(open(os.path.join(HERE, "tools/design_tail.md")).read())
rp = os.path.join(HERE, "tools/planted.json")
if os.path.exists(rp):
    R = json.load(open(rp))
    out.append("\n| planted bug | property | what it breaks | checks tried |\n|---|---|---|---|\n")
    for k in sorted(R, key=lambda k: (R[k]["property"], k)):
        r = R[k]
        mp = os.path.join(HERE, "seeded", k, "meta.json")
        if os.path.exists(mp):
            out.append("| %s | %s | %s | %s |\n" % (k, r["property"], json.load(open(mp))["what_it_breaks"], "; ".join(
                "%s %s" % (c, "reports it" if "caught" in v else "quiet" if v.startswith("0") else "inconclusive") for c, v in r["checks"].items())))
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
