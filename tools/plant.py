"""plant.py [ID ...]: (re)creates seeded/<ID> from tools/seeds.py and tries it:
patch applies, stable tests pass, demo 0 -> nonzero, checks that report it."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS  # noqa: E402

R = "/repo"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("git", "-C", R, "checkout", "--", ".")


def demo(d):
    return sh("bash", os.path.join(d, "demo.sh"), cwd=R, timeout=300)


def one(s, full):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in s["edits"]:
        p = os.path.join(R, "weac", f)
        t = open(p).read()
        assert t.count(old) == 1, "%s: %d occurrences of %r" % (s["id"], t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git", "-C", R, "diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
        'T=$(mktemp -d) || exit 99\nD=$(cd "$(dirname "$0")" && pwd)\ncd "$T" || exit 99\n'
        '/opt/venv/bin/python -W ignore "$D/demo.py"\nE=$?\ncd /\nrm -rf "$T"\nexit $E\n')
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    res = {"id": s["id"], "property": s["property"]}
    r = demo(d)
    res["demo with"] = r.returncode
    if full:
        sh("bash", "/opt/vp/build.sh")
        sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        res["tests"] = sorted(base - set(json.load(open("/tmp/plant.json")).get("passed", [])))
    out = {}
    for c in [s["property"]] + s.get("also", []):
        r2 = sh("python3-vt", "check.py", c, cwd=HERE, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
        v = [l for l in r2.stdout.splitlines() if l.startswith("VIOLATION")]
        out[c] = "%d%s" % (r2.returncode, " caught" if r2.returncode == 1 and v else " " + r2.stdout[-300:])
    res["checks"] = out
    clean()
    r0 = demo(d)
    res["demo without"] = r0.returncode
    if r0.returncode:
        res["why"] = (r0.stdout + r0.stderr)[-500:]
    elif res["demo with"] == 0:
        res["why"] = "demo does not notice"
    return res


if __name__ == "__main__":
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    for s in SEEDS:
        if not want or s["id"] in want:
            try:
                r = one(s, "--fast" not in sys.argv)
                print(json.dumps(r), flush=True)
                f = os.path.join(HERE, "tools", "planted.json")
                known = json.load(open(f)) if os.path.exists(f) else {}
                known[s["id"]] = {"property": s["property"], "checks": {c: v[:8] for c, v in r["checks"].items()}}
                json.dump(known, open(f, "w"), indent=1, sort_keys=True)
            finally:
                clean()
