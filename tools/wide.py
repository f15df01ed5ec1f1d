"""wide.py N PROP ... : concrete runs with unusual inputs on the unchanged tree
(calibration: none of the claims may fail)."""
import importlib
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import conc  # noqa: E402

conc.install_recorder()
for prop in sys.argv[2:]:
    mod = importlib.import_module("props." + prop.lower())
    n = ok = 0
    for inst in mod.instances("quick"):
        t = time.time()
        for s in range(int(sys.argv[1])):
            if time.time() - t > 15:
                break
            r = conc.handle(dict(prop=prop, fn=inst["fn"], params=inst.get("params") or {}, seed=7000 + s, loose=300.0, wide=True))
            n += 1
            ok += r["status"] == "ok"
            if r["failures"] and r["status"] == "ok":
                print(prop, inst["name"], s, r["failures"][:2], flush=True)
    print(prop, n, "runs", ok, "completed", flush=True)
