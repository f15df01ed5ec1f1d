"""resid.py PROP ... : largest relative residual of every claim in concrete
runs on the unchanged tree, next to the tolerance replays use (calibration)."""
import importlib
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import conc  # noqa: E402
import numpy as np  # noqa: E402

LOG = {}
orig = conc.ConcCtx.eq


def eq(self, label, a, b, scale=None, tol=1e-6, rough=False):
    tol = tol if rough else min(tol, 1e-6)
    n = len(self.failures)
    try:
        A, B = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        ok = ~(np.isnan(A) | np.isnan(B))
        if ok.any():
            A, B = A[ok], B[ok]
            s = np.maximum(abs(A), abs(B))
            if scale is not None:
                sc = np.concatenate([np.ravel(np.asarray(v, dtype=float)) for v in (scale() if callable(scale) else [scale])])
                s = np.maximum(s, float(np.max(abs(sc))) if sc.size else 0.0)
            r = float(np.max(np.where(s > 0, abs(A - B) / np.where(s > 0, s, 1), 0)))
            k = (KEY, re.sub(r"\d+", "#", label))
            LOG.setdefault(k, []).append((r, tol))
    except (TypeError, ValueError):
        pass
    orig(self, label, a, b, scale=scale, tol=tol, rough=rough)
    del self.failures[n:]


conc.ConcCtx.eq = eq
conc.install_recorder()
for prop in sys.argv[2:]:
    mod = importlib.import_module("props." + prop.lower())
    for inst in mod.instances("quick"):
        KEY = inst["fn"]
        t = time.time()
        for s in range(int(sys.argv[1])):
            if time.time() - t > 20:
                break
            conc.handle(dict(prop=prop, fn=inst["fn"], params=inst.get("params") or {}, seed=7000 + s, loose=1.0))
    rows = {}
    for (f, l), v in LOG.items():
        rs = sorted(r for r, _ in v)
        tol = v[0][1]
        print("%s %-14s %-46s n %5d  tol %.0e  median %.1e  99%% %.1e  max %.1e  %s" % (
            prop, f, l[:46], len(rs), tol, rs[len(rs) // 2], rs[int(len(rs) * .99)], rs[-1],
            "LOOSE" if tol > 1e3 * max(rs[-1], 1e-15) else "TIGHT" if rs[-1] > tol / 10 else ""), flush=True)
    LOG.clear()
