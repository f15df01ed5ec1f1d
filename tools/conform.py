"""python3-vt tools/conform.py: the numpy/scipy/builtin shims against the real
library.  Every snippet is executed symbolically on free variables with all
branches resolved at a concrete point, then the terms are evaluated there and
compared with the real functions.  Development aid; no check runs it."""
import math
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from symx import engine as E, npshim, poly as P, sym as S
from symx.loader import Loader

VALS = {"x": 0.7, "y": -1.3, "p": 2.4, "a0": 0.9, "a1": 2.3, "a2": 1.4, "b0": -0.4, "b1": 1.1, "b2": 3.7}
for i in range(3):
    for j in range(3):
        VALS["m%d%d" % (i, j)] = [[2.0, 0.3, -0.7], [0.4, 1.9, 0.6], [-0.2, 0.8, 3.1]][i][j]

SETUP = """
def build(np, V):
    x, y, p = V["x"], V["y"], V["p"]
    a = np.array([V["a0"], V["a1"], V["a2"]])
    b = np.array([V["b0"], V["b1"], V["b2"]])
    M = np.array([[V["m%d%d" % (i, j)] for j in range(3)] for i in range(3)])
    k = np.array([True, False, True])
    return dict(x=x, y=y, p=p, a=a, b=b, M=M, k=k)
"""


def value(s, pt):
    if isinstance(s, S.Sym):
        return rat(s.r, pt)
    if isinstance(s, S.SymC):
        return complex(value(s.re, pt), value(s.im, pt))
    if isinstance(s, S.SymBool):
        return truth(s, pt)
    if isinstance(s, np.ndarray):
        return np.array([value(v, pt) for v in s.ravel()], dtype=object).reshape(s.shape)
    if isinstance(s, (list, tuple)):
        return [value(v, pt) for v in s]
    if isinstance(s, dict):
        return {k: value(v, pt) for k, v in s.items()}
    return s


def rat(r, pt):
    sp = P.space()
    n = 0.0
    for m, c in r.n.items():
        t = float(c)
        for v, e in m:
            t *= var(v, pt) ** e
        n += t
    d = float(r.d)
    for fid, e in r.f:
        f = 0.0
        for m, c in sp.factors[fid].items():
            t = float(c)
            for v, q in m:
                t *= var(v, pt) ** q
            f += t
        d *= f ** e
    return n / d


FN = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "tan": math.tan, "atan": math.atan,
      "arctan": math.atan, "arcsin": math.asin, "arccos": math.acos, "floor": math.floor, "atan2": math.atan2}


def var(v, pt):
    V = P.space().vars[v]
    if V.name in pt:
        return pt[V.name]
    if V.func == "pi":
        return math.pi
    args = [a for a in (V.args or ()) if isinstance(a, (S.Sym, P.Rat))]
    vals = [value(a, pt) if isinstance(a, S.Sym) else rat(a, pt) for a in args]
    if V.func in FN and vals:
        return FN[V.func](*(vals if V.func == "atan2" else vals[-1:]))
    raise KeyError("opaque %s %s %s" % (V.name, V.func, str(V.args)[:80]))


def truth(b, pt):
    if b.kind == "const":
        return b.args
    if b.kind == "and":
        return all(truth(c, pt) for c in b.args)
    if b.kind == "or":
        return any(truth(c, pt) for c in b.args)
    if b.kind == "not":
        return not truth(b.args[0], pt)
    op, r = b.args
    v = rat(r, pt)
    if abs(v) < 1e-12:
        v = 0
    return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[op]


def same(u, v):
    if isinstance(u, np.ndarray) and u.ndim == 0 and not isinstance(v, np.ndarray):
        return False
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v[()]
    if isinstance(u, np.ndarray) and u.ndim == 0:
        u = u[()]
    if isinstance(v, dict):
        return set(u) == set(v) and all(same(u[k], v[k]) for k in v)
    if isinstance(v, np.ndarray):
        if not isinstance(u, np.ndarray) or u.shape != v.shape:
            return False
        return all(same(p, q) for p, q in zip(u.ravel(), v.ravel()))
    if isinstance(v, (list, tuple)):
        return isinstance(u, (list, tuple)) and len(u) == len(v) and all(same(p, q) for p, q in zip(u, v))
    if isinstance(v, str) or v is None:
        return u == v
    try:
        u, v = complex(u), complex(v)
    except TypeError:
        return False
    if v != v:
        return u != u
    return u == v or abs(u - v) <= 1e-9 * max(1, abs(v))


def main(only=None):
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "conform.txt")).read()
    bad = n = 0
    for line in src.split("\n"):
        line = line.strip()
        if not line or line.startswith("#") or (only and only not in line):
            continue
        n += 1
        code = "def snippet(x, y, p, a, b, M, k):\n    " + ("return " + line if ";" not in line else "; ".join(line.split(";")[:-1]) + "; return " + line.split(";")[-1])
        imports = "import numpy as np\nimport math\nimport itertools, functools, operator\nfrom scipy.integrate import cumulative_trapezoid, trapezoid, quad\nimport scipy, scipy.linalg\n"
        env = {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                exec(imports + SETUP + code, env)
                args = env["build"](np, VALS)
                want = env["snippet"](**args)
            except Exception as e:
                print("REAL   ", line, "->", type(e).__name__, e)
                continue
            e = E.Engine()
            out = {}

            def run():
                L = Loader()
                g = {"__builtins__": L.builtins}
                exec(imports + SETUP + code, g)
                V = {q: e.fresh(q, "pos" if VALS[q] > 0 else "any") for q in VALS}
                out["v"] = g["snippet"](**g["build"](g["np"], V))
            e.decide = lambda c: truth(S.tobool(c), VALS)
            old = npshim.extremum
            npshim.extremum = lambda xs, mx=True: pick(list(xs), mx)
            e.prefix, e.trace, e.path, e.known, e.open, e.memo = [], [], [], {}, [], {}
            e.fresh_count, e.path_inputs, e.events, e.solve_hook = 0, [], [], None
            try:
                run()
                got = value(out["v"], VALS)
                if not same(got, want):
                    bad += 1
                    print("DIFFER ", line, "\n     got ", got, "\n     want", want)
            except KeyError as x:
                if "opaque" in str(x):
                    print("opaque ", line, x)
                else:
                    bad += 1
                    print("FAIL   ", line, "->", type(x).__name__, x)
            except BaseException as x:
                bad += 1
                print("FAIL   ", line, "->", type(x).__name__, str(x)[:150])
            finally:
                npshim.extremum = old
    print(n, "snippets,", bad, "bad")


def pick(xs, mx):
    if any(isinstance(q, (float, np.floating)) and math.isnan(q) for q in xs):
        return float("nan")
    r = xs[0]
    for q in xs[1:]:
        if bool(S.lift(q) > r) == mx:
            r = q
    return r


if __name__ == "__main__":
    main(sys.argv[1] if len(sys.argv) > 1 else None)
