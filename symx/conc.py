"""Harness context for concrete runs of the real package, and the replay
server (JSON lines on stdin/stdout).  Runs under the interpreter the package
is installed in; contains no solver."""
import importlib
import io
import json
import math
import os
import random
import sys
import tempfile
import traceback
import contextlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402


class Discard(Exception):
    pass


def take():
    """Modules of the package, removed from the interpreter."""
    return {k: sys.modules.pop(k) for k in [k for k in sys.modules if k == "weac" or k.startswith("weac.")]}


class ConcCtx:
    mode = "conc"

    def __init__(self, params, values, seed=0, loose=1.0, wide=False):
        self.params, self.values = params, dict(values)
        self.rnd = random.Random(seed)
        self.wide = wide            # values up to ten times out of the typical range
        self.np = np
        self.failures = []
        self.checked = 0
        self.used = {}
        self.loose = loose
        self.notes = []
        self._rec = None

    @property
    def recorder(self):
        return RECORDER

    def mod(self, name="weac"):
        return importlib.import_module(name)

    @property
    def weac(self):
        return self.mod("weac")

    @contextlib.contextmanager
    def fresh(self):
        """A package of its own, untouched by what ran before."""
        old = take()
        try:
            yield
        finally:
            take()
            sys.modules.update(old)

    def real(self, name, typ=(1, 2), sign="pos", lo=None, hi=None):
        if name in self.used:
            return self.used[name]
        v = self.values.get(name)
        if v is None:
            v = self.rnd.uniform(float(typ[0]), float(typ[1]))
            if self.wide and self.rnd.random() < 0.6:
                v *= 10 ** self.rnd.uniform(-1, 1)
            if sign == "nonzero" and v == 0:
                v = 1.0
        v = float(v)
        bad = {"pos": v <= 0, "neg": v >= 0, "nonneg": v < 0, "nonpos": v > 0,
               "nonzero": v == 0, "any": False}[sign]
        if bad or (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard("input %s=%r outside its domain" % (name, v))
        self.used[name] = v
        return v

    def boolean(self, name):
        return self.real(name, (-1, 1), "nonzero") > 0

    def num(self, x):
        return float(x)

    def array(self, xs):
        return np.array(xs, dtype=float)

    def assume(self, b):
        if not b:
            raise Discard("assumption")

    def note(self, text):
        self.notes.append(text)

    def fail(self, label, detail=""):
        self.failures.append({"label": label, "detail": detail})

    def shape(self, label, a, shape):
        self.true(label + " shape", np.asarray(a).shape == tuple(shape))

    def eq(self, label, a, b, scale=None, tol=1e-6, rough=False):
        self.checked += 1
        if not rough:       # rounding on the unchanged tree stays below 1e-9 (tools/resid.py)
            tol = min(tol, 1e-6)
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape:
            if A.size == B.size == 1:
                A, B = A.reshape(()), B.reshape(())
            else:
                try:
                    A, B = np.broadcast_arrays(A, B)
                except ValueError:
                    self.fail(label + ": shapes differ", "%s vs %s" % (A.shape, B.shape))
                    return
        if A.dtype.kind in "OUS" or B.dtype.kind in "OUS":
            if A.dtype.kind == "O" and B.dtype.kind == "O":
                try:
                    A, B = A.astype(float), B.astype(float)
                except (TypeError, ValueError):
                    pass
            if A.dtype.kind in "OUS":
                if not np.all(A == B):
                    self.fail(label, "%r vs %r" % (a, b))
                return
        if A.dtype.kind == "b" or B.dtype.kind == "b":
            if not np.array_equal(A.astype(bool), B.astype(bool)):
                self.fail(label, "%r vs %r" % (a, b))
            return
        na, nb = np.isnan(A), np.isnan(B)
        if not np.array_equal(na, nb):
            self.fail(label + " (nan)", "%r vs %r" % (a, b))
            return
        A, B = A[~na], B[~nb]
        if not A.size:
            return
        s = np.maximum(abs(A), abs(B))
        if scale is not None:
            sc = np.concatenate([np.ravel(np.asarray(v, dtype=float)) for v in (scale() if callable(scale) else [scale])])
            s = np.maximum(s, float(np.max(abs(sc))) if sc.size else 0.0)
        d = abs(A - B)
        bad = ~((d <= tol * self.loose * s + 1e-300) | (A == B))
        if self.wide and not np.isfinite(s).all():
            raise Discard("overflow")
        if bad.any():
            i = int(np.argmax(np.where(s > 0, d / np.where(s > 0, s, 1), 0)))
            self.fail(label, "%r vs %r (relative difference %.3g)" % (
                A.ravel()[i].item(), B.ravel()[i].item(), d.ravel()[i] / max(s.ravel()[i], 1e-300)))

    def _cmp(self, label, a, b, slack, strict):
        self.checked += 1
        A, B = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        eps = (1e-9 * self.loose) * np.maximum(np.maximum(abs(A), abs(B)), slack)
        bad = ~(A <= B + eps)
        if bad.any():
            i = int(np.argmax(bad.ravel()))
            self.fail(label, "%r exceeds %r" % (A.ravel()[i].item(), B.ravel()[i].item()))

    def le(self, label, a, b, slack=0):
        self._cmp(label, a, b, slack, False)

    def lt(self, label, a, b, slack=0):
        self._cmp(label, a, b, slack, True)

    def true(self, label, b):
        self.checked += 1
        if not b:
            self.fail(label, "false")

    def same(self, label, a, b):
        if isinstance(a, dict) or isinstance(b, dict):
            self.true(label + " keys", isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b))
            for k in a:
                if k in b:
                    self.same("%s[%s]" % (label, k), a[k], b[k])
            return
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            A, B = np.asarray(a), np.asarray(b)
            self.true(label + " shape", A.shape == B.shape)
            if A.shape == B.shape:
                self.eq(label, A, B)
            return
        if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
            self.true(label, a == b)
            return
        self.eq(label, a, b)

    def raises(self, label, excs, fn):
        self.checked += 1
        try:
            fn()
        except excs:
            return
        self.fail(label + ": not rejected")

    def outside(self, why):
        raise Discard(why)

    def deriv(self, f, x, step=None):
        """Richardson-extrapolated central difference."""
        h = step or 1e-2 * max(1.0, abs(x) * 1e-2)
        g = lambda k: (np.asarray(f(x + k)) - np.asarray(f(x - k))) / (2 * k)
        d1, d2, d3 = g(h), g(h / 2), g(h / 4)
        a, b = (4 * d2 - d1) / 3, (4 * d3 - d2) / 3
        return (16 * b - a) / 15

    def integral(self, f, a, b):
        """Gauss-Legendre on pieces."""
        xs, ws = np.polynomial.legendre.leggauss(20)
        n = 20
        tot = 0.0
        for i in range(n):
            lo, hi = a + (b - a) * i / n, a + (b - a) * (i + 1) / n
            for x, w in zip(xs, ws):
                v = f((lo + hi) / 2 + (hi - lo) / 2 * x)
                if isinstance(v, np.ndarray):
                    v = v.ravel()[0]
                tot += w * (hi - lo) / 2 * v
        return tot

    def sin(self, deg):
        return math.sin(math.radians(deg))

    def cos(self, deg):
        return math.cos(math.radians(deg))

    def tan(self, deg):
        return math.tan(math.radians(deg))

    def sqrt(self, x):
        return math.sqrt(x)

    @property
    def pi(self):
        return math.pi

    def pick(self, b):
        return bool(b)

    def isnan(self, x):
        return bool(np.isnan(x))

    def known_solution(self, cands):
        pass

    def end_known_solution(self):
        pass


RECORDER = None


def install_recorder():
    """Plot harnesses draw on the recording stand-in."""
    global RECORDER
    from symx.plotrec import matplotlib_modules
    RECORDER, mods = matplotlib_modules(np)
    sys.modules.update(mods)
    return RECORDER


def handle(q):
    prop, fn, params = q["prop"], q["fn"], q["params"]
    mod = importlib.import_module("props." + prop.lower())
    ctx = ConcCtx(params, q.get("values") or {}, q.get("seed", 0), q.get("loose", 1.0), q.get("wide", False))
    out = {"status": "ok"}
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
            getattr(mod, fn)(ctx, **params)
    except Discard as e:
        out.update(status="discard", why=str(e))
    except Exception as e:
        if isinstance(e, ValueError) and "must have different signs" in str(e):
            out.update(status="discard", why="no root in the bracket")
        else:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith(os.path.join(REPO, "weac"))]
            where = inrepo[-1] if inrepo else tb[-1]
            out.update(status="exception", exc=type(e).__name__, msg=str(e)[:300],
                       inrepo=bool(inrepo), where="%s in %s" % (os.path.basename(where.filename), where.name))
    out["failures"] = ctx.failures[:20]
    out["nfail"] = len(ctx.failures)
    out["checked"] = ctx.checked
    out["values"] = ctx.used
    return out


def main():
    scratch = tempfile.mkdtemp(prefix="weac-replay-")
    os.chdir(scratch)
    try:
        install_recorder()
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            with open(sys.argv[2]) as fh:
                q = json.load(fh)
            q.update(q.pop("replay", {}))
            out = handle(q)
            print(json.dumps(out, indent=1))
            bad = out["failures"] or out["status"] == "exception"
            print("REPRODUCED" if bad else "not reproduced")
            return 1 if bad else 0
        real = os.fdopen(os.dup(1), "w")
        os.dup2(2, 1)
        for line in sys.stdin:
            line = line.strip()
            if not line:
                continue
            try:
                out = handle(json.loads(line))
            except BaseException as e:      # harness error
                out = {"status": "error", "why": "%s: %s" % (type(e).__name__, e), "failures": [], "nfail": 0, "checked": 0, "values": {}}
            real.write(json.dumps(out, default=lambda o: repr(o)) + "\n")
            real.flush()
    finally:
        os.chdir("/")
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
