"""Harness context for the symbolic run: inputs are symbols, claims are
queries to the solver."""
import contextlib
import math
from fractions import Fraction
import numpy as np

from . import npshim
from . import poly as P
from . import sym as S
from .engine import PathAbort
from .sym import Sym, SymC, SymBool, lift, issym

SIGNS = {"pos", "neg", "nonneg", "nonpos", "nonzero", "any"}


class SymCtx:
    mode = "sym"

    def __init__(self, engine, loader, params):
        self.e, self.loader, self.params = engine, loader, params
        self.np = loader.shims["numpy"]
        self.recorder = loader.recorder
        self.inputs = engine.inputs

    # --- code under test
    def mod(self, name="weac"):
        return self.loader.load(name)

    @property
    def weac(self):
        return self.mod("weac")

    @contextlib.contextmanager
    def fresh(self):
        """A package of its own, untouched by what ran before."""
        from .loader import Loader
        old, self.loader = self.loader, Loader()
        try:
            yield
        finally:
            self.loader = old

    # --- inputs
    def real(self, name, typ=(1, 2), sign="pos", lo=None, hi=None):
        assert sign in SIGNS
        v = self.e.fresh("in_" + name, sign, "input")
        V = P.space().vars[S._vid(v)]
        V.typ = typ
        new = name not in self.inputs
        self.inputs[name] = V.id
        if new:
            if lo is not None:
                V.lo = Fraction(lo)
            if hi is not None:
                V.hi = Fraction(hi)
        if V.id in self.e.alias:
            return self._aliased(V)
        return v

    def _aliased(self, V):
        """An input given by others in this run; its domain still holds."""
        x = self.e.memo.get(("alias", V.id))
        if x is None:
            x = self.e.memo[("alias", V.id)] = self.e.resolve(self.e.alias[V.id])
            claim = {"pos": lambda: x > 0, "neg": lambda: x < 0, "nonneg": lambda: x >= 0, "nonpos": lambda: x <= 0,
                     "nonzero": lambda: S.rel_raw("!=", lift(x).r)}.get(V.sign)
            for c in ([claim] if claim else []):
                self.e.assume(c())
            if V.lo is not None:
                self.e.assume(x >= V.lo)
            if V.hi is not None:
                self.e.assume(x <= V.hi)
        return x

    def boolean(self, name):
        return bool(self.real(name, (-1, 1), "nonzero") > 0)

    def num(self, x):
        """An exact constant."""
        return lift(S.simplest(x) if isinstance(x, float) else x)

    def array(self, xs):
        return npshim.fix(np.array(xs, dtype=object))

    # --- claims
    def assume(self, b):
        self.e.assume(b)

    def note(self, text):
        pass

    def _pairs(self, a, b):
        A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if A.shape != B.shape:
            if A.size == B.size == 1:
                A, B = A.reshape(()), B.reshape(())
            elif A.ndim and B.ndim and A.shape != B.shape:
                try:
                    A, B = np.broadcast_arrays(A, B)
                except ValueError:
                    return None
            else:
                A, B = np.broadcast_arrays(A, B)
        return list(zip(A.ravel(), B.ravel()))

    def shape(self, label, a, shape):
        self.true(label + " shape", np.asarray(a).shape == tuple(shape))

    def eq(self, label, a, b, scale=None, tol=1e-6, rough=False):
        pairs = self._pairs(a, b)
        if pairs is None:
            self.e.check(label + ": shapes differ", S.FALSE)
            return
        for i, (x, y) in enumerate(pairs):
            lab = label if len(pairs) == 1 else "%s[%d]" % (label, i)
            self._eq1(lab, x, y)

    def _eq1(self, label, x, y):
        nx, ny = npshim._nan(x), npshim._nan(y)
        if nx or ny:
            self.e.check(label + " (nan)", S.TRUE if nx and ny else S.FALSE)
            return
        if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
            self.e.check(label, S.tobool(x == y))
            return
        if isinstance(x, (SymBool, bool, np.bool_)) or isinstance(y, (SymBool, bool, np.bool_)):
            self.e.check(label, S.tobool(bool(x) == bool(y)))
            return
        if isinstance(x, (SymC, complex)) or isinstance(y, (SymC, complex)):
            x, y = SymC.of(x), SymC.of(y)
            self.e.check_eq(label + ".re", x.re, y.re)
            self.e.check_eq(label + ".im", x.im, y.im)
            return
        if not issym(x) and not issym(y):
            ok = abs(float(x) - float(y)) <= 1e-9 * max(abs(float(x)), abs(float(y)))
            self.e.check(label, S.tobool(ok))
            return
        self.e.check_eq(label, lift(x), lift(y))

    def le(self, label, a, b, slack=0):
        for x, y in self._pairs(a, b):
            self.e.check(label, S.tobool(lift(x) <= y))

    def lt(self, label, a, b, slack=0):
        for x, y in self._pairs(a, b):
            self.e.check(label, S.tobool(lift(x) < y))

    def true(self, label, b):
        self.e.check(label, S.tobool(b))

    def same(self, label, a, b):
        """Structural equality of nested values (dict, list, arrays)."""
        if isinstance(a, dict) or isinstance(b, dict):
            self.true(label + " keys", isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b))
            for k in a:
                if k in b:
                    self.same("%s[%s]" % (label, k), a[k], b[k])
            return
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            self.true(label + " shape", A.shape == B.shape)
            if A.shape == B.shape:
                self.eq(label, A, B)
            return
        self._eq1(label, a, b)

    def raises(self, label, excs, fn):
        try:
            fn()
        except excs:
            self.e.check(label, S.TRUE)
            return
        self.e.check(label + ": not rejected", S.FALSE)

    def outside(self, why):
        """The current case is outside the claim."""
        raise PathAbort()

    # --- calculus
    def deriv(self, f, x, step=None):
        y = f(x)
        if isinstance(y, np.ndarray):
            return npshim._map(lambda e: S.diff(lift(e), x), y)
        return S.diff(lift(y), x)

    def integral(self, f, a, b):
        t = self.e.fresh("hbound_%d" % self.e.memo.setdefault("nh", 0))
        self.e.memo["nh"] += 1
        v = f(t)
        if isinstance(v, np.ndarray):
            v = v.ravel()[0]
        return npshim.integrate(lift(v), t, lift(a), lift(b))

    def sin(self, deg):
        return lift(deg).deg2rad().sin()

    def cos(self, deg):
        return lift(deg).deg2rad().cos()

    def tan(self, deg):
        return lift(deg).deg2rad().tan()

    def sqrt(self, x):
        return S.ssqrt(x)

    @property
    def pi(self):
        return S.PI()

    def pick(self, b):
        """Branch of the harness itself."""
        return bool(b)

    def isnan(self, x):
        return npshim._nan(x)

    # --- contracts
    def known_solution(self, cands):
        """The next linear solves are claimed to have these solutions; the
        claim is an obligation (A c = b row by row), uniqueness is assumed."""
        self.e.solve_cands = list(cands)

        def hook(A, b):
            if not self.e.solve_cands:
                return None
            lab, c = self.e.solve_cands.pop(0)
            if callable(c):
                c = c(A, b)
            if c is None:
                return None
            c = np.asarray(c, dtype=object).reshape(-1)
            for i in range(A.shape[0]):
                r = lift(0)
                for j in range(A.shape[1]):
                    a = A[i, j]
                    if isinstance(a, (int, float, np.number)) and a == 0:
                        continue
                    r = r + c[j] * a
                self.e.check_eq("%s row %d" % (lab, i), r, lift(np.asarray(b).reshape(-1)[i]))
            return npshim.fix(np.array(c, dtype=object)).reshape(np.asarray(b).shape)
        self.e.solve_hook = hook

    def end_known_solution(self):
        self.e.solve_hook = None
