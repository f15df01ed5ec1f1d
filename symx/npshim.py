"""numpy / scipy / math as seen by the code under symbolic execution.

Everything not overridden here is the real numpy working on object arrays of
Sym values.  The linear-algebra, quadrature and root-finding routines are
stubs that return fresh symbols constrained by the routine's contract."""
import math as _math
import types
from fractions import Fraction
import numpy as np

from . import poly as P
from . import sym as S
from .sym import Sym, SymC, SymBool, issym, lift


class SArr(np.ndarray):
    """Object array with real/imag/astype/max/min that understand Sym."""
    __array_priority__ = 5.0

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        # subclasses keep zero-dimensional results; plain arrays do not
        if return_scalar and arr.ndim == 0:
            return arr[()]
        return arr.view(SArr) if arr.dtype == object else arr

    def __matmul__(self, o):
        return _un0(np.ndarray.__matmul__(self, o))

    def __rmatmul__(self, o):
        return _un0(np.ndarray.__rmatmul__(self, o))

    def dot(self, o, out=None):
        return _un0(np.dot(np.asarray(self), np.asarray(o)))

    def sum(self, *a, **k):
        return _un0(np.ndarray.sum(self, *a, **k))

    def prod(self, *a, **k):
        return _un0(np.ndarray.prod(self, *a, **k))

    def any(self, *a, **k):
        return _un0(np.ndarray.any(self, *a, **k))

    def all(self, *a, **k):
        return _un0(np.ndarray.all(self, *a, **k))

    def trace(self, *a, **k):
        return _un0(np.ndarray.trace(self, *a, **k))

    def take(self, *a, **k):
        return _un0(np.ndarray.take(self, *a, **k))

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        elif isinstance(v, (list, tuple)) and self.dtype == object:
            v = [_un0(x) for x in v]
        np.ndarray.__setitem__(self, k, v)

    def clip(self, *a, **k):
        return clip(self, *a, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0):
        m = self.mean(axis=axis)
        if axis is not None:
            m = np.expand_dims(m, axis)
        d = (self - m) ** 2
        n = self.size if axis is None else self.shape[axis]
        v = np.asarray(d).sum(axis=axis) / (n - ddof)
        return S.lift(v).sqrt() if not isinstance(v, np.ndarray) else _map(lambda x: S.lift(x).sqrt(), v)

    def var(self, axis=None, dtype=None, out=None, ddof=0):
        m = self.mean(axis=axis)
        if axis is not None:
            m = np.expand_dims(m, axis)
        n = self.size if axis is None else self.shape[axis]
        return fix(np.asarray((self - m) ** 2).sum(axis=axis) / (n - ddof))

    def ptp(self, axis=None):
        return _un0(npmax(self, axis) - npmin(self, axis))

    @property
    def real(self):
        return _map(lambda x: x.real if hasattr(x, "real") else x, self)

    @property
    def imag(self):
        return _map(lambda x: x.imag if hasattr(x, "imag") else 0, self)

    def astype(self, t, *a, **k):
        if self.dtype != object:
            r = np.ndarray.astype(self, t, *a, **k)
            return fix(r)
        if t in (float, Float, "float", "float64", np.float64, np.float32, object, complex, Complex, "complex", "d", "f8", np.complex128, np.longdouble):
            return self.copy()
        if t in (int, Int, "int", "int64", "int32", np.int64, np.int32, np.intp):
            return np.array([int(x) for x in self.ravel()], dtype=int).reshape(self.shape)
        if t in (bool, "bool", np.bool_):
            return np.array([bool(x) for x in self.ravel()], dtype=bool).reshape(self.shape)
        return np.ndarray.astype(self, t, *a, **k)

    def max(self, axis=None, **k):
        return npmax(self, axis, **k)

    def min(self, axis=None, **k):
        return npmin(self, axis, **k)

    def argmax(self, axis=None, **k):
        return npargmax(self, axis)

    def argmin(self, axis=None, **k):
        return npargmax(-self, axis)

    def conj(self):
        return _map(lambda x: x.conjugate(), self)
    conjugate = conj

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        a = np.asarray(self)
        n = a.size if axis is None else a.shape[axis]
        return fix(a.sum(axis=axis, keepdims=keepdims) / n)

    def round(self, nd=0, **k):
        return _map(lambda x: round(x, nd), self)


def _un0(a):
    """Zero-dimensional arrays as the value they hold."""
    return fix(a) if not (isinstance(a, np.ndarray) and a.ndim == 0) else a[()]


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    fo, fa = out.reshape(-1), np.asarray(a).reshape(-1)
    for i in range(fa.size):
        fo[i] = f(fa[i])
    return out.view(SArr)


def fix(a):
    """Numeric arrays become object arrays so that Syms can be stored."""
    if isinstance(a, np.ndarray):
        if a.dtype.kind in "fc":
            a = a.astype(object)
        if a.dtype == object and not isinstance(a, SArr):
            a = a.view(SArr)
    return a


def anysym(a):
    if issym(a):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(issym(x) for x in a.ravel())
    if isinstance(a, (list, tuple)):
        return any(anysym(x) for x in a)
    return False


# --- array creation ---------------------------------------------------------------

def _dtype_ok(dt):
    return dt is not None and dt not in (float, Float, object, complex, "float", "float64", np.float64, np.float32)


FLOATS = (float, np.float32, np.longdouble, "float", "float64", "f8", "d", "double")
INTS = (int, np.int64, np.int32, np.intp, "int", "int64", "int32", "i8", "i")
COMPLEX = (complex, "c", np.complex64, np.complex128, "complex", "complex128", "c16", "D")
# position of dtype among the positional arguments
DTYPE_AT = {"zeros": 1, "ones": 1, "empty": 1, "full": 2, "array": 1, "asarray": 1, "asanyarray": 1, "ascontiguousarray": 1, "fromiter": 1,
            "zeros_like": 1, "ones_like": 1, "empty_like": 1, "full_like": 2, "eye": 3, "identity": 1}


def _isa(dt, types):
    if isinstance(dt, np.dtype):
        dt = dt.type
    return any(dt is t or (isinstance(t, str) and isinstance(dt, str) and dt == t) for t in types)


def mk_creator(name):
    f = getattr(np, name)
    at = DTYPE_AT.get(name)

    def g(*a, **k):
        if at is not None and len(a) > at:
            k["dtype"] = a[at]
            a = a[:at] + a[at + 1:] if name == "fromiter" else a[:at]
        dt = k.get("dtype")
        if name == "fromiter":
            n = k.get("count", -1)
            if len(a) > 1:
                n = a[1]
            it = list(a[0]) if n < 0 else [v for v, _ in zip(a[0], range(n))]
            return over_array(it, dtype=dt)
        if dt is Float or _isa(dt, FLOATS) or dt is np.float64:
            k["dtype"] = float
        elif dt is Int or _isa(dt, INTS):
            k["dtype"] = int
        elif _isa(dt, COMPLEX) or dt is Complex:
            k["dtype"] = complex
        if k.get("dtype") in (float, complex) and (any(anysym(x) for x in a) or anysym(k.get("fill_value"))):
            k["dtype"] = object
        if k.get("dtype") is int and a and anysym(a[0]) and name in ("array", "asarray"):
            k["dtype"] = object
            return fix(f(*a, **k)).astype(int)
        if name == "empty_like" and np.asarray(a[0]).dtype == object:
            return fix(np.full(np.shape(a[0]), float("nan"), dtype=object))
        return fix(f(*a, **k))
    g.__name__ = name
    return g


def over_array(it, dtype=None):
    return mk_creator("array")(it, dtype=dtype)


def concat_creator(name):
    f = getattr(np, name)

    def g(*a, **k):
        return _un0(f(*a, **k))
    return g


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if isinstance(start, (np.ndarray, list, tuple)) or isinstance(stop, (np.ndarray, list, tuple)):
        lo, hi = np.broadcast_arrays(np.asarray(start, dtype=object), np.asarray(stop, dtype=object))
        if retstep:
            raise NotImplementedError("linspace of arrays with retstep")
        cols = [linspace(x, y, num, endpoint) for x, y in zip(lo.ravel(), hi.ravel())]
        return fix(np.moveaxis(np.array(cols, dtype=object).reshape(lo.shape + (num,)), -1, axis))
    if not (anysym(start) or anysym(stop)):
        r = np.linspace(start, stop, num=num, endpoint=bool(endpoint), retstep=retstep)
        return (fix(r[0]), r[1]) if retstep else fix(r)
    if num == 0:
        return fix(np.zeros(0))
    div = (num - 1) if endpoint else num
    delta = stop - start
    out = [start + delta * Fraction(i, div) if div > 0 else start + 0 * delta for i in range(num)]
    if endpoint and num > 1:
        out[-1] = stop + 0 * start
    a = np.empty(num, dtype=object)
    for i, x in enumerate(out):
        a[i] = lift(x)
    a = a.view(SArr)
    return (a, delta / div) if retstep else a


def arange(*a, **k):
    if anysym(list(a)):
        vals = [0, None, 1]
        if len(a) == 1:
            vals[1] = a[0]
        else:
            vals[:len(a)] = a
        start, stop, step = vals
        n = int(((stop - start) / step).ceil()) if issym(stop - start) or issym(step) else _math.ceil((stop-start)/step)
        return fix(np.array([start + i * step for i in range(n)], dtype=object))
    r = np.arange(*a, **k)
    return fix(r)


# --- elementwise -------------------------------------------------------------------

def elementwise(name):
    f = getattr(np, name, None)

    def g(x, *a, out=None, where=None, **k):
        if out is not None or where is not None:
            x = np.asarray(x, dtype=object)
            mask = np.broadcast_to(True if where is None else np.asarray(where, dtype=bool), x.shape)
            o = out[0] if isinstance(out, tuple) else out
            r = np.full(x.shape, float("nan"), dtype=object).view(SArr) if o is None else o
            for i in np.ndindex(*x.shape):
                if mask[i]:
                    r[i] = g(x[i], *a)
            return r
        if isinstance(x, (list, tuple)) and anysym(x):
            x = np.array(x, dtype=object).view(SArr)
        if issym(x):
            return getattr(x, name)(*a)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return _map(lambda e: getattr(e, name)(*a) if issym(e) else f(_num(e)), x)
        return fix(f(x, *a, **k))
    g.__name__ = name
    return g


def _num(e):
    if isinstance(e, Fraction):
        return float(e)
    return e


def pred(name):
    f = getattr(np, name)
    const = {"isnan": False, "isinf": False, "isfinite": True}[name]

    def g(x, **k):
        if issym(x):
            return const
        if isinstance(x, (list, tuple)):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([const if issym(e) else bool(f(_num(e))) for e in x.ravel()],
                            dtype=bool).reshape(x.shape)
        return f(x, **k)
    return g


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (anysym(a) or anysym(b)):
        return np.isclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol, atol, equal_nan)
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))

    def one(x, y):
        return bool(abs(lift(x) - y) <= atol + rtol * abs(lift(y)))
    r = np.array([one(x, y) for x, y in zip(A.ravel(), B.ravel())], dtype=bool).reshape(A.shape)
    return bool(r) if r.ndim == 0 else r


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))


def array_equal(a, b, **k):
    A, B = np.asarray(a), np.asarray(b)
    if A.shape != B.shape:
        return False
    return all(bool(x == y) for x, y in zip(A.ravel(), B.ravel()))


def extremum(xs, mx=True):
    """max/min of a list as one symbol with its defining axioms."""
    xs = [x for x in xs if not (isinstance(x, float) and _math.isnan(x))] if False else list(xs)
    if any(isinstance(x, (float, np.floating)) and _math.isnan(x) for x in xs):
        return float("nan")
    if not any(issym(x) for x in xs):
        return max(xs) if mx else min(xs)
    if any(isinstance(x, (float, np.floating)) and _math.isinf(x) for x in xs):
        keep = [x for x in xs if not (isinstance(x, (float, np.floating)) and _math.isinf(x))]
        infs = [x for x in xs if isinstance(x, (float, np.floating)) and _math.isinf(x)]
        if any((v > 0) == mx for v in infs):
            return float("inf") if mx else float("-inf")
        xs = keep
    seen = {}
    for x in xs:
        x = lift(x)
        seen.setdefault(x.r.key(), x)
    vals = list(seen.values())
    # drop evidently dominated ones
    if len(vals) == 1:
        return vals[0]
    name = "max" if mx else "min"
    keys = tuple(sorted(seen, key=lambda k: hash(k)))

    def init(v):
        for x in vals:
            d = (x - v) if mx else (v - x)
            S.ENGINE.axiom(S.rel_raw("<=", d.r))
        S.ENGINE.axiom(S.bor(*[S.rel_raw("==", (x - v).r) for x in vals]))
    sg = "any"
    signs = {P.rsign(v.r) for v in vals}
    if signs <= {"+"}:
        sg = "pos"
    a, _ = S.atom(name, frozenset(seen), sg, init)
    P.space().vars[S._vid(a)].args = tuple(vals)
    return a


def _reduce(a, axis, mx):
    if isinstance(a, (list, tuple)):
        parts = [np.asarray(x, dtype=object) for x in a]
        if all(p.shape == parts[0].shape for p in parts):
            a = np.array([p for p in parts], dtype=object) if parts[0].ndim else np.array(list(a), dtype=object)
        else:
            raise ValueError("inhomogeneous")
    a = np.asarray(a)
    if a.dtype != object:
        return (np.max if mx else np.min)(a, axis=axis)
    if axis is None:
        return extremum(list(a.ravel()), mx)
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = extremum(list(b[i]), mx)
    return out.view(SArr)


def _extreme(a, axis, mx, keepdims=False, initial=None, where=None, out=None):
    if where is not None or out is not None:
        raise NotImplementedError("max/min with where or out")
    if isinstance(axis, tuple):
        raise NotImplementedError("max/min over several axes")
    if initial is not None and np.size(a) == 0:
        return initial
    r = _reduce(a, axis, mx)
    if initial is not None:
        r = (maximum if mx else minimum)(r, initial)
    if keepdims:
        r = np.reshape(np.asarray(r, dtype=object), (1,) * np.ndim(a)) if axis is None else np.expand_dims(r, axis)
        r = fix(r)
    return r


def npmax(a, axis=None, **k):
    return _extreme(a, axis, True, **k)


def npmin(a, axis=None, **k):
    return _extreme(a, axis, False, **k)


def _nan(x):
    return isinstance(x, (float, np.floating)) and _math.isnan(x)


def _without_nan(f, a, axis):
    """f of the entries that are not NaN, along axis."""
    a = np.asarray(a, dtype=object)
    if axis is None:
        return f([x for x in a.ravel() if not _nan(x)])
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f([x for x in b[i] if not _nan(x)])
    return out.view(SArr) if out.ndim else out[()]


def nanmax(a, axis=None):
    return _without_nan(lambda xs: extremum(xs, True), a, axis)


def nanmin(a, axis=None):
    return _without_nan(lambda xs: extremum(xs, False), a, axis)


def npargmax(a, axis=None):
    a = np.asarray(a)
    if a.dtype != object:
        return np.argmax(a, axis=axis)

    def one(xs):
        best = 0
        for i in range(1, len(xs)):
            if bool(lift(xs[i]) > xs[best]):
                best = i
        return best
    if axis is None:
        return one(list(a.ravel()))
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for i in np.ndindex(*out.shape):
        out[i] = one(list(b[i]))
    return out


def argmax(a, axis=None, **k):
    return npargmax(a, axis)


def argmin(a, axis=None, **k):
    return npargmax(-np.asarray(a), axis)


def maximum(a, b):
    if not (anysym(a) or anysym(b)):
        return fix(np.maximum(a, b))
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    r = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        r[i] = extremum([A[i], B[i]], True)
    return r.view(SArr) if r.ndim else r[()]


def minimum(a, b):
    if not (anysym(a) or anysym(b)):
        return fix(np.minimum(a, b))
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    r = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        r[i] = extremum([A[i], B[i]], False)
    return r.view(SArr) if r.ndim else r[()]


def clip(a, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None, **k):
    lo, hi = [next((v for v in vs if v is not None), None) for vs in ((lo, a_min, min), (hi, a_max, max))]
    if k:
        raise NotImplementedError("clip with %s" % sorted(k))
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(c, *ab):
    if isinstance(c, SymBool):
        c = bool(c)
    if isinstance(c, np.ndarray) and c.dtype == object:
        c = np.array([bool(x) for x in c.ravel()], dtype=bool).reshape(c.shape)
    if not ab:
        return np.where(c)
    a, b = ab
    if anysym(a) or anysym(b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return fix(np.where(c, a, b))


def around(x, nd=0, **k):
    if not anysym(x):
        return fix(np.round(np.asarray(x, dtype=float), nd)) if isinstance(x, np.ndarray) else np.round(x, nd)
    nd = int(nd)
    if issym(x):
        return x.__round__(nd) if nd else x.rint()
    return _map(lambda e: e.__round__(nd), np.asarray(x, dtype=object))


def interp(x, xp, fp, left=None, right=None, period=None):
    xs = np.atleast_1d(np.asarray(x, dtype=object))
    xp = list(xp)
    fp = list(fp)

    def one(v):
        if v <= xp[0]:
            return fp[0] if left is None else left
        for i in range(1, len(xp)):
            if v <= xp[i]:
                return fp[i-1] + (fp[i] - fp[i-1]) * (v - xp[i-1]) / (xp[i] - xp[i-1])
        return fp[-1] if right is None else right
    r = np.array([one(v) for v in xs.ravel()], dtype=object).reshape(xs.shape).view(SArr)
    return r if np.ndim(x) else r[0]


def unique(a, **k):
    if not anysym(a):
        return np.unique(a, **k)
    out = []
    for x in np.asarray(a, dtype=object).ravel():
        for i, y in enumerate(out):
            if bool(x == y):
                break
            if bool(x < y):
                out.insert(i, x)
                break
        else:
            out.append(x)
    return np.array(out, dtype=object).view(SArr)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(np.asarray(y), axis, -1)
    n = y.shape[-1]
    tot = 0
    for i in range(n - 1):
        h = dx if x is None else np.asarray(x)[..., i + 1] - np.asarray(x)[..., i]
        tot = tot + h * (y[..., i] + y[..., i + 1]) / 2
    return fix(tot) if isinstance(tot, np.ndarray) else tot


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    y = np.asarray(y)
    yy = np.moveaxis(y, axis, -1)
    n = yy.shape[-1]
    if x is not None:
        x = np.asarray(x)
        if x.ndim == 1 and len(x) != n:
            raise ValueError("If given, length of x along axis must be the same as y.")
    cols = []
    acc = 0
    for i in range(n - 1):
        h = dx if x is None else (x[i + 1] - x[i] if x.ndim == 1 else np.moveaxis(x, axis, -1)[..., i+1] - np.moveaxis(x, axis, -1)[..., i])
        acc = acc + h * (yy[..., i] + yy[..., i + 1]) / 2
        cols.append(acc)
    if initial is not None:
        if initial != 0:
            raise ValueError("`initial` must be `None` or `0`.")
        cols.insert(0, 0 * yy[..., 0])
    out = np.empty(yy.shape[:-1] + (len(cols),), dtype=object)
    for i, c in enumerate(cols):
        out[..., i] = c
    return np.moveaxis(out, -1, axis).view(SArr)


# --- contract stubs -----------------------------------------------------------------

def matkey(a):
    out = [a.shape]
    for x in a.ravel():
        if isinstance(x, SymC):
            out.append((x.re.r.key(), x.im.r.key()))
        else:
            out.append(lift(x).r.key())
    return tuple(out)


def linalg_solve(A, b):
    e = S.ENGINE
    A, b = np.asarray(A), np.asarray(b)
    if A.ndim != 2 or A.shape[0] != A.shape[1] or b.shape[0] != A.shape[0]:
        raise np.linalg.LinAlgError("shape mismatch in solve")
    if not anysym(A) and not anysym(b):
        return fix(np.linalg.solve(A.astype(float), b.astype(float)))
    hook = getattr(e, "solve_hook", None)
    if hook is not None:
        r = hook(A, b)
        if r is not None:
            return r
    key = ("solve", matkey(A), matkey(b))
    rec = e.memo.get(key)
    B = b.reshape(b.shape[0], -1)
    if rec is None:
        k = e.memo.setdefault("nsolve", 0)
        e.memo["nsolve"] = k + 1
        X = np.empty(B.shape, dtype=object)
        for i in range(B.shape[0]):
            for j in range(B.shape[1]):
                X[i, j] = e.fresh("x%d_%d_%d" % (k, i, j))
        # contract: A x = b row by row
        for j in range(B.shape[1]):
            for i in range(A.shape[0]):
                r = lift(0)
                for c in range(A.shape[1]):
                    a = A[i, c]
                    if isinstance(a, (int, float, np.number)) and a == 0:
                        continue
                    r = r + X[c, j] * a
                e.fact(S.rel_raw("==", (r - B[i, j]).r), {S._vid(x) for x in X[:, j]})
        rec = X
        e.memo[key] = rec
        e.events.append(("solve", A, b, X))
    return rec.reshape(b.shape).view(SArr).copy()


def linalg_inv(A):
    A = np.asarray(A)
    return linalg_solve(A, np.eye(A.shape[0], dtype=int))


def linalg_lstsq(A, b, rcond=None):
    A = np.asarray(A)
    if A.shape[0] != A.shape[1]:
        raise NotImplementedError("lstsq of a non-square symbolic system")
    return linalg_solve(A, b), fix(np.zeros(0)), A.shape[0], fix(np.ones(A.shape[0]))


def linalg_det(A):
    A = np.asarray(A)
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    tot = 0
    for j in range(n):
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        tot = tot + (-1) ** j * A[0, j] * linalg_det(minor)
    return tot


def linalg_norm(x, ord=None, axis=None, keepdims=False):
    a = np.asarray(x)
    if ord not in (None, 2) and not (ord == "fro" and a.ndim == 2) or ord == 2 and a.ndim == 2 and axis is None:
        if a.ndim == 1 and ord == 1:
            return sum((abs(lift(v)) for v in a), lift(0))
        if a.ndim == 1 and ord == np.inf:
            return extremum([abs(lift(v)) for v in a], True)
        raise NotImplementedError("norm of this order")
    if axis is None:
        return S.ssqrt(sum((lift(v) * v for v in a.ravel()), lift(0)))
    return elementwise("sqrt")(fix((a * a).sum(axis=axis, keepdims=keepdims)))


def linalg_eig(A):
    """Contract: A v = lambda v for every returned pair; a real matrix has
    real and complex-conjugate pairs.  The pattern (which positions are real)
    is a parameter of the harness instance; signs are decided by forking."""
    e = S.ENGINE
    A = np.asarray(A)
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise np.linalg.LinAlgError("square matrix required")
    key = ("eig", matkey(A))
    rec = e.memo.get(key)
    if rec is None:
        k = e.memo.setdefault("neig", 0)
        e.memo["neig"] = k + 1
        pats = e.opts.get("eig_patterns") or ["PNpn"]
        pat = pats[k % len(pats)]
        w = np.empty(n, dtype=object)
        V = np.empty((n, n), dtype=object)
        i = 0
        count = {}
        for ch in pat:
            c = count[ch] = count.get(ch, 0) + 1
            sg = "any"
            if ch in "RC":
                # signs left open: forked by the code; C: conjugate pair
                pass
            if ch in "PN":           # real, positive / negative
                sg = "pos" if ch == "P" else "neg"
            if ch in "pn":           # complex pair with positive/negative real part
                sg = "pos" if ch == "p" else "neg"
            if ch in "RPN":
                w[i] = e.fresh("ew%d_%d" % (k, i), sg if sg != "any" else "nonzero")
                for r in range(n):
                    V[r, i] = e.fresh("ev%d_%d_%d" % (k, r, i))
                i += 1
            else:
                re = e.fresh("er%d_%d" % (k, i), sg)
                im = e.fresh("ei%d_%d" % (k, i), "pos")
                w[i], w[i + 1] = SymC(re, im), SymC(re, -im)
                for r in range(n):
                    a = e.fresh("va%d_%d_%d" % (k, r, i))
                    b = e.fresh("vb%d_%d_%d" % (k, r, i))
                    V[r, i], V[r, i + 1] = SymC(a, b), SymC(a, -b)
                i += 2
        assert i == n, pat
        trig = []
        for j in range(n):
            t = set()
            for y in [w[j]] + list(V[:, j]):
                for z in ((y.re, y.im) if isinstance(y, SymC) else (y,)):
                    t |= P.rvars(z.r)
            trig.append(t)
        for j in range(n):
            x = w[j]
            if isinstance(x, SymC) and j and isinstance(w[j-1], SymC) and w[j-1].re is x.re:
                continue        # conjugate gives the same facts
            for r in range(n):
                s = lift(0)
                t = lift(0)
                for c in range(n):
                    a = A[r, c]
                    if isinstance(a, (int, float, np.number)) and a == 0:
                        continue
                    z = V[c, j]
                    if isinstance(z, SymC):
                        s, t = s + z.re * a, t + z.im * a
                    else:
                        s = s + z * a
                z = V[r, j]
                if isinstance(z, SymC):
                    s = s - (x.re * z.re - x.im * z.im)
                    t = t - (x.re * z.im + x.im * z.re)
                    facts = [s, t]
                else:
                    facts = [s - x * z]
                for f in facts:
                    if f.r.n:
                        e.fact(S.rel_raw("==", f.r), trig[j])
        if not any(isinstance(x, SymC) for x in w):
            pass
        else:
            for j in range(n):
                if not isinstance(w[j], SymC):
                    w[j] = SymC(w[j], lift(0))
                    for r in range(n):
                        V[r, j] = SymC(V[r, j], lift(0))
        rec = (w, V)
        e.memo[key] = rec
        e.events.append(("eig", A, w, V))
    w, V = rec
    return w.copy().view(SArr), V.copy().view(SArr)


def quad(f, a, b, args=(), **k):
    """Exact integral: linear functional over integrand terms in the bound
    variable; plus the mean-value property (continuous integrands)."""
    e = S.ENGINE
    nq = e.memo.setdefault("nquad", 0)
    e.memo["nquad"] = nq + 1
    t = e.fresh("bound_var_%d" % nq)
    if not hasattr(e, "bound"):
        e.bound = set()
    e.bound.add(S._vid(t))
    e.assume_between = None
    lo, hi = lift(a), lift(b)
    e.path.append(S.rel_raw("<=", (lo - t).r))
    e.path.append(S.rel_raw("<=", (t - hi).r))
    v = f(t, *args)
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        v = v.ravel()[0]
    v = lift(v)
    val = integrate(v, t, lo, hi)
    return val, lift(0)


def integrate(v, t, lo, hi):
    """Integral of v dt over [lo, hi] as linear combination of INT atoms."""
    tid = S._vid(t)
    sp = P.space()
    dep = {}

    def depends(i):
        d = dep.get(i)
        if d is None:
            V = sp.vars[i]
            d = i == tid
            if not d and V.kind == "atom" and V.args:
                for a in V.args:
                    if isinstance(a, Sym):
                        d = d or any(depends(j) for j in P.rvars(a.r))
            dep[i] = d
        return d
    r = v.r
    fdep = [fid for fid, _ in r.f if any(depends(i) for m in sp.factors[fid] for i, _ in m)]
    fout = tuple((i, k) for i, k in r.f if i not in fdep)
    fin = tuple((i, k) for i, k in r.f if i in fdep)
    groups = {}
    for m, c in r.n.items():
        mi = tuple(x for x in m if depends(x[0]))
        mo = tuple(x for x in m if not depends(x[0]))
        g = groups.setdefault(mi, {})
        g[mo] = g.get(mo, 0) + c
    tot = lift(0)
    for mi, g in groups.items():
        coef = Sym(P.Rat(g, 1, ()))
        base = P.Rat({mi: 1}, 1, fin)
        if not fin and (mi == () or (len(mi) == 1 and mi[0][0] == tid)):
            k = mi[0][1] if mi else 0
            val = (hi ** (k + 1) - lo ** (k + 1)) / (k + 1)
        else:
            # canonical name: bound variable and its atoms renamed
            ren = _alpha(base, tid, depends)
            val, _ = S.atom("INT", (ren, lo.r.key(), hi.r.key()))
        tot = tot + coef * val
    if r.d != 1 or fout:
        tot = tot * Sym(P.Rat({(): 1}, r.d, fout))
    return tot


def _alpha(base, tid, depends):
    sp = P.space()

    def vkey(i):
        if i == tid:
            return "#t"
        V = sp.vars[i]
        if V.kind == "atom" and depends(i):
            ks = []
            for a in V.args:
                if isinstance(a, Sym):
                    ks.append(rkey(a.r))
            return (V.func, tuple(ks))
        return V.name

    def pkey(p):
        return frozenset((tuple(sorted(((repr(vkey(i)), e) for i, e in m))), c) for m, c in p.items())

    def rkey(r):
        return (pkey(r.n), r.d, tuple(sorted((repr(sorted(map(repr, pkey(sp.factors[i])))), e) for i, e in r.f)))
    return rkey(base)


def brentq(f, a, b, args=(), xtol=2e-12, rtol=1e-15, maxiter=100, full_output=False, disp=True):
    """Contract: if f(a) and f(b) have opposite signs, a root in [a, b]; a
    coarse tolerance gives any value that close to a root."""
    e = S.ENGINE
    args = args if isinstance(args, tuple) else (args,)
    slack = [v for v, least in ((xtol, 1e-6), (rtol, 1e-9)) if not issym(v) and v > least]
    if slack:
        r = _root(e, f, a, b, args)
        n = e.memo.setdefault(("rootslack", r.r.key()), e.memo["nbrent"])
        d = e.fresh("rootslack%d" % n, "any")
        by = lift(float(xtol)) + (abs(r) * float(rtol) if rtol > 1e-9 else 0)
        e.path.append(S.rel_raw("<=", (d - by).r))
        e.path.append(S.rel_raw("<=", (-d - by).r))
        r = r + d
    elif not disp or maxiter < 50:
        raise NotImplementedError("root finder that may stop early")
    else:
        r = _root(e, f, a, b, args)
    if full_output:
        return r, types.SimpleNamespace(root=r, converged=True, iterations=10, function_calls=12, flag="converged")
    return r


def _root(e, f, a, b, args):
    nb = e.memo.setdefault("nbrent", 0)
    e.memo["nbrent"] = nb + 1
    # the function must be deterministic: key on its value at a probe point
    probe = e.fresh("probe")
    lo, hi = lift(a), lift(b)
    fp = lift(_scalar(f(probe, *args)))
    key = ("brentq", fp.r.key(), lo.r.key(), hi.r.key())
    rec = e.memo.get(key)
    if rec is None:
        k_ = e.memo.setdefault("nroot", 0)
        e.memo["nroot"] = k_ + 1
        x = e.fresh("root%d" % k_, "pos" if P.rsign(lo.r) == "+" else "any")
        e.path.append(S.rel_raw("<=", (lo - x).r))
        e.path.append(S.rel_raw("<=", (x - hi).r))
        fx = lift(_scalar(f(x, *args)))
        e.fact(S.rel_raw("==", fx.r), P.rvars(x.r))
        rec = x
        e.memo[key] = rec
        e.events.append(("brentq", x, fx, lo, hi))
    return rec


def _scalar(v):
    if isinstance(v, np.ndarray):
        return v.ravel()[0]
    return v


def minimize_stub(*a, **k):
    raise NotImplementedError("optimiser not modelled")


# --- module objects -----------------------------------------------------------------

class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.ravel()[0]
            if isinstance(x, Sym):
                return x
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class Float(float, metaclass=FloatMeta):
    pass


class ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, S.SymC))

    def __call__(cls, re=0, im=0):
        if issym(re) or issym(im):
            return S.SymC.of(re) + S.SymC(lift(0), lift(1)) * im
        return complex(re, im) if not isinstance(re, str) else complex(re)

    def __eq__(cls, o):
        return o is cls or o is complex

    def __hash__(cls):
        return hash(complex)


class Complex(complex, metaclass=ComplexMeta):
    pass


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.ravel()[0]
        if isinstance(x, Sym) and S.plain(x):
            return x.trunc()
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class Int(int, metaclass=IntMeta):
    pass


class Shim(types.ModuleType):
    def __init__(self, name, base, over):
        super().__init__(name)
        self.__dict__["_base"] = base
        self.__dict__.update(over)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.__dict__["_base"], k)


def build_numpy():
    over = {}
    for n in ("zeros", "ones", "empty", "full", "array", "asarray", "asanyarray", "atleast_1d",
              "atleast_2d", "zeros_like", "ones_like", "full_like", "empty_like", "eye",
              "identity", "diag", "copy", "ascontiguousarray", "fromiter"):
        over[n] = mk_creator(n)
    for n in ("concatenate", "hstack", "vstack", "column_stack", "stack", "repeat", "tile",
              "insert", "append", "delete", "cumsum", "cumprod", "diff", "dot", "matmul", "outer", "inner",
              "multiply", "add", "subtract", "divide", "true_divide", "flip", "flipud", "fliplr",
              "transpose", "reshape", "ravel", "squeeze", "block", "sum", "prod", "einsum", "average",
              "mean", "kron", "roll", "moveaxis", "polyval", "cross", "tensordot", "broadcast_to", "take",
              "sort", "split", "array_split", "expand_dims", "swapaxes", "pad", "vdot", "trace",
              "triu", "tril", "power", "negative", "float_power"):
        over[n] = concat_creator(n)

    def average(a, axis=None, weights=None, keepdims=False):
        a = np.asarray(a)
        if weights is None:
            n = a.size if axis is None else a.shape[axis]
            r = a.sum(axis=axis, keepdims=keepdims) / n
        else:
            w = np.asarray(weights)
            if axis is not None and w.ndim == 1 and a.ndim > 1:
                w = w.reshape([-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
            r = (a * w).sum(axis=axis, keepdims=keepdims) / (w + 0 * a).sum(axis=axis, keepdims=keepdims)
        return fix(r) if isinstance(r, np.ndarray) else r
    over["average"] = average
    over["mean"] = lambda a, axis=None, keepdims=False: average(a, axis, keepdims=keepdims)
    over["nanmean"] = lambda a, axis=None: _without_nan(average, a, axis)
    over["nansum"] = lambda a, axis=None: _without_nan(lambda xs: np.sum(np.array(xs + [0], dtype=object)), a, axis)
    over["row_stack"] = over["vstack"]
    for n in ("sqrt", "sin", "cos", "tan", "exp", "sinh", "cosh", "tanh", "log", "log10", "log2",
              "arctan", "arcsin", "arccos", "deg2rad", "rad2deg", "radians", "degrees", "ceil",
              "floor", "rint", "square", "reciprocal", "expm1", "trunc", "fabs", "absolute", "cbrt",
              "log1p", "exp2", "arcsinh", "arccosh", "arctanh"):
        over[n] = elementwise(n)
    over["abs"] = lambda x, **k: abs(x) if not isinstance(x, (list, tuple)) else abs(over["array"](x))
    over["absolute"] = over["abs"]
    over["fabs"] = over["abs"]
    over["sign"] = lambda x: _map(lambda e: S.sgn(lift(e)), x) if isinstance(x, np.ndarray) and x.dtype == object else (S.sgn(x) if issym(x) else np.sign(x))
    over["real"] = lambda x: x.real
    over["imag"] = lambda x: x.imag
    over["conj"] = lambda x: x.conj() if hasattr(x, "conj") else np.conj(x)
    over["conjugate"] = over["conj"]

    def isreal(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([not isinstance(e, (SymC, complex)) or bool(lift(e.imag) == 0) for e in x.ravel()], dtype=bool).reshape(x.shape)
        return np.isreal(x)
    over["isreal"] = isreal
    over["iscomplex"] = lambda x: ~isreal(x) if isinstance(x, np.ndarray) else not isreal(x)
    over["iscomplexobj"] = lambda x: isinstance(x, np.ndarray) and any(isinstance(e, (SymC, complex)) for e in x.ravel())
    for n in ("isnan", "isinf", "isfinite"):
        over[n] = pred(n)
    over.update(isclose=isclose, allclose=allclose, array_equal=array_equal, linspace=linspace,
                arange=arange, max=npmax, min=npmin, amax=npmax, amin=npmin, nanmax=nanmax,
                nanmin=nanmin, argmax=argmax, argmin=argmin, maximum=maximum, minimum=minimum,
                fmax=maximum, fmin=minimum, clip=clip, where=where, round=around, around=around,
                interp=interp, unique=unique, trapezoid=trapezoid, trapz=trapezoid)
    over["hypot"] = lambda a, b: lift(a).hypot(lift(b)) if issym(a) or issym(b) else np.hypot(a, b)
    over["arctan2"] = lambda a, b: S.uf("atan2", lift(a), lift(b)) if issym(a) or issym(b) else np.arctan2(a, b)

    def all_(a, axis=None, **k):
        a = np.asarray(a)
        if a.dtype == object:
            a = np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)
        return np.all(a, axis=axis, **k)

    def any_(a, axis=None, **k):
        a = np.asarray(a)
        if a.dtype == object:
            a = np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)
        return np.any(a, axis=axis, **k)
    over["all"], over["any"] = all_, any_

    def lognot(a):
        a = np.asarray(a)
        if a.dtype == object:
            a = np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)
        return np.logical_not(a)
    over["logical_not"] = lognot
    for n in ("logical_and", "logical_or", "logical_xor"):
        f = getattr(np, n)

        def lg(a, b, f=f, **k):
            cv = lambda a: np.array([bool(x) for x in np.asarray(a).ravel()], dtype=bool).reshape(np.asarray(a).shape)
            return f(cv(a), cv(b))
        over[n] = lg

    def searchsorted(a, v, side="left", sorter=None):
        a = list(a)

        def one(x):
            i = 0
            while i < len(a) and bool(lift(a[i]) < x if side == "left" else lift(a[i]) <= x):
                i += 1
            return i
        if isinstance(v, np.ndarray):
            return np.array([one(x) for x in v.ravel()]).reshape(v.shape)
        return one(v)
    over["searchsorted"] = searchsorted

    def vectorize(f, otypes=None, **k):
        def g(*a):
            arrs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a])
            out = np.empty(arrs[0].shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = f(*[x[i] for x in arrs])
            return out.view(SArr) if out.ndim else out[()]
        return g
    over["vectorize"] = vectorize
    over["ndarray"] = np.ndarray
    over["linalg"] = Shim("numpy.linalg", np.linalg, dict(
        solve=linalg_solve, eig=linalg_eig, inv=linalg_inv, lstsq=linalg_lstsq, det=linalg_det,
        norm=linalg_norm, pinv=linalg_inv,
        eigvals=lambda A: linalg_eig(A)[0],
        cond=lambda A, *a: S.uf("cond", *[lift(x) for x in np.asarray(A).ravel()]),
        matrix_rank=lambda A, *a, **k: np.asarray(A).shape[0]))
    for n in ("add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum",
              "logical_and", "logical_or", "power", "fmax", "fmin"):
        over[n] = Ufunc(over[n], getattr(np, n), n)

    def sum_(a, axis=None, where=None, **k):
        a = np.asarray(a)
        if where is not None:
            a = np.where(np.broadcast_to(where, a.shape), a, 0)
        k.pop("dtype", None)
        return _un0(fix(np.sum(a, axis=axis, **k))) if a.dtype == object else fix(np.sum(a, axis=axis, **k))
    over["sum"] = sum_

    def gradient(f, x=1, **k):
        f = np.asarray(f, dtype=object)
        if f.ndim != 1 or k:
            raise NotImplementedError("gradient of this form")
        h = np.diff(np.asarray(x, dtype=object)) if isinstance(x, (np.ndarray, list, tuple)) else np.full(f.size - 1, x, dtype=object)
        out = np.empty(f.size, dtype=object)
        out[0], out[-1] = (f[1] - f[0]) / h[0], (f[-1] - f[-2]) / h[-1]
        for i in range(1, f.size - 1):
            a, b = h[i - 1], h[i]
            out[i] = (a * a * f[i + 1] + (b * b - a * a) * f[i] - b * b * f[i - 1]) / (a * b * (a + b))
        return out.view(SArr)
    over["gradient"] = gradient

    def each(one, f):
        def g(*a, **k):
            if not any(anysym(x) for x in a):
                return fix(f(*[np.asarray(x, dtype=float) if isinstance(x, np.ndarray) else x for x in a], **k))
            xs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a])
            out = np.empty(xs[0].shape, dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = one(*[lift(x[i]) for x in xs])
            return out.view(SArr) if out.ndim else out[()]
        return g
    over["heaviside"] = each(lambda x, h: h if x == 0 else (lift(1) if x > 0 else lift(0)), np.heaviside)
    over["copysign"] = each(lambda x, s: abs(x) if s >= 0 else -abs(x), np.copysign)
    over["hypot"] = each(lambda a, b: a.hypot(b), np.hypot)
    over["arctan2"] = each(lambda a, b: S.uf("atan2", a, b), np.arctan2)
    over["signbit"] = lambda x: x < 0
    over["float_power"] = over["power"]
    over["fmod"] = each(lambda a, b: a.fmod(b), np.fmod)
    over["mod"] = over["remainder"] = each(lambda a, b: a % b, np.mod)
    over["floor_divide"] = each(lambda a, b: a // b, np.floor_divide)
    over["logaddexp"] = each(lambda a, b: a.logaddexp(b), np.logaddexp)

    def divmod_(a, b):
        q = over["floor_divide"](a, b)
        return q, a - b * q
    over["divmod"] = divmod_
    for a, b in (("asin", "arcsin"), ("acos", "arccos"), ("atan", "arctan"), ("atan2", "arctan2"), ("asinh", "arcsinh"), ("acosh", "arccosh"),
                 ("atanh", "arctanh"), ("pow", "power"), ("concat", "concatenate"), ("permute_dims", "transpose")):
        over[a] = over[b]
    over["float64"] = over["double"] = Float
    over["isscalar"] = lambda x: issym(x) or np.isscalar(x)
    over["ndim"] = lambda x: 0 if issym(x) else np.ndim(x)

    def modf(x):
        if isinstance(x, np.ndarray):
            w = over["trunc"](x)
        else:
            w = lift(x).trunc() if issym(x) else _math.modf(x)[1]
        return x - w, w
    over["modf"] = modf
    over["hypot"] = Ufunc(over["hypot"], np.hypot, "hypot")
    over["nan_to_num"] = lambda a, nan=0.0, **k: _map(lambda x: nan if _nan(x) else x, fix(np.asarray(a, dtype=object))) if isinstance(a, (np.ndarray, list, tuple)) else (nan if _nan(a) else a)
    m = Shim("numpy", np, over)
    return m


class Ufunc:
    """A binary function with numpy's reduce, accumulate and outer."""

    def __init__(self, f, base, name):
        self.f, self.base, self.__name__ = f, base, name

    def __call__(self, *a, out=None, where=None, **k):
        if out is not None or where is not None:
            r = self.base(*a, **dict(k, **({"out": out} if out is not None else {}), **({"where": where} if where is not None else {})))
            return fix(r)
        return self.f(*a, **k)

    def reduce(self, a, axis=0, **k):
        a = np.asarray(a, dtype=object)
        if axis is None:
            a, axis = a.ravel(), 0
        parts = [fix(np.take(a, i, axis=axis)) for i in range(a.shape[axis])]
        r = parts[0]
        for x in parts[1:]:
            r = self.f(r, x)
        return r

    def accumulate(self, a, axis=0, **k):
        a = np.asarray(a, dtype=object)
        parts = [fix(np.take(a, i, axis=axis)) for i in range(a.shape[axis])]
        out = parts[:1]
        for x in parts[1:]:
            out.append(self.f(out[-1], x))
        return fix(np.stack(out, axis=axis)) if isinstance(out[0], np.ndarray) else fix(np.array(out, dtype=object))

    def reduceat(self, a, indices, axis=0, **k):
        n = np.shape(a)[axis]
        ends = list(indices[1:]) + [n]
        parts = [self.reduce(np.take(np.asarray(a, dtype=object), range(i, j if j > i else i + 1), axis=axis), axis=axis) for i, j in zip(indices, ends)]
        return fix(np.stack([np.asarray(q, dtype=object) for q in parts], axis=axis))

    def at(self, a, indices, b=None):
        idx = np.atleast_1d(np.asarray(indices))
        bs = np.broadcast_to(np.asarray(b, dtype=object), idx.shape)
        if idx.ndim != 1 or idx.dtype == object:
            raise NotImplementedError("ufunc.at of this form")
        for i, v in zip(idx, bs):
            a[i] = self.f(a[i], v)

    def outer(self, a, b, **k):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return fix(self.base(a.reshape(a.shape + (1,) * b.ndim), b)) if self.__name__ not in ("maximum", "minimum", "fmax", "fmin") \
            else self.f(fix(np.broadcast_to(a.reshape(a.shape + (1,) * b.ndim), a.shape + b.shape)), b)


class _PiModule(Shim):
    @property
    def pi(self):
        return S.PI()


def numpy_module():
    m = build_numpy()
    m.__class__ = type("NumpyShim", (Shim,), {"pi": property(lambda s: S.PI())})
    return m


def math_module():
    over = {}
    for n in ("sin", "cos", "tan", "exp", "log", "log10", "log2", "sqrt", "atan", "asin", "acos", "sinh", "cosh", "tanh", "fabs"):
        f = getattr(_math, n)
        meth = {"atan": "arctan", "asin": "arcsin", "acos": "arccos"}.get(n, n)

        def g(x, *a, f=f, meth=meth):
            if isinstance(x, np.ndarray) and x.size == 1:
                x = x.ravel()[0]
            if issym(x):
                return getattr(x, meth)()
            return f(x, *a)
        over[n] = g
    over["radians"] = lambda x: x.deg2rad() if issym(x) else _math.radians(x)
    over["degrees"] = lambda x: x.rad2deg() if issym(x) else _math.degrees(x)
    over["pow"] = lambda a, b: a ** b
    over["hypot"] = lambda *a: lift(sum(lift(x) * x for x in a)).sqrt() if any(issym(x) for x in a) else _math.hypot(*a)
    over["dist"] = lambda p, q: lift(sum((lift(x) - y) * (lift(x) - y) for x, y in zip(p, q))).sqrt() if anysym(list(p) + list(q)) else _math.dist(p, q)
    over["atan2"] = lambda a, b: S.uf("atan2", lift(a), lift(b)) if issym(a) or issym(b) else _math.atan2(a, b)
    over["copysign"] = lambda a, b: (abs(lift(a)) if bool(lift(b) >= 0) else -abs(lift(a))) if issym(a) or issym(b) else _math.copysign(a, b)
    over["fmod"] = lambda a, b: lift(a).fmod(b) if issym(a) or issym(b) else _math.fmod(a, b)
    over["trunc"] = lambda x: x.__trunc__() if issym(x) else _math.trunc(x)
    over["expm1"] = lambda x: x.expm1() if issym(x) else _math.expm1(x)
    over["log1p"] = lambda x: x.log1p() if issym(x) else _math.log1p(x)
    over["exp2"] = lambda x: x.exp2() if issym(x) else _math.pow(2, x)
    over["cbrt"] = lambda x: x.cbrt() if issym(x) else _math.cbrt(x)
    over["sumprod"] = lambda p, q: sum(x * y for x, y in zip(p, q))
    over["floor"] = lambda x: x.__floor__() if issym(x) else _math.floor(x)
    over["ceil"] = lambda x: x.__ceil__() if issym(x) else _math.ceil(x)
    over["isnan"] = lambda x: False if issym(x) else _math.isnan(x)
    over["isinf"] = lambda x: False if issym(x) else _math.isinf(x)
    over["isfinite"] = lambda x: True if issym(x) else _math.isfinite(x)
    over["fsum"] = lambda xs: sum(xs)
    over["prod"] = lambda xs: np.prod(np.array(list(xs), dtype=object))
    over["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        bool(abs(lift(a) - b) <= abs_tol) or bool(abs(lift(a) - b) <= rel_tol * abs(lift(a)))
        or bool(abs(lift(a) - b) <= rel_tol * abs(lift(b)))) if issym(a) or issym(b) else _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m = Shim("math", _math, over)
    m.__class__ = type("MathShim", (Shim,), {"pi": property(lambda s: S.PI())})
    return m


def scipy_modules():
    import scipy
    import scipy.integrate
    import scipy.optimize
    import scipy.linalg

    def root_scalar(f, args=(), method=None, bracket=None, x0=None, xtol=2e-12, rtol=1e-15, maxiter=100, **k):
        if bracket is None:
            raise NotImplementedError("root_scalar without bracket")
        r = brentq(f, bracket[0], bracket[1], args, xtol or 2e-12, rtol or 1e-15, maxiter or 100)
        return types.SimpleNamespace(root=r, converged=True)
    def quad_vec(f, a, b, epsabs=None, epsrel=None, args=(), **k):
        one = f(lift(a), *args)
        if np.ndim(one) == 0:
            return quad(f, a, b, args)
        parts = [quad(lambda x: np.asarray(f(x, *args))[i], a, b)[0] for i in np.ndindex(*np.shape(one))]
        return fix(np.array(parts, dtype=object).reshape(np.shape(one))), lift(0)
    integ = Shim("scipy.integrate", scipy.integrate, dict(
        quad=quad, quad_vec=quad_vec, cumulative_trapezoid=cumulative_trapezoid, trapezoid=trapezoid))
    opt = Shim("scipy.optimize", scipy.optimize, dict(
        brentq=brentq, bisect=brentq, brenth=brentq, ridder=brentq, toms748=brentq,
        root_scalar=root_scalar))
    lin = Shim("scipy.linalg", scipy.linalg, dict(
        solve=lambda A, b, **k: linalg_solve(A, b), eig=lambda A, **k: linalg_eig(A), inv=linalg_inv, det=lambda A, **k: linalg_det(A),
        lu_factor=lambda A, **k: (np.array(A, dtype=object), None), lu_solve=lambda f, b, **k: linalg_solve(f[0], b), lstsq=linalg_lstsq, eigvals=lambda A: linalg_eig(A)[0],
        norm=linalg_norm))
    top = Shim("scipy", scipy, dict(integrate=integ, optimize=opt, linalg=lin))
    return {"scipy": top, "scipy.integrate": integ, "scipy.optimize": opt, "scipy.linalg": lin}
