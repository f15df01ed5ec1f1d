"""Symbolic scalars: Sym (real), SymC (complex), SymBool, and the atoms for
transcendental functions with their axioms."""
from fractions import Fraction
from math import gcd, isnan, isinf
import numbers
import numpy as np

from . import poly as P
from .poly import Rat, rconst, radd, rsub, rmul, rdiv, rneg, rpow, rsign, ONE

ENGINE = None       # set by engine.py


def eng():
    return ENGINE


# --- numbers --------------------------------------------------------------

_FCACHE = {}


def simplest(x):
    """Simplest rational within a few ulps of the double x (constants in the
    source such as 5/6, 1e-12, 4.4 denote those rationals)."""
    r = _FCACHE.get(x)
    if r is None:
        f = Fraction(x)
        tol = abs(f) * Fraction(1, 2 ** 51)
        r = _simplest_between(f - tol, f + tol) if f > 0 else (
            -_simplest_between(-f - tol, -f + tol) if f < 0 else Fraction(0))
        # very small magnitudes: simplest in terms of decimal notation
        _FCACHE[x] = r
    return r


def _simplest_between(lo, hi):
    # Stern-Brocot / continued fraction
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    return fl + 1 / _simplest_between(1 / (hi - fl), 1 / (lo - fl))


def to_rat(x):
    """Rat of a Python/numpy real number, or None if not a finite real."""
    if type(x) is Sym:
        return x.r
    if isinstance(x, (bool, np.bool_)):
        return rconst(int(x))
    if isinstance(x, (int, np.integer)):
        return rconst(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if isnan(x) or isinf(x):
            return None
        if x == int(x) and abs(x) < 2 ** 53:
            return rconst(int(x))
        return rconst(simplest(x))
    if isinstance(x, Fraction):
        return rconst(x)
    if isinstance(x, SymBool):
        return rconst(int(bool(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_rat(x.item())
    return None


def num(x):
    """Collapse constant Sym to python number where exact."""
    return x


class SymBool:
    """Boolean expression: rel (op, Rat) against 0, and/or/not, const."""
    __slots__ = ("kind", "args", "_key", "trig")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        self._key = None
        self.trig = None      # fact only matters for goals about these vars

    def key(self):
        if self._key is None:
            if self.kind == "rel":
                self._key = ("rel", self.args[0], self.args[1].key())
            elif self.kind == "const":
                self._key = ("const", self.args)
            else:
                self._key = (self.kind,) + tuple(a.key() for a in self.args)
        return self._key

    def __bool__(self):
        return ENGINE.decide(self)

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, tobool(o))
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, tobool(o))
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def logical_not(self):
        return not bool(self)

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return "SymBool(%s)" % (self.kind,)


TRUE = SymBool("const", True)
FALSE = SymBool("const", False)


def tobool(x):
    if isinstance(x, SymBool):
        return x
    return TRUE if x else FALSE


def bnot(b):
    if b.kind == "const":
        return FALSE if b.args else TRUE
    if b.kind == "rel":
        op, r = b.args
        if op == "<":      # not r<0 -> -r <= 0
            return SymBool("rel", ("<=", rneg(r)))
        if op == "<=":
            return SymBool("rel", ("<", rneg(r)))
        return SymBool("rel", ("!=" if op == "==" else "==", r))
    if b.kind == "and":
        return SymBool("or", tuple(bnot(a) for a in b.args))
    if b.kind == "or":
        return SymBool("and", tuple(bnot(a) for a in b.args))
    raise AssertionError(b.kind)


def band(*bs):
    out = []
    for b in bs:
        b = tobool(b)
        if b.kind == "const":
            if not b.args:
                return FALSE
            continue
        out.append(b)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def bor(*bs):
    out = []
    for b in bs:
        b = tobool(b)
        if b.kind == "const":
            if b.args:
                return TRUE
            continue
        out.append(b)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def rel(op, r):
    """Relation r op 0, folded where the sign is evident."""
    s = rsign(r)
    if op == "<":
        if s == "-":
            return TRUE
        if s in ("+", "0+", "0"):
            return FALSE
    elif op == "<=":
        if s in ("-", "0-", "0"):
            return TRUE
        if s == "+":
            return FALSE
    elif op == "==":
        if s == "0":
            return TRUE
        if s in ("+", "-"):
            return FALSE
    elif op == "!=":
        if s == "0":
            return FALSE
        if s in ("+", "-"):
            return TRUE
    return SymBool("rel", (op, r))


# --- real scalars -------------------------------------------------------------

def _special(a, o, op):
    """Arithmetic of a Sym with a non-finite float."""
    if isnan(o):
        return float("nan")
    if op == "+":
        return o
    if op == "*":
        s = sgn(a)
        return o * s if s else float("nan")
    raise NotImplementedError("inf arithmetic")


def sgn(a):
    if a > 0:
        return 1
    if a < 0:
        return -1
    return 0


class Sym:
    __slots__ = ("r",)
    __array_priority__ = -1.0

    def __init__(self, r):
        self.r = r

    # arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC.of(self) + o
        r = to_rat(o)
        if r is None:
            if isinstance(o, (float, np.floating)):
                return _special(self, float(o), "+")
            return NotImplemented
        return Sym(radd(self.r, r))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC.of(self) - o
        r = to_rat(o)
        if r is None:
            if isinstance(o, (float, np.floating)):
                return _special(self, -float(o), "+")
            return NotImplemented
        return Sym(rsub(self.r, r))

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC.of(self) * o
        r = to_rat(o)
        if r is None:
            if isinstance(o, (float, np.floating)):
                return _special(self, float(o), "*")
            return NotImplemented
        return Sym(rmul(self.r, r))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC.of(self) / o
        r = to_rat(o)
        if r is None:
            if isinstance(o, (float, np.floating)):
                if isnan(o):
                    return float("nan")
                return 0.0
            return NotImplemented
        return Sym(sdiv(self.r, r))

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC.of(o) / self
        r = to_rat(o)
        if r is None:
            if isinstance(o, (float, np.floating)):
                return _special(self, float(o), "*")
            return NotImplemented
        return Sym(sdiv(r, self.r))

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return o - self * (o / self).floor()

    def __divmod__(self, o):
        q = (self / o).floor()
        return q, self - o * q

    def __rdivmod__(self, o):
        q = (o / self).floor()
        return q, o - self * q

    def __neg__(self):
        return Sym(rneg(self.r))

    def __pos__(self):
        return self

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    fabs = __abs__
    absolute = __abs__

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        return spow(o, self)

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return SymC.of(self)._cmp(o, op)
        r = to_rat(o)
        if r is None:
            if isinstance(o, (float, np.floating)):
                if isnan(o):
                    return op == "!="
                big = o > 0
                return {"<": big, "<=": big, ">": not big, ">=": not big,
                        "==": False, "!=": True}[op]
            return NotImplemented
        d = rsub(self.r, r)
        if op == "<":
            b = rel("<", d)
        elif op == "<=":
            b = rel("<=", d)
        elif op == ">":
            b = rel("<", rneg(d))
        elif op == ">=":
            b = rel("<=", rneg(d))
        elif op == "==":
            b = rel("==", d)
        else:
            b = rel("!=", d)
        if b.kind == "const":
            return b.args
        return b

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        # equal values must have equal hashes: dictionaries fork on equality
        return hash(self.r.const()) if self.r.is_const() else 1

    def __bool__(self):
        return bool(self != 0)

    # conversions
    def __float__(self):
        if self.r.is_const():
            return float(self.r.const())
        raise TypeError("symbolic value used as concrete float")

    def __int__(self):
        return ENGINE.concretise(self.trunc())

    def __index__(self):
        return ENGINE.concretise(self)

    def __complex__(self):
        if self.r.is_const():
            return complex(self.r.const())
        raise TypeError("symbolic value used as concrete complex")

    def __round__(self, nd=None):
        if nd:
            k = Fraction(10) ** nd
            return (self * k + Fraction(1, 2)).floor() / k
        v = (self + Fraction(1, 2)).floor()
        return v if nd is not None or plain(self) else ENGINE.concretise(v)

    def __trunc__(self):
        return ENGINE.concretise(self.trunc())

    def trunc(self):
        if is_int(self.r):
            return self
        return self.floor() if self >= 0 else self.ceil()

    def __ceil__(self):
        return ENGINE.concretise(self.ceil())

    def __floor__(self):
        return ENGINE.concretise(self.floor())

    def is_integer(self):
        return is_int(self.r)

    def __format__(self, spec):
        return text(self, spec)

    def __str__(self):
        return text(self, "")

    def __repr__(self):
        return "Sym(%s)" % show(self.r)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def flatten(self, *a):
        return np.array([self], dtype=object)

    ravel = flatten

    def copy(self):
        return self

    def astype(self, t):
        if t in (float, "float", np.float64, np.float32):
            return self
        if t in (int, "int", np.int64, np.int32):
            return int(self)
        if t in (bool, "bool", np.bool_):
            return bool(self)
        return self

    def sum(self, *a, **k):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self
    conj = conjugate

    # ufunc methods (numpy object loops call these)
    def sqrt(self):
        return ssqrt(self)

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def sin(self):
        return trig(self)[0]

    def cos(self):
        return trig(self)[1]

    def tan(self):
        s, c = trig(self)
        return s / c

    def exp(self):
        return sexp(self)

    def sinh(self):
        return (sexp(self) - sexp(-self)) / 2

    def cosh(self):
        return (sexp(self) + sexp(-self)) / 2

    def tanh(self):
        a, b = sexp(self), sexp(-self)
        return (a - b) / (a + b)

    def expm1(self):
        return sexp(self) - 1

    def log(self):
        return slog(self)

    def log10(self):
        return slog(self) / slog(Sym(rconst(10)))

    def log2(self):
        return slog(self) / slog(Sym(rconst(2)))

    def log1p(self):
        return slog(self + 1)

    def exp2(self):
        return spow(2, self)

    def fmod(self, o):
        q = self / o
        return self - o * q.trunc()

    def logaddexp(self, o):
        return slog(sexp(self) + sexp(lift(o)))

    def arcsinh(self):
        return slog(self + ssqrt(self * self + 1))

    def arccosh(self):
        return slog(self + ssqrt(self * self - 1))

    def arctanh(self):
        return slog((1 + self) / (1 - self)) / 2

    def arctan(self):
        return uf("atan", self)

    def arcsin(self):
        return uf("asin", self)

    def arccos(self):
        return uf("acos", self)

    def arctan2(self, o):
        return uf("atan2", self, o)

    def hypot(self, o):
        return ssqrt(self * self + o * o)

    def cbrt(self):
        return spow(self, Fraction(1, 3))

    def floor(self):
        return sfloor(self)

    def ceil(self):
        return -sfloor(-self)

    def rint(self):
        return sfloor(self + Fraction(1, 2))

    def deg2rad(self):
        return self * PI() / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / PI()

    degrees = rad2deg

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def sign(self):
        return sgn(self)

    def logical_not(self):
        return not bool(self)


def sdiv(a, b):
    if not b.n:
        return rdiv_by_zero(a)
    if not b.is_const() and rsign(b) not in ("+", "-"):
        ENGINE.nonzero(b)
    return rdiv(a, b)


def rdiv_by_zero(a):
    raise ZeroDivisionError("float division by zero")


def show(r, maxterms=6):
    sp = P.space()

    def mono(m, c):
        s = "*".join(sp.vars[v].name + ("^%d" % e if e > 1 else "") for v, e in m)
        return ("%d" % c if not s else s if c == 1 else "%d*%s" % (c, s))
    t = [mono(m, c) for m, c in list(r.n.items())[:maxterms]]
    s = " + ".join(t) or "0"
    if len(r.n) > maxterms:
        s += " + ...%d" % (len(r.n) - maxterms)
    if r.d != 1 or r.f:
        s = "(%s)/(%d" % (s, r.d)
        for fid, e in r.f:
            v = sp.fvar[fid]
            s += "*%s^%d" % (sp.vars[v].name if v is not None else "F%d" % fid, e)
        s += ")"
    return s


# --- complex scalars ---------------------------------------------------------

class SymC:
    __slots__ = ("re", "im")
    __array_priority__ = -1.0

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymC(lift(float(x.real)), lift(float(x.imag)))
        return SymC(lift(x), lift(0))

    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return f(self, SymC.of(o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: SymC(a.re + b.re, a.im + b.im))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: SymC(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: SymC(b.re - a.re, b.im - a.im))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: SymC(a.re*b.re - a.im*b.im,
                                              a.re*b.im + a.im*b.re))
    __rmul__ = __mul__

    def __truediv__(self, o):
        def f(a, b):
            d = b.re*b.re + b.im*b.im
            return SymC((a.re*b.re + a.im*b.im)/d, (a.im*b.re - a.re*b.im)/d)
        return self._bin(o, f)

    def __rtruediv__(self, o):
        return SymC.of(o) / self

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pow__(self, k):
        if isinstance(k, (int, np.integer)):
            r = SymC.of(1)
            for _ in range(abs(int(k))):
                r = r * self
            return r if k >= 0 else 1 / r
        raise NotImplementedError("complex power")

    def __abs__(self):
        return ssqrt(self.re*self.re + self.im*self.im)

    absolute = __abs__

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymC(self.re, -self.im)
    conj = conjugate

    def exp(self):
        e = sexp(self.re)
        s, c = trig(self.im)
        return SymC(e*c, e*s)

    def _cmp(self, o, op):
        o = SymC.of(o)
        if op == "==":
            return band(tobool(self.re == o.re), tobool(self.im == o.im))
        if op == "!=":
            return bor(tobool(self.re != o.re), tobool(self.im != o.im))
        # lexicographic, as numpy
        strict = {"<": "<", "<=": "<", ">": ">", ">=": ">"}[op]
        a = tobool(self.re < o.re if strict == "<" else self.re > o.re)
        b = {"<": lambda: self.im < o.im, "<=": lambda: self.im <= o.im,
             ">": lambda: self.im > o.im, ">=": lambda: self.im >= o.im}[op]()
        return bor(a, band(tobool(self.re == o.re), tobool(b)))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return hash(self.re)

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return "SymC(%r, %r)" % (self.re, self.im)


def lift(x):
    if isinstance(x, (Sym, SymC)):
        return x
    r = to_rat(x)
    if r is None:
        raise TypeError("cannot lift %r" % (x,))
    return Sym(r)


def plain(x):
    """A linear function of inputs: too many integer values to enumerate, the
    integer part stays symbolic (and is enumerated where it is an index)."""
    sp = P.space()
    return not x.r.is_const() and not x.r.f and all(len(m) == 0 or len(m) == 1 and m[0][1] == 1 and sp.vars[m[0][0]].kind == "input" for m in x.r.n)


def text(x, spec):
    """Text of a number: the same text exactly for equal terms; texts with a
    number of decimals also coincide where the rounded values do (a fork)."""
    if x.r.is_const():
        return format(float(x.r.const()), spec)
    dec = spec[1:-1] if spec[:1] == "." and spec[-1:] == "f" else spec[2:-1] if spec[:2] == "0." and spec[-1:] == "f" else None
    v = round(x, int(dec)) if dec and int(dec) else (x + Fraction(1, 2)).floor() if dec else x
    known = ENGINE.memo.setdefault("text" + spec, [])
    for y, t in known:
        if y.r.key() == v.r.key():
            return t
    if dec:
        for y, t in known[:6]:
            if bool(y == v):
                return t
    t = "<sym %s %d>" % (spec, len(known))
    known.append((v, t))
    return t


def issym(x):
    return isinstance(x, (Sym, SymC, SymBool))


# --- atoms -------------------------------------------------------------------

def PI():
    sp = P.space()
    v = sp.byname.get("PI")
    if v is None:
        v = sp.var("PI", "pos", "atom", "pi", ())
        v.lo, v.hi = Fraction(314159, 100000), Fraction(314160, 100000)
        s = Sym(P.rvar(v))
        ENGINE.axiom(rel_raw("<", (v.lo - s).r))
        ENGINE.axiom(rel_raw("<", (s - v.hi).r))
    return Sym(P.rvar(v))


def rel_raw(op, r):
    return SymBool("rel", (op, r))


def is_int(r):
    if r.d != 1 or r.f:
        return False
    sp = P.space()
    return all(sp.vars[v].func in ("floor", "intvar") for m in r.n for v, _ in m)


def atom(func, args, sign="any", init=None):
    """Variable standing for func(args); args are hashable canonical keys."""
    sp = P.space()
    name = "%s#%d" % (func, sp.__dict__.setdefault("atomids", {}).setdefault((func, args), len(sp.__dict__["atomids"])))
    v = sp.byname.get(name)
    new = v is None
    if new:
        v = sp.var(name, sign, "atom", func, args)
    if new and init:
        init(Sym(P.rvar(v)))
    return Sym(P.rvar(v)), new


def split_terms(r):
    """Rat -> list of (coefficient Fraction, base Rat with unit coefficient)."""
    out = []
    for m, c in r.n.items():
        out.append((Fraction(c, r.d), Rat({m: 1}, 1, r.f)))
    return out


def _cn(base):
    n, f = P._cancel(base.n, base.f)
    return (n, 1, f)


def sexp(x):
    r = to_rat(x)
    if not r.n:
        return 1.0
    if r.is_const():
        pass
    res = Sym(rconst(1))
    for c, base in split_terms(r):
        if base.f:
            base = Rat(*_cn(base))
        # exp(c*y*log b) = b**(c*y)
        lg = [(v, e) for m in base.n for v, e in m
              if P.space().vars[v].func == "log"]
        if len(lg) == 1 and lg[0][1] == 1:
            v = P.space().vars[lg[0][0]]
            rest = rdiv(base, P.rvar(v))
            arg = v.args[1]
            res = res * spow(Sym(arg), Sym(rmul(rest, rconst(c))))
            continue
        res = res * _exp_atom(base, c)
    return res


def _exp_atom(base, c):
    p, q = c.numerator, c.denominator
    sp = P.space()
    reg = sp.__dict__.setdefault("expreg", {})
    qs = reg.setdefault(base.key(), [])
    arg = Sym(rmul(base, rconst(Fraction(1, q))))

    def init(v):
        # exp(t) > 0; sign of t decides about 1
        ENGINE.lazy_axiom(v.r, lambda: exp_sign_axioms(v, arg))
    a, new = atom("exp", (base.key(), q), "pos", init)
    if new:
        for q2, a2 in qs:
            l = q * q2 // gcd(q, q2)
            if l == q:
                ENGINE.axiom(rel_raw("==", (a2 - a ** (q // q2)).r))
            elif l == q2:
                ENGINE.axiom(rel_raw("==", (a - a2 ** (q2 // q)).r))
        qs.append((q, a))
        P.space().vars[_vid(a)].args = (base.key(), q, arg)
    return a ** p


def _vid(s):
    (m, _), = s.r.n.items()
    return m[0][0]


def exp_sign_axioms(v, arg):
    t = arg.r
    s = rsign(t)
    one = Sym(rconst(1))
    if s == "+":
        return [rel_raw("<", (one - v).r), rel_raw("<=", (one + arg - v).r)]
    if s == "-":
        return [rel_raw("<", (v - one).r)]
    return [bor(rel_raw("<=", rneg(t)), rel_raw("<", (v - one).r)),
            bor(rel_raw("<=", t), rel_raw("<", (one - v).r)),
            bor(rel_raw("!=", t), rel_raw("==", (v - one).r))]


def trig(x):
    """(sin x, cos x)."""
    r = to_rat(x)
    if not r.n:
        return 0.0, 1.0
    s, c = Sym(rconst(0)), Sym(rconst(1))
    for k, base in split_terms(r):
        if base.f:
            base = Rat(*_cn(base))
        s2, c2 = _trig_atom(base, k)
        s, c = s*c2 + c*s2, c*c2 - s*s2
    return s, c


def _cheb(s1, c1, n):
    """sin/cos of n times the angle."""
    s, c = Sym(rconst(0)), Sym(rconst(1))
    for _ in range(n):
        s, c = s*c1 + c*s1, c*c1 - s*s1
    return s, c


def _trig_atom(base, k):
    sp = P.space()
    if base.is_const():     # constant angle (radians): plain number pair
        pass
    p, q = k.numerator, k.denominator
    neg = p < 0
    p = abs(p)
    # multiples of pi
    if _is_pi(base):
        n = Fraction(p, q) % 2
        table = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
        if n in table:
            s, c = table[n]
            s, c = lift(s), lift(c)
            return (-s if neg else s), c
    reg = sp.__dict__.setdefault("trigreg", {})
    lst = reg.setdefault(base.key(), [])
    # use the finest registered denominator that is a multiple of q
    for q2, s2, c2 in lst:
        if q2 % q == 0 and (q2 // q) * p <= 12:
            s, c = _cheb(s2, c2, p * (q2 // q))
            return (-s if neg else s), c
    big = 1
    if p > 12:
        big, p = p, 1
    arg = Sym(rmul(base, rconst(Fraction(big, q))))
    key = (base.key(), Fraction(big, q))
    # cos first, so that it gets the smaller id
    cv, new = atom("cos", key, "any")
    sv, _ = atom("sin", key, "any")
    if new:
        ci, si = _vid(cv), _vid(sv)
        sp.vars[ci].args = key + (arg,)
        sp.vars[si].args = key + (arg,)
        sp.sinvars[si] = {ONE: 1, ((ci, 2),): -1}
        one = Sym(rconst(1))
        ENGINE.axiom(rel_raw("==", Rat({((si, 2),): 1, ((ci, 2),): 1, ONE: -1})), {ci, si})
        ENGINE.axiom(rel_raw("<=", (cv - one).r))
        ENGINE.axiom(rel_raw("<=", (-one - cv).r))
        ENGINE.axiom(rel_raw("<=", (sv - one).r))
        ENGINE.axiom(rel_raw("<=", (-one - sv).r))
        ENGINE.lazy_axiom(sv.r, lambda: trig_sign_axioms(sv, cv, arg))
        for q2, s2, c2 in lst:
            if big == 1 and q % q2 == 0 and q // q2 <= 12:
                s3, c3 = _cheb(sv, cv, q // q2)
                ENGINE.axiom(rel_raw("==", (s2 - s3).r))
                ENGINE.axiom(rel_raw("==", (c2 - c3).r))
        if big == 1:
            lst.append((q, sv, cv))
            lst.sort(key=lambda t: -t[0])
    s, c = _cheb(sv, cv, p)
    return (-s if neg else s), c


def _is_pi(base):
    if base.f or len(base.n) != 1:
        return False
    (m, _), = base.n.items()
    return len(m) == 1 and m[0][1] == 1 and P.space().vars[m[0][0]].func == "pi"


def trig_sign_axioms(s, c, arg):
    """Signs of sin and cos for |arg| <= pi."""
    pi = PI()
    t = arg
    out = []

    def imp(conds, concl):
        out.append(bor(*[bnot(tobool(x)) for x in conds], concl))
    lt = lambda a, b: tobool(a < b)
    le = lambda a, b: tobool(a <= b)
    z = Sym(rconst(0))
    imp([lt(-pi/2, t), lt(t, pi/2)], rel_raw("<", (z - c).r))
    imp([lt(z, t), lt(t, pi)], rel_raw("<", (z - s).r))
    imp([lt(-pi, t), lt(t, z)], rel_raw("<", s.r))
    out.append(bor(rel_raw("!=", t.r), rel_raw("==", s.r)))
    out.append(bor(rel_raw("!=", t.r), rel_raw("==", (c - 1).r)))
    return out


def ssqrt(x):
    r = to_rat(x)
    if r.is_const():
        fr = r.const()
        if fr >= 0:
            from math import isqrt
            a, b = isqrt(fr.numerator), isqrt(fr.denominator)
            if a * a == fr.numerator and b * b == fr.denominator:
                return Sym(rconst(Fraction(a, b)))
    if not r.n:
        return lift(0)
    # pull out even powers of positive variables
    if len(r.n) == 1:
        (m, c), = r.n.items()
        from math import isqrt
        cf = Fraction(c, r.d)
        if c > 0 and isqrt(cf.numerator)**2 == cf.numerator and isqrt(cf.denominator)**2 == cf.denominator \
                and all(e % 2 == 0 for _, e in m) and all(e % 2 == 0 for _, e in r.f):
            root = Rat({tuple((v, e//2) for v, e in m): isqrt(cf.numerator)}, isqrt(cf.denominator),
                       tuple((i, e//2) for i, e in r.f))
            return abs(Sym(root))
    s = Sym(r)
    if s < 0:
        return float("nan")

    def init(v):
        ENGINE.axiom(rel_raw("==", P.rsub(rmul(v.r, v.r), r)))
    strict = rsign(r) == "+"
    a, _ = atom("sqrt", r.key(), "pos" if strict else "nonneg", init)
    P.space().vars[_vid(a)].args = (r.key(), s)
    return a


def slog(x):
    r = to_rat(x)
    if r.is_const() and r.const() == 1:
        return lift(0)
    # log of positive monomials splits
    if len(r.n) == 1 and (len(next(iter(r.n))) + len(r.f) > 1 or (next(iter(r.n)) and (next(iter(r.n.values())), r.d) != (1, 1))):
        (m, c), = r.n.items()
        if c > 0 and P.msign(m) == "+" and all(P.factor_sign(i) == "+" for i, _ in r.f):
            out = lift(0)
            for v, e in m:
                out = out + e * slog(Sym(P.rvar(P.space().vars[v])))
            for i, e in r.f:
                out = out - e * slog(Sym(Rat(P.space().factors[i])))
            if (c, r.d) != (1, 1):
                out = out + _logconst(Fraction(c, r.d))
            return out
    if r.is_const():
        return _logconst(r.const())
    a, _ = atom("log", r.key(), "any")
    v = P.space().vars[_vid(a)]
    v.args = (r.key(), r)
    return a


def _primes(n):
    out = []
    d = 2
    while d * d <= n and d < 5000:
        while n % d == 0:
            out.append(d)
            n //= d
        d += 1
    if n > 1:
        out.append(n)
    return out


def _logconst(fr):
    out = lift(0)
    for sgn_, n in ((1, fr.numerator), (-1, fr.denominator)):
        for p in _primes(n):
            a, new = atom("log", rconst(p).key(), "pos")
            P.space().vars[_vid(a)].args = (rconst(p).key(), rconst(p))
            out = out + sgn_ * a
    return out


def spow(b, y):
    """b ** y."""
    if isinstance(y, (Sym, SymC)) and isinstance(y, Sym) and y.r.is_const():
        y = y.r.const()
        if y.denominator == 1:
            y = y.numerator
    if isinstance(y, (float, np.floating)):
        y = float(y)
        y = int(y) if y == int(y) else simplest(y)
    if isinstance(y, (int, np.integer)) and isinstance(b, Sym):
        return Sym(spow_int(b.r, int(y)))
    if isinstance(y, Fraction) and y.denominator == 1 and isinstance(b, Sym):
        return Sym(spow_int(b.r, int(y)))
    if isinstance(y, Fraction) and y.denominator == 2 and isinstance(b, Sym) and abs(y) <= 4:
        return ssqrt(b) ** y.numerator
    r = to_rat(b)
    if r is None:
        return NotImplemented
    yr = to_rat(y)
    if yr is None:
        return NotImplemented
    s = rsign(r)
    if s == "0":
        return lift(0)
    if s != "+":
        if not bool(Sym(r) > 0):
            return float("nan")
    res = Sym(rconst(1))
    if len(r.n) == 1:
        (m, c), = r.n.items()
        parts = [(P.rvar(P.space().vars[v]), e) for v, e in m]
        parts += [(rconst(p), 1) for p in _primes(c)]
        parts += [(rconst(p), -1) for p in _primes(r.d)]
    else:
        g = P.pcontent(r.n)
        parts = [(Rat({m: c // g for m, c in r.n.items()}), 1)]
        parts += [(rconst(p), 1) for p in _primes(g)]
        parts += [(rconst(p), -1) for p in _primes(r.d)]
    for fid, e in r.f:
        parts.append((Rat(P.space().factors[fid]), -e))
    for base, e in parts:
        res = res * _pow_atom(base, rmul(yr, rconst(e)))
    return res


def spow_int(r, k):
    if k < 0 and rsign(r) not in ("+", "-"):
        ENGINE.nonzero(r)
    return rpow(r, k)


def _pow_atom(base, yr):
    """base**y with y a Rat: split off integer part, sum of terms."""
    res = Sym(rconst(1))
    for c, yb in split_terms(yr):
        if yb.f:
            yb = Rat(*_cn(yb))
        if yb.is_const():
            k = c.numerator // c.denominator
            frac = c - k
            if k:
                res = res * Sym(spow_int(base, k))
            if not frac:
                continue
            p, q = frac.numerator, frac.denominator
        else:
            p, q = c.numerator, c.denominator
        a, new = atom("pow", (base.key(), yb.key(), q), "pos")
        if new:
            P.space().vars[_vid(a)].args = (base, yb, q)
            ENGINE.pow_created(a, base, yb, q)
        res = res * a ** p
    return res


def sfloor(x):
    r = to_rat(x)
    if r.is_const():
        fr = r.const()
        return lift(fr.numerator // fr.denominator)
    if is_int(r):
        return Sym(r)
    # move integer constant part out
    s = Sym(r)

    def init(v):
        ENGINE.axiom(rel_raw("<=", (v - s).r))
        ENGINE.axiom(rel_raw("<", (s - 1 - v).r))
        ENGINE.intvar(v)
    a, _ = atom("floor", r.key(), "any", init)
    P.space().vars[_vid(a)].args = (r.key(), s)
    return a


def uf(name, *args):
    """Uninterpreted total function (congruent in its canonical arguments)."""
    rs = [to_rat(a) for a in args]
    a, _ = atom(name, tuple(r.key() for r in rs), "any")
    P.space().vars[_vid(a)].args = tuple(Sym(r) for r in rs)
    return a


# --- differentiation --------------------------------------------------------

def diff(x, v):
    """d x / d v for a variable (Sym) v, through atoms."""
    x = lift(x)
    vid = _vid(v)
    cache = {}
    sp = P.space()

    def dvar(i):
        d = cache.get(i)
        if d is None:
            if i == vid:
                d = rconst(1)
            else:
                V = sp.vars[i]
                if V.func == "exp":
                    d = rmul(P.rvar(V), dr(V.args[2].r))
                elif V.func in ("sin", "cos"):
                    arg = V.args[-1]
                    da = dr(arg.r)
                    if not da.n:
                        d = da
                    else:
                        base = V.args
                        name = "cos" if V.func == "sin" else "sin"
                        o, _ = atom(name, base[:2])
                        d = rmul(o.r, da)
                        if V.func == "cos":
                            d = rneg(d)
                elif V.func == "sqrt":
                    da = dr(V.args[1].r)
                    d = rdiv(da, rmul(rconst(2), P.rvar(V))) if da.n else da
                elif V.func == "pow":
                    base, yb, q = V.args
                    db = dr(base)
                    if db.n:
                        raise NotImplementedError("d pow")
                    d = db
                elif V.func == "log":
                    da = dr(V.args[1])
                    d = rdiv(da, V.args[1]) if da.n else da
                elif V.kind == "atom" and V.func not in ("pi",):
                    for a in V.args:
                        if isinstance(a, Sym) and dr(a.r).n:
                            raise NotImplementedError("derivative of " + V.func)
                    d = rconst(0)
                else:
                    d = rconst(0)
            cache[i] = d
        return d

    def dpoly(p):
        out = rconst(0)
        acc = {}
        for m, c in p.items():
            for k, (i, e) in enumerate(m):
                rest = m[:k] + (((i, e-1),) if e > 1 else ()) + m[k+1:]
                d = acc.setdefault(i, {})
                d[rest] = d.get(rest, 0) + c * e
        for i, q in acc.items():
            dv = dvar(i)
            if dv.n:
                out = radd(out, rmul(Rat({m: c for m, c in q.items() if c}), dv))
        return out

    def dr(r):
        out = rdiv(dpoly(r.n), rconst(r.d)) if r.n else rconst(0)
        if out.n and r.f:
            out = rmul(out, Rat({ONE: 1}, 1, r.f))
        for fid, e in r.f:
            df = dpoly(sp.factors[fid])
            if df.n:
                t = rmul(Rat(r.n, r.d, r.f), rmul(rconst(-e), rdiv(df, Rat(sp.factors[fid]))))
                out = radd(out, t)
        return out
    return Sym(dr(x.r))
