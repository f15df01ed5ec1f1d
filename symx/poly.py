"""Exact rational functions: integer polynomials over registered variables,
with factored denominators.  This is the value domain of the symbolic
executor; it does no deciding (z3 decides, see solve.py)."""
from fractions import Fraction
from heapq import heapify, heappush, heappop
from math import gcd
import random


class Var:
    __slots__ = ("id", "name", "sign", "kind", "func", "args", "lo", "hi", "typ", "square")

    def __init__(self, vid, name, sign, kind, func=None, args=None):
        self.id, self.name, self.sign, self.kind = vid, name, sign, kind
        self.func, self.args = func, args
        self.lo = self.hi = self.typ = None
        self.square = None      # polynomial dict replacing var**2 (sin atoms)


class Space:
    """Registry of variables and denominator factors of one harness run."""

    def __init__(self):
        self.vars = []
        self.byname = {}
        self.factors = []        # list of poly dicts
        self.fvar = []           # var id if the factor is a single variable
        self.fkey = {}
        self.feval = []          # lazily cached modular data
        self.sinvars = {}        # var id -> replacement poly of var**2
        self.rnd = random.Random(12345)
        self.point = {}          # random evaluation point mod P
        self.split = {}          # factor id -> ids of its later found parts

    def var(self, name, sign="any", kind="fresh", func=None, args=None):
        v = self.byname.get(name)
        if v is None:
            v = Var(len(self.vars), name, sign, kind, func, args)
            self.vars.append(v)
            self.byname[name] = v
        return v

    def factor(self, poly):
        """Id of a primitive, sign-normalised factor polynomial."""
        key = frozenset(poly.items())
        fid = self.fkey.get(key)
        if fid is None:
            fid = len(self.factors)
            self.fkey[key] = fid
            self.factors.append(poly)
            v = None
            if len(poly) == 1:
                (m, c), = poly.items()
                assert c == 1 and len(m) == 1 and m[0][1] == 1
                v = m[0][0]
            self.fvar.append(v)
            if v is None:
                self._refine(fid, poly)
        return fid

    def _refine(self, fid, poly):
        """Split older factors that the new one divides."""
        for old in range(fid):
            fp = self.factors[old]
            if self.fvar[old] is not None or old in self.split or len(poly) > 4 * len(fp):
                continue
            q = pdivexact(fp, poly)
            if q is None or len(q) == 1:
                continue
            if q[pmin(q)] < 0:
                continue
            self.split[old] = (fid, self.factor(q))

    def pt(self, v):
        p = self.point.get(v)
        if p is None:
            p = self.point[v] = self.rnd.randrange(1, P)
        return p


P = (1 << 61) - 1
SP = Space()


def reset():
    global SP
    SP = Space()
    return SP


def space():
    return SP


# --- monomials and polynomials ---------------------------------------------
# monomial: tuple of (var id, exponent), ascending ids.  poly: dict mono -> int

ONE = ()


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    if a[-1][0] < b[0][0]:
        return a + b
    if b[-1][0] < a[0][0]:
        return b + a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    elif j < lb:
        out.extend(b[j:])
    return tuple(out)


def mdiv(a, b):
    """a / b or None."""
    if not b:
        return a
    out = []
    i = 0
    la = len(a)
    for v, e in b:
        while i < la and a[i][0] < v:
            out.append(a[i])
            i += 1
        if i >= la or a[i][0] != v or a[i][1] < e:
            return None
        if a[i][1] > e:
            out.append((v, a[i][1] - e))
        i += 1
    out.extend(a[i:])
    return tuple(out)


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def _needs_reduce(m):
    sv = SP.sinvars
    for v, e in m:
        if e >= 2 and v in sv:
            return True
    return False


def preduce(p):
    """Rewrite sin(x)**2 -> 1 - cos(x)**2 (normal form in the circle ring)."""
    sv = SP.sinvars
    if not sv:
        return p
    work = None
    for m in p:
        for v, e in m:
            if e >= 2 and v in sv:
                work = True
                break
        if work:
            break
    if not work:
        return p
    out = {}
    stack = list(p.items())
    while stack:
        m, c = stack.pop()
        for i, (v, e) in enumerate(m):
            if e >= 2 and v in sv:
                rest = m[:i] + (((v, e - 2),) if e > 2 else ()) + m[i + 1:]
                for m2, c2 in sv[v].items():
                    stack.append((mmul(rest, m2), c * c2))
                break
        else:
            s = out.get(m, 0) + c
            if s:
                out[m] = s
            else:
                out.pop(m, None)
    return out


class Budget(Exception):
    """A polynomial outgrew the size budget: the run is inconclusive."""


MAXTERMS = 400000


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return b if c == 1 else {k: v * c for k, v in b.items()}
        r = {mmul(m, k): v * c for k, v in b.items()}
    else:
        if len(a) * len(b) > 40 * MAXTERMS:
            raise Budget("product of %d x %d terms" % (len(a), len(b)))
        r = {}
        get = r.get
        bi = list(b.items())
        for m, c in a.items():
            for k, v in bi:
                mm = mmul(m, k)
                r[mm] = get(mm, 0) + c * v
        r = {m: c for m, c in r.items() if c}
        if len(r) > MAXTERMS:
            raise Budget("%d terms" % len(r))
    return preduce(r)


def ppow(a, n):
    r = {ONE: 1}
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def pcontent(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def pmonogcd(p):
    """gcd monomial of all terms."""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        if not g:
            return ()
        d = dict(m)
        for v in list(g):
            e = d.get(v, 0)
            if e == 0:
                del g[v]
            elif e < g[v]:
                g[v] = e
    return tuple(sorted(g.items()))


def _evalmod(p, main, point):
    """Univariate image (dict degree->coef mod P) in var `main`."""
    out = {}
    for m, c in p.items():
        k = 0
        x = c % P
        for v, e in m:
            if v == main:
                k = e
            else:
                pv = point.get(v)
                if pv is None:
                    pv = SP.pt(v)
                x = x * (pv if e == 1 else pow(pv, e, P)) % P
        out[k] = (out.get(k, 0) + x) % P
    return out


def mkey(m):
    """Sort key: lexicographic monomial order."""
    return tuple([(-v, e) for v, e in m])


def pmin(p):
    return min(p, key=mkey)


def pdivexact(n, f):
    """n / f if exact over the integers (f primitive), else None."""
    if not n:
        return n
    if len(f) == 1:
        (fm, fc), = f.items()
        out = {}
        for m, c in n.items():
            q = mdiv(m, fm)
            if q is None or c % fc:
                return None
            out[q] = c // fc
        return out
    if len(n) < 2:
        return None
    # quick modular test in one variable of f
    deg = {}
    for m in f:
        for v, e in m:
            if e > deg.get(v, 0):
                deg[v] = e
    main = min(deg, key=lambda v: (deg[v], v))
    nd = {}
    for m in n:
        for v, e in m:
            if e > nd.get(v, 0):
                nd[v] = e
    for v, e in deg.items():
        if nd.get(v, 0) < e:
            return None
    fu = _evalmod(f, main, SP.point)
    nu = _evalmod(n, main, SP.point)
    df = max(fu)
    if fu[df] == 0:
        pass
    else:
        inv = pow(fu[df], P - 2, P)
        for k in range(max(nu), df - 1, -1):
            c = nu.get(k, 0)
            if c:
                q = c * inv % P
                for j, fc in fu.items():
                    nu[k - df + j] = (nu.get(k - df + j, 0) - q * fc) % P
        if any(nu.get(k, 0) for k in range(df)):
            return None
    # full division from the smallest monomial upwards
    lt = pmin(f)
    lc = f[lt]
    rest = [(m, c) for m, c in f.items() if m != lt]
    rem = dict(n)
    heap = [(mkey(m), m) for m in rem]
    heapify(heap)
    quot = {}
    maxd = {v: nd[v] - deg.get(v, 0) for v in nd}
    while heap:
        m = heappop(heap)[1]
        c = rem.pop(m, 0)
        if not c:
            continue
        q = mdiv(m, lt)
        if q is None or c % lc:
            return None
        for v, e in q:
            if maxd.get(v, 0) < e:
                return None
        k = c // lc
        quot[q] = quot.get(q, 0) + k
        for fm, fc in rest:
            mm = mmul(q, fm)
            if mm in rem:
                s = rem[mm] - k * fc
                if s:
                    rem[mm] = s
                else:
                    rem[mm] = 0
            else:
                rem[mm] = -k * fc
                heappush(heap, (mkey(mm), mm))
        if len(quot) > MAXTERMS:
            return None
    return quot


def pkey(p):
    return frozenset(p.items())


# --- rational functions -------------------------------------------------------

class Rat:
    """n / (d * prod factor**e); d > 0, f sorted tuple of (factor id, exp)."""
    __slots__ = ("n", "d", "f", "_key")

    def __init__(self, n, d=1, f=()):
        self.n, self.d, self.f = n, d, f
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.n.items()), self.d, self.f)
        return self._key

    def is_const(self):
        return not self.f and (not self.n or (len(self.n) == 1 and ONE in self.n))

    def const(self):
        return Fraction(self.n.get(ONE, 0), self.d)


def rconst(fr):
    if isinstance(fr, int):
        return Rat({ONE: fr} if fr else {})
    return Rat({ONE: fr.numerator} if fr else {}, fr.denominator)


def rvar(v):
    return Rat({((v.id, 1),): 1})


def _norm(n, d, f):
    """Divide numerator content against d."""
    if not n:
        return Rat({}, 1, ())
    if d != 1:
        g = d
        for c in n.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g != 1:
            d //= g
            n = {m: c // g for m, c in n.items()}
    return Rat(n, d, f)


def _cancel(n, f, only=None):
    """Cancel factors of f that divide n exactly."""
    if not f or not n:
        return n, f
    out = []
    for fid, e in f:
        if only is not None and fid not in only:
            out.append((fid, e))
            continue
        v = SP.fvar[fid]
        if v is not None:
            k = e
            for m in n:
                for vv, ee in m:
                    if vv == v:
                        if ee < k:
                            k = ee
                        break
                else:
                    k = 0
                if k == 0:
                    break
            if k:
                mm = ((v, k),)
                n = {mdiv(m, mm): c for m, c in n.items()}
                e -= k
        else:
            fp = SP.factors[fid]
            while e:
                q = pdivexact(n, fp)
                if q is None:
                    break
                n = q
                e -= 1
        if e:
            out.append((fid, e))
    return n, tuple(out)


def rneg(a):
    return Rat({m: -c for m, c in a.n.items()}, a.d, a.f)


def _fprod(f):
    r = {ONE: 1}
    for fid, e in f:
        r = pmul(r, ppow(SP.factors[fid], e))
    return r


def live(r):
    """r with split factors replaced by their parts."""
    sp = SP.split
    if not sp or not any(fid in sp for fid, _ in r.f):
        return r
    m = {}
    stack = list(r.f)
    while stack:
        fid, e = stack.pop()
        if fid in sp:
            stack += [(k, e) for k in sp[fid]]
        else:
            m[fid] = m.get(fid, 0) + e
    n, f = _cancel(r.n, tuple(sorted(m.items())))
    return _norm(n, r.d, f)


def radd(a, b):
    if not a.n:
        return b
    if not b.n:
        return a
    if SP.split:
        a, b = live(a), live(b)
    if a.f == b.f:
        g = gcd(a.d, b.d)
        ka, kb = b.d // g, a.d // g
        n = padd(pscale(a.n, ka), pscale(b.n, kb))
        d = a.d * ka
        if a.f:
            n, f = _cancel(n, a.f)
        else:
            f = ()
        return _norm(n, d, f)
    fa, fb = dict(a.f), dict(b.f)
    lcm = dict(fa)
    for k, e in fb.items():
        if lcm.get(k, 0) < e:
            lcm[k] = e
    ma = tuple((k, e - fa.get(k, 0)) for k, e in lcm.items() if e > fa.get(k, 0))
    mb = tuple((k, e - fb.get(k, 0)) for k, e in lcm.items() if e > fb.get(k, 0))
    g = gcd(a.d, b.d)
    ka, kb = b.d // g, a.d // g
    n = padd(pscale(pmul(a.n, _fprod(ma)) if ma else a.n, ka),
             pscale(pmul(b.n, _fprod(mb)) if mb else b.n, kb))
    f = tuple(sorted(lcm.items()))
    n, f = _cancel(n, f)
    return _norm(n, a.d * ka, f)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if not a.n or not b.n:
        return Rat({}, 1, ())
    if SP.split:
        a, b = live(a), live(b)
    an, bf = _cancel(a.n, b.f) if b.f else (a.n, b.f)
    bn, af = _cancel(b.n, a.f) if a.f else (b.n, a.f)
    if af and bf:
        m = dict(af)
        for k, e in bf:
            m[k] = m.get(k, 0) + e
        f = tuple(sorted(m.items()))
    else:
        f = af or bf
    n = pmul(an, bn)
    if f and SP.sinvars:
        n, f = _cancel(n, f)
    return _norm(n, a.d * b.d, f)


def rinv(a):
    if not a.n:
        raise ZeroDivisionError("division by zero")
    a = live(a)
    n = a.n
    c = pcontent(n)
    g = pmonogcd(n)
    if c != 1 or g:
        n = {mdiv(m, g): k // c for m, k in n.items()}
    # sign: make smallest monomial's coefficient positive
    if n[pmin(n)] < 0:
        n = {m: -k for m, k in n.items()}
        c = -c
    f = {}
    for v, e in g:
        f[SP.factor({((v, 1),): 1})] = e
    if not (len(n) == 1 and ONE in n):
        # split off known factors
        for fid in range(len(SP.factors)):
            if SP.fvar[fid] is not None or fid in SP.split:
                continue
            fp = SP.factors[fid]
            if len(fp) > len(n) * 4:
                continue
            while len(n) > 1:
                if fp == n:
                    q = {ONE: 1}
                else:
                    q = pdivexact(n, fp)
                if q is None:
                    break
                f[fid] = f.get(fid, 0) + 1
                n = q
        if len(n) == 1 and ONE in n:
            c *= n[ONE]
        else:
            fid = SP.factor(n)
            f[fid] = f.get(fid, 0) + 1
    num = _fprod(a.f) if a.f else {ONE: 1}
    d = a.d
    if c < 0:
        d, c = -d, -c
    num = pscale(num, d)
    ft = tuple(sorted(f.items()))
    num, ft = _cancel(num, ft)
    return _norm(num, c, ft)


def rdiv(a, b):
    if not b.f and len(b.n) == 1 and ONE in b.n:
        k = b.n[ONE]
        n, d = a.n, a.d
        if k < 0:
            k = -k
            bd = -b.d
        else:
            bd = b.d
        return _norm(pscale(n, bd), d * k, a.f)
    return rmul(a, rinv(b))


def rpow(a, k):
    if k < 0:
        return rpow(rinv(a), -k)
    if k == 0:
        return rconst(1)
    if k == 1:
        return a
    return _norm(ppow(a.n, k), a.d ** k, tuple((i, e * k) for i, e in a.f))


def rvars(a):
    s = set()
    for m in a.n:
        for v, _ in m:
            s.add(v)
    for fid, _ in a.f:
        for m in SP.factors[fid]:
            for v, _ in m:
                s.add(v)
    return s


# --- sign inference ----------------------------------------------------------

def msign(m):
    """Sign of a monomial from variable signs: '+', '-', '0+', '0-', '?'."""
    strict = True
    neg = False
    for v, e in m:
        s = SP.vars[v].sign
        if s == "pos":
            continue
        if s == "nonneg":
            strict = False
        elif s == "neg":
            if e & 1:
                neg = not neg
        elif s == "nonpos":
            strict = False
            if e & 1:
                neg = not neg
        elif s == "nonzero":
            if e & 1:
                return "?"
        elif e & 1:
            return "?"
        else:
            strict = False
    return ("-" if neg else "+") if strict else ("0-" if neg else "0+")


_FLIP = {"+": "-", "-": "+", "0+": "0-", "0-": "0+", "?": "?"}


def psign(p):
    """Sign of a polynomial if evident term by term."""
    if not p:
        return "0"
    pos = neg = strict = False
    for m, c in p.items():
        s = msign(m)
        if s == "?":
            return "?"
        if c < 0:
            s = _FLIP[s]
        if s in ("+", "0+"):
            pos = True
        else:
            neg = True
        if s in ("+", "-"):
            strict = True
        if pos and neg:
            return "?"
    return ("+" if pos else "-") if strict else ("0+" if pos else "0-")


def fsign(f):
    s = "+"
    for fid, e in f:
        if e & 1 == 0:
            continue
        t = factor_sign(fid)
        if t == "?":
            return "?"
        if t in ("-", "0-"):
            s = _FLIP[s]
    return s


def factor_sign(fid):
    t = psign(SP.factors[fid])
    if t == "?":
        return SP_FACTOR_SIGN.get((id(SP), fid), "?")
    return t


SP_FACTOR_SIGN = {}


def rsign(a):
    s = psign(a.n)
    if s in ("0", "?"):
        return s
    t = fsign(a.f)
    if t == "?":
        return "?"
    return _FLIP[s] if t == "-" else s
