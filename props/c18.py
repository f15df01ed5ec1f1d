"""Contact thresholds and substitute springs."""
from .common import I, angle, model

BOUNDS = ("slabs of 1-2 layers for the springs, arbitrary admissible stiffnesses for the thresholds; slope, loads, lengths, "
          "collapse height, springs symbolic; eigenvalue splits PPPNNN and PNpn")
OUTSIDE = "existence of the root inside the search bracket"
ASSUMES = ["scipy.optimize.brentq returns a root of the function it is given",
           "numpy.linalg.solve returns the (unique) solution of its linear system",
           "thresholds: substitute springs are positive and depend on length, support and direction only (decided by the springs instances)"]


def slab_attributes(ctx, m):
    """Arbitrary admissible stiffnesses in place of a particular layering."""
    m.A11 = ctx.real("A11", (3e3, 3e4))
    b = ctx.real("ecc", (-20, 20), "any")
    m.B11 = m.A11 * b
    m.D11 = m.A11 * (b ** 2 + ctx.real("rad", (30, 80)) ** 2)
    m.kA55 = ctx.real("kA55", (1e3, 1e4))
    m.K0 = m.B11 ** 2 - m.A11 * m.D11


def stub_springs(ctx, m):
    """Symbolic run: arbitrary positive springs, one per length, support and
    direction.  Concrete run: the model's own."""
    if ctx.mode == "conc":
        return m.substitute_stiffness
    memo = ctx.e.memo

    def f(L, support="rested", dof="rot"):
        from symx import sym as S
        k = ("spring", S.lift(L).r.key(), support, dof)
        if k not in memo:
            memo[k] = ctx.e.fresh("spring%d" % sum(1 for x in memo if isinstance(x, tuple) and x[0] == "spring"), "pos")
        return memo[k]
    m.substitute_stiffness = f
    return f


def setup(ctx, a_typ=(200, 900), l_typ=(2500, 6000)):
    m, _ = model(ctx, 1, param=False)
    slab_attributes(ctx, m)
    if ctx.mode == "conc":
        m.calc_eigensystem()
    phi = angle(ctx)
    L = ctx.real("L", l_typ)
    a = ctx.real("a", a_typ)
    ctx.assume(a < L)
    m.set_touchdown_attributes(L, a, ctx.real("cf", (0.3, 0.9)), phi, ctx.real("ratio", (10, 1000)))
    ctx.assume(m.tc > 0)
    qn = m.calc_qn()
    ctx.assume(qn > 0)
    k = stub_springs(ctx, m)
    bs = m.D11 - m.B11 ** 2 / m.A11
    return m, L, a, qn, k, bs, m.kA55


def overhang(x, qn, kR, kN, bs, ss, R, kRr, Mt):
    """Tip deflection and tip slope of an overhang of length x: root on
    springs, uniform load qn, tip force R upwards, tip moment Mt."""
    V0 = qn * x - R
    M0 = qn * x ** 2 / 2 - R * x - Mt
    w = (V0 / kN + M0 / kR * x + qn * x ** 4 / (8 * bs) + qn * x ** 2 / (2 * ss)
         - R * x ** 3 / (3 * bs) - R * x / ss - Mt * x ** 2 / (2 * bs))
    rot = M0 / kR + qn * x ** 3 / (6 * bs) - R * x ** 2 / (2 * bs) - Mt * x / bs
    slope = rot - R / ss
    return w, rot, slope


def found(ctx, fn, g, end):
    """The root, which has to be found where the sag (slope) changes its sign
    well inside the specimen."""
    if ctx.mode == "sym":
        n = len(ctx.e.events)
        x = fn()
        new = [v for v in ctx.e.events[n:] if v[0] == "brentq"]
        if len(new) == 1:
            ctx.le("contact length inside the specimen is found (search starts)", new[0][3], end / 100)
            ctx.le("contact length inside the specimen is found (search ends)", end * 9 / 10, new[0][4])
        return x
    try:
        return fn()
    except ValueError as e:
        s = [g(f * end) > 0 for f in (0.01, 0.9)]
        if s[0] != s[1]:
            ctx.true("contact length inside the specimen is found", False)
        ctx.outside("no root: %s" % e)


def first(ctx):
    m, L, a, qn, k, bs, ss = setup(ctx)

    def sag(x):
        return overhang(x, qn, k(L - x, "supported", "rot"), k(L - x, "supported", "trans"), bs, ss, 0, 0, 0)[0] - m.tc
    x = found(ctx, m.calc_a1, sag, L)
    kR, kN = k(L - x, "supported", "rot"), k(L - x, "supported", "trans")
    w, _, _ = overhang(x, qn, kR, kN, bs, ss, 0, 0, 0)
    ctx.eq("free end sags by the collapse height", w, m.tc, tol=1e-4)
    ctx.lt("inside the specimen (left)", 0, x)
    ctx.lt("inside the specimen (right)", x, L)


def landing(ctx, x, qn, kR, kN, bs, ss, tc, kRr, scale):
    """R and Mt from landing at tc with tip spring kRr; then slope = 0."""
    # unknown R, Mt with Mt = kRr * rot:  linear 2x2 system, Cramer
    def at(R, Mt):
        return overhang(x, qn, kR, kN, bs, ss, R, kRr, Mt)
    w0, r0, s0 = at(0, 0)
    wR, rR, _ = [p - q for p, q in zip(at(1, 0), (w0, r0, s0))]
    wM, rM, _ = [p - q for p, q in zip(at(0, 1), (w0, r0, s0))]
    # wR R + wM M = tc - w0 ;  kRr rR R + (kRr rM - 1) M = -kRr r0
    a, b, c, d = wR, wM, kRr * rR, kRr * rM - 1
    e, f = tc - w0, -kRr * r0
    det = a * d - b * c
    R = (e * d - b * f) / det
    M = (a * f - e * c) / det
    w, rot, slope = at(R, M)
    return w, rot, slope, M


def full(ctx):
    m, L, a, qn, k, bs, ss = setup(ctx)

    def slope_at(x):
        return landing(ctx, x, qn, k(L - x, "supported", "rot"), k(L - x, "supported", "trans"), bs, ss, m.tc, 0, None)[2]
    x = found(ctx, m.calc_a2, slope_at, L)
    kR, kN = k(L - x, "supported", "rot"), k(L - x, "supported", "trans")
    w, rot, slope, M = landing(ctx, x, qn, kR, kN, bs, ss, m.tc, 0, None)
    ctx.eq("lands at the collapse height", w, m.tc, tol=1e-4)
    ctx.eq("zero slope at landing", slope, 0, scale=lambda: [qn * x ** 3 / (6 * bs), qn * x / ss], tol=1e-3)
    ctx.lt("inside the specimen (left)", 0, x)
    ctx.lt("inside the specimen (right)", x, L)


def length(ctx):
    m, L, a, qn, k, bs, ss = setup(ctx, a_typ=(1500, 4500), l_typ=(4000, 12000))

    def slope_at(x):
        return landing(ctx, x, qn, k(L - a, "supported", "rot"), k(L - a, "supported", "trans"), bs, ss, m.tc, k(a - x, "rested", "rot"), None)[2]
    x = found(ctx, m.calc_lC, slope_at, a)
    kR, kN = k(L - a, "supported", "rot"), k(L - a, "supported", "trans")
    kRr = k(a - x, "rested", "rot")
    w, rot, slope, M = landing(ctx, x, qn, kR, kN, bs, ss, m.tc, kRr, None)
    ctx.eq("lands at the collapse height", w, m.tc, tol=1e-4)
    ctx.eq("zero slope at landing", slope, 0, scale=lambda: [qn * x ** 3 / (6 * bs), qn * x / ss], tol=1e-3)
    ctx.lt("shorter than the crack", x, a)
    ctx.lt("positive", 0, x)


def springs(ctx, n, support, dof):
    """Reciprocal rotation or deflection of the end under a unit load."""
    m, _ = model(ctx, n)
    phi = angle(ctx)
    L = ctx.real("L", (2500, 6000))
    ratio = ctx.real("ratio", (10, 1000))
    m.set_touchdown_attributes(L, ctx.real("a", (200, 900)), ctx.real("cf", (0.3, 0.9)), phi, ratio)
    l = ctx.real("l", (400, 4000))
    # reference: the loaded free-free slab on its foundation, weightless
    r, _ = model(ctx, n)
    r.g = 0
    r.set_surface_load(0)
    if support == "rested":
        r.kn, r.kt = r.kn * ratio, r.kt * ratio
        r.calc_eigensystem()
    np = ctx.np
    z0, zl = r.zh(0, l, True), r.zh(l, l, True)
    A = np.array([r.N(z0), r.M(z0), r.V(z0), r.N(zl), r.M(zl), r.V(zl)])
    b = np.array([[0], [1 if dof == "rot" else 0], [1 if dof == "trans" else 0], [0], [0], [0]])
    C = np.linalg.solve(A, b)
    z = np.dot(z0, C)
    val = r.psi(z)[0] if dof == "rot" else r.w(z)[0]

    def cand(A, b):
        """Constants of the same field for the segments [l, 0]."""
        if A.shape[0] == 6:
            return C.ravel()
        nR, nC = len(r.ewR), len(r.ewC)
        D = []
        for j in range(nR):
            D.append(C[j, 0] * np.exp(r.ewR[j] * (l + l * r.sR[j])))
        re, im = [], []
        for j in range(nC):
            E = np.exp(r.ewC[j].real * (l + l * r.sC[j]))
            c, s = np.cos(r.ewC[j].imag * l), np.sin(r.ewC[j].imag * l)
            a1, a2 = C[nR + j, 0], C[nR + nC + j, 0]
            re.append(E * (a1 * c + a2 * s))
            im.append(E * (a2 * c - a1 * s))
        return list(C.ravel()) + D + re + im
    ctx.known_solution([("unit-load field solves the spring system", cand)])
    k = m.substitute_stiffness(l, support, dof)
    ctx.end_known_solution()
    ctx.eq("spring is the reciprocal unit response (squared)", k ** 2 * val ** 2, 1, tol=1e-5)
    ctx.le("spring positive", 0, k)
    ctx.true("system restored", m.system == "pst-")


def loadfree(ctx, support, dof):
    """Slope, surface load and gravity do not matter."""
    ks = []
    l = ctx.real("l", (400, 4000))
    for tag in ("1", "2"):
        m, _ = model(ctx, 1, load=False)
        m.g = ctx.real("g" + tag, (1000, 20000))
        m.set_surface_load(ctx.real("p" + tag, (0, 2e-3), "nonneg"))
        m.set_touchdown_attributes(ctx.real("L", (2500, 6000)), ctx.real("a", (200, 900)), ctx.real("cf", (0.3, 0.9)),
                                   angle(ctx, "phi" + tag), ctx.real("ratio", (10, 1000)))
        k0 = (m.kn, m.kt)
        ks.append(m.substitute_stiffness(l, support, dof))
        ctx.same("foundation restored", (m.kn, m.kt), k0)
    ctx.eq("same spring under other loads (squared)", ks[0] ** 2, ks[1] ** 2, tol=1e-5)


def instances(tier):
    out = [I("first-contact", "first"), I("full-contact", "full"), I("length-C", "length")]
    for s in ("supported", "rested"):
        for d in ("rot", "trans"):
            out.append(I("loadfree-%s-%s" % (s, d), "loadfree", {"support": s, "dof": d}))
            for pat in ("PPPNNN", "PNpn"):
                for n in ((1,) if tier == "quick" else (1, 2)):
                    out.append(I("spring-%s-%s-%d-%s" % (s, d, n, pat), "springs", {"n": n, "support": s, "dof": d},
                                 opts={"eig_patterns": [pat]}))
    return out
