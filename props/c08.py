"""Segments join continuously; point loads enter exactly once."""
from .common import I, angle, model
from .c18 import slab_attributes, stub_springs

BOUNDS = ("skier assemblies of 2-4 segments (thorough 5) with every support pattern, of 6-8 (thorough 10) with given patterns, all PST and skier systems, contact stages A-C; "
          "lengths (zero included), loads, slope, stiffnesses, free constants symbolic; eigenvalue splits PPPNNN and PNpn")
OUTSIDE = "more segments; round-off of the linear solver"
ASSUMES = ["numpy.linalg.solve returns a solution of its linear system",
           "slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06)",
           "contact thresholds arbitrary in (0, L) (C18)"]


def place_crack(ctx, m, kw):
    """Concrete run: a crack as far from the model's own contact lengths as
    the solver's one is from the arbitrary ones (or close to one of them)."""
    import copy
    try:
        q = copy.deepcopy(m)
        q.set_touchdown_attributes(kw["L"], kw["a"], kw["cf"], kw["phi"], kw.get("ratio", 1000))
        t = [float(q.calc_a1()), float(q.calc_a2())]
    except Exception:
        return
    v = [ctx.values.get("th_a1"), ctx.values.get("th_a2")]
    a = kw["a"]
    if None in v:
        u, w, end = ctx.rnd.random(), ctx.rnd.random(), kw["L"]
        if u < 0.2:
            return
        if u < 0.4:
            a = ctx.rnd.choice(t) + 10 ** ctx.rnd.uniform(-2, 1.5) * ctx.rnd.choice((-1, 1))
        elif u < 0.5:
            a = (0.3 + 0.7 * w) * t[0]
        elif u < 0.7:
            a = t[0] + w * (t[1] - t[0])
        else:
            a = t[1] + (0.05 + 0.75 * w) * (end - t[1])
    else:
        i = 0 if abs(a - v[0]) < abs(a - v[1]) else 1
        d = a - v[i]
        a = t[i] + d
        if (d > 0) != (a > t[i]) or (i == 0 and a > t[1]) or (i == 1 and a < t[0]):
            a = (t[0] + t[1]) / 2
    if 0 <= a < kw["L"]:
        kw["a"] = a


def stub_contact(ctx, m, kw=None):
    """Symbolic run: arbitrary ordered contact lengths and springs."""
    if ctx.mode == "conc":
        if kw is not None:
            place_crack(ctx, m, kw)
        return
    a1, a2, lc = ctx.real("th_a1", (300, 600)), ctx.real("th_a2", (700, 1200)), ctx.real("th_lc", (300, 600))
    ctx.assume(a1 < a2)
    m.calc_a1 = lambda: a1
    m.calc_a2 = lambda: a2
    m.calc_lC = lambda: lc
    stub_springs(ctx, m)


def slab(ctx, system, touchdown=False, n=1):
    m, ls = model(ctx, n, system=system, touchdown=touchdown, param=False)
    slab_attributes(ctx, m)
    m.zs = ctx.real("ecc_zs", (-20, 20), "any")
    if ctx.mode == "conc":
        m.calc_eigensystem()
        m.calc_system_matrix()
    return m


def joints(ctx, m, C, phi, li, ki, mi):
    h = m.h
    for i in range(len(li) - 1):
        zl = m.z(li[i], C[:, [i]], li[i], phi, bed=ki[i])
        zr = m.z(0, C[:, [i + 1]], li[i + 1], phi, bed=ki[i + 1])
        F = mi[i] * 1e-3 * m.g / m.lski
        Fn, Ft = F * ctx.cos(phi), -F * ctx.sin(phi)
        if ctx.mode == "sym":
            F = mi[i] * ctx.num(1e-3) * m.g / m.lski
            Fn, Ft = F * ctx.cos(phi), -F * ctx.sin(phi)
        t = "joint %d: " % (i + 1)
        s = lambda: [1e-3 * abs(v) for v in (zl[0, 0], zl[2, 0])] + [1e-6]
        ctx.eq(t + "u", zl[0, 0], zr[0, 0], scale=s, tol=1e-4)
        ctx.eq(t + "w", zl[2, 0], zr[2, 0], scale=s, tol=1e-4)
        ctx.eq(t + "psi", zl[4, 0], zr[4, 0], scale=lambda: [1e-3 * abs(zl[4, 0]), 1e-6 * abs(zl[2, 0]), 1e-8], tol=1e-4)
        f = lambda: [abs(F), 1e-2 * abs(m.N(zl)[0]), 1e-2 * abs(m.V(zl)[0]), 1e-5 * abs(m.kA55 * zl[4, 0]), 1e-3]
        ctx.eq(t + "N", m.N(zr)[0], m.N(zl)[0] - Ft, scale=f, tol=1e-4)
        ctx.eq(t + "V", m.V(zr)[0], m.V(zl)[0] - Fn, scale=f, tol=1e-4)
        ctx.eq(t + "M", m.M(zr)[0], m.M(zl)[0] + Ft * h / 2, scale=lambda: [h * v for v in f()], tol=1e-4)


def skiers(ctx, n, sup=None):
    m = slab(ctx, "skiers")
    phi = angle(ctx)
    li = [ctx.real("l%d" % i, (600, 3000), "pos" if i in (0, n - 1) else "nonneg") for i in range(n)]
    mi = [ctx.real("m%d" % i, (0, 120), "nonneg") for i in range(n - 1)]
    ki = [True] + [ctx.boolean("k%d" % i) for i in range(1, n - 1)] + [True] if sup is None else [c == "1" for c in sup]
    s = m.calc_segments(li=li, mi=mi, ki=ki, k0=[True] * n, phi=phi)
    for state in ("nocrack", "crack"):
        g = s[state]
        C = m.assemble_and_solve(phi=phi, **g)
        ctx.shape(state + " constants", C, (6, n))
        joints(ctx, m, C, phi, li, g["ki"], mi)


def system(ctx, system, touchdown=False):
    m = slab(ctx, system, touchdown)
    phi = angle(ctx)
    L = ctx.real("L", (4000, 20000) if touchdown else (2500, 6000))
    a = ctx.real("a", (200, 1500), "nonneg")
    ctx.assume(a < L)
    mass = ctx.real("m", (0, 120), "nonneg")
    kw = dict(L=L, a=a, m=mass, phi=phi, cf=ctx.real("cf", (0.1, 0.7)), ratio=ctx.real("ratio", (10, 1000)))
    if touchdown:
        stub_contact(ctx, m, kw)
    s = m.calc_segments(**kw)
    mi = [0, mass, 0] if system == "skier" else [0]
    for state in ("crack",) if touchdown else ("nocrack", "crack"):
        g = s[state]
        C = m.assemble_and_solve(phi=phi, **g)
        joints(ctx, m, C, phi, g["li"], g["ki"], mi)


def instances(tier):
    out = []
    pats = ("PPPNNN", "PNpn")
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for p in pats:
            out.append(I("skiers-%d-%s" % (n, p), "skiers", {"n": n}, opts={"eig_patterns": [p]}, weight=n))
    many = [("100101", 0), ("11011011", 1)]
    if tier != "quick":
        many += [("1010101", 1), ("1100011", 0), ("11111111", 1), ("1000000001", 0)]
    for k, p in many:
        out.append(I("skiers-%s" % k, "skiers", {"n": len(k), "sup": k}, opts={"eig_patterns": [pats[p]]}, weight=len(k)))
    for s in ("pst-", "-pst", "vpst-", "-vpst", "skier"):
        for p in pats:
            out.append(I("%s-%s" % (s, p), "system", {"system": s}, opts={"eig_patterns": [p]}))
    for s in ("pst-", "-pst"):
        out.append(I("touchdown-%s" % s, "system", {"system": s, "touchdown": True}, opts={"eig_patterns": ["PNpn"]}))
    return out
