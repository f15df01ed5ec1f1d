"""End conditions of the solved systems."""
from .common import I, angle
from .c08 import slab
from .c10 import centroid

BOUNDS = ("all six systems without contact, skier assemblies of 2-3 segments (thorough 4) with every support pattern, of 6 (thorough 9) with given patterns; lengths, loads, slope, "
          "stiffnesses symbolic; wedges of 1-2 layers; eigenvalue splits PPPNNN and PNpn")
OUTSIDE = "contact stages (C19); round-off of the linear solver"
ASSUMES = ["numpy.linalg.solve returns a solution of its linear system",
           "slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06)"]


def forces(ctx, m, z):
    return m.N(z)[0], m.M(z)[0], m.V(z)[0]


def scales(m, z):
    return lambda: [1e-2 * abs(m.A11 * z[1, 0]), 1e-5 * abs(m.kA55 * z[4, 0]), 1e-2 * abs(m.kA55 * z[3, 0]), 1e-2]


def expect(ctx, tag, m, z, N, M, V):
    f = scales(m, z)
    for k, a, b in zip("NMV", forces(ctx, m, z), (N, M, V)):
        ctx.eq("%s %s" % (tag, k), a, b, scale=lambda k=k: [(m.h if k == "M" else 1) * v for v in f()] + [abs(b)], tol=1e-4)


def ends(m, C, phi, li, ki):
    n = len(li)
    return (m.z(0, C[:, [0]], li[0], phi, bed=ki[0]), m.z(li[n - 1], C[:, [n - 1]], li[n - 1], phi, bed=ki[n - 1]))


def pst(ctx, system, n=1):
    m = slab(ctx, system, n=n)
    phi = angle(ctx)
    L = ctx.real("L", (2500, 6000))
    a = ctx.real("a", (200, 1500), "nonneg")
    ctx.assume(a < L)
    s = m.calc_segments(L=L, a=a, phi=phi)
    N = M = V = 0
    if "v" in system and not ctx.pick(phi.__eq__(0)):
        ls = [[m.slab[i, 0], m.slab[i, 1]] for i in range(n)]
        mass, mx, mz = centroid(ctx, ls, phi)
        gx, gz = -m.g * ctx.sin(phi), m.g * ctx.cos(phi)
        N, V, M = mass * gx, mass * gz, mz * gx - mx * gz
    for state in ("nocrack", "crack"):
        g = s[state]
        if state == "crack":
            free = 1 if system.endswith("-") else 0
            ctx.true("cracked end unsupported", not g["ki"][free])
            ctx.true("other end supported", bool(g["ki"][1 - free]))
            ctx.eq("length of the unsupported end", g["li"][free], a)
        C = m.assemble_and_solve(phi=phi, **g)
        for tag, z in zip(("left", "right"), ends(m, C, phi, g["li"], g["ki"])):
            expect(ctx, "%s %s end" % (state, tag), m, z, N, M, V)


def infinite(ctx, m, C, phi, li, ki, state):
    far = m.zp(x=0, phi=phi, bed=True)
    # undisturbed slab: tractions balance the loads
    for tag, z in zip(("left", "right"), ends(m, C, phi, li, ki)):
        for i, k in ((0, "u"), (2, "w"), (4, "psi")):
            ctx.eq("%s %s end %s" % (state, tag, k), z[i, 0], far[i, 0],
                   scale=lambda: [abs(far[0, 0]), abs(far[2, 0])] if i < 4 else [1e-6, 1e-4 * abs(far[2, 0])], tol=1e-4)


def skier(ctx):
    m = slab(ctx, "skier")
    phi = angle(ctx)
    L = ctx.real("L", (8000, 16000))
    a = ctx.real("a", (200, 1500), "nonneg")
    ctx.assume(a < L)
    s = m.calc_segments(L=L, a=a, m=ctx.real("m", (0, 120), "nonneg"), phi=phi)
    for state in ("nocrack", "crack"):
        C = m.assemble_and_solve(phi=phi, **s[state])
        infinite(ctx, m, C, phi, s[state]["li"], s[state]["ki"], state)


def skiers(ctx, n, sup=None):
    m = slab(ctx, "skiers")
    phi = angle(ctx)
    li = [ctx.real("l%d" % i, (600, 3000), "pos" if i in (0, n - 1) else "nonneg") for i in range(n)]
    mi = [ctx.real("m%d" % i, (0, 120), "nonneg") for i in range(n - 1)]
    ki = [True] + [ctx.boolean("k%d" % i) for i in range(1, n - 1)] + [True] if sup is None else [c == "1" for c in sup]
    s = m.calc_segments(li=li, mi=mi, ki=ki, k0=[True] * n, phi=phi)
    for state in ("nocrack", "crack"):
        C = m.assemble_and_solve(phi=phi, **s[state])
        infinite(ctx, m, C, phi, s[state]["li"], s[state]["ki"], state)


def undisturbed(ctx):
    """The far state: weak-layer tractions carry all loads, no section force
    gradients, equilibrium of moments."""
    m = slab(ctx, "skier")
    phi = angle(ctx)
    z = m.zp(x=0, phi=phi, bed=True)
    qn, qt = m.get_weight_load(phi)
    pn, pt = m.get_surface_load(phi)
    sc = lambda: [abs(qn) + abs(qt) + abs(pn) + abs(pt)]
    ctx.eq("normal stress carries the normal load", m.sig(z)[0], -(qn + pn), scale=sc, tol=1e-6)
    ctx.eq("shear stress carries the tangential load", m.tau(z)[0], qt + pt, scale=sc, tol=1e-6)
    ctx.eq("moment balance", m.V(z)[0], qt * m.zs - pt * m.h / 2 - (qt + pt) * (m.h + m.t) / 2, scale=lambda: [m.h * sc()[0]], tol=1e-6)
    for i in (1, 3, 5):
        ctx.eq("gradient %d" % i, z[i, 0], 0, scale=lambda: [1e-9])


def instances(tier):
    out = [I("undisturbed", "undisturbed")]
    for p in ("PPPNNN", "PNpn"):
        o = {"eig_patterns": [p]}
        for s in ("pst-", "-pst"):
            out.append(I("%s-%s" % (s, p), "pst", {"system": s}, opts=o))
        for s in ("vpst-", "-vpst"):
            for n in ((1, 2) if p == "PNpn" else (1,)):
                out.append(I("%s-%d-%s" % (s, n, p), "pst", {"system": s, "n": n}, opts=o, weight=3))
        out.append(I("skier-%s" % p, "skier", {}, opts=o))
        for n in ((2, 3) if tier == "quick" else (2, 3, 4)):
            out.append(I("skiers-%d-%s" % (n, p), "skiers", {"n": n}, opts=o, weight=n))
    for k in ("101001",) if tier == "quick" else ("101001", "110110011", "11111111"):
        out.append(I("skiers-%s" % k, "skiers", {"n": len(k), "sup": k}, opts={"eig_patterns": ["PNpn"]}, weight=len(k)))
    return out
