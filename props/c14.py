"""Incremental energy release rate."""
from .common import I, angle, model
from .c08 import slab

BOUNDS = ("assemblies of 1-3 segments (thorough 4) with every support pattern before and after cracking, of 6-8 with given ones; constants of both states, lengths, slope, "
          "stiffnesses, weak layer symbolic; eigenvalue splits PPPNNN and PNpn")
OUTSIDE = "quadrature error of scipy.integrate.quad (exact integral assumed); more segments"
ASSUMES = ["scipy.integrate.quad returns the integral", "slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06)"]


def consts(ctx, tag, n):
    return ctx.array([[ctx.real("%s%d_%d" % (tag, i, j), (-1, 1), "any") for j in range(n)] for i in range(6)])


def pattern(ctx, n, ki, k0):
    if ki is None:
        ki = [ctx.boolean("k%d" % i) for i in range(n)]
    if k0 is None:
        k0 = [ctx.boolean("o%d" % i) for i in range(n)]
    return ki, k0


def work(ctx, n, ki=None, k0=None):
    m = slab(ctx, "skiers")
    phi = angle(ctx)
    ki, k0 = pattern(ctx, n, ki, k0)
    li = [ctx.real("l%d" % i, (50, 400)) for i in range(n)]
    C0, C1 = consts(ctx, "A", n), consts(ctx, "B", n)
    G = m.ginc(C0, C1, phi, ctx.array(li), ctx.np.array(ki), ctx.np.array(k0), mi=0)
    ctx.shape("rates", G, (3,))
    new = [i for i in range(n) if k0[i] and not ki[i]]
    if not new:
        # no new crack, no work
        for j in range(3):
            ctx.eq("no crack, no release %d" % j, G[j], 0)
        return
    da = sum(li[i] for i in new)
    w1 = w2 = ctx.num(0)
    for i in new:
        def z0(x):
            return m.z(x, C0[:, [i]], li[i], phi, bed=True)

        def z1(x):
            return m.z(x, C1[:, [i]], li[i], phi, bed=False)
        # crack-face displacements: closing -w, sliding u(h/2) - w' t/2
        w1 = w1 + ctx.integral(lambda x: m.sig(z0(x))[0] * (-z1(x)[2, 0]), 0, li[i])
        w2 = w2 + ctx.integral(lambda x: m.tau(z0(x))[0] * (z1(x)[0, 0] + m.h / 2 * z1(x)[4, 0] - m.t / 2 * z1(x)[3, 0]), 0, li[i])
    sc = lambda: [1e-3 * abs(w1 / da), 1e-3 * abs(w2 / da), 1e-6]
    ctx.eq("mode I", G[1], w1 / (2 * da), scale=sc, tol=1e-5, rough=True)
    ctx.eq("mode II", G[2], w2 / (2 * da), scale=sc, tol=1e-5, rough=True)
    ctx.eq("total", G[0], G[1] + G[2], scale=lambda: [abs(G[1]), abs(G[2])], tol=1e-9)


def coincide(ctx, n, lin):
    """Cracked field equal to the uncracked one: mean of sig^2/(2kn) and tau^2/(2kt)."""
    m = slab(ctx, "skiers")
    phi = angle(ctx)
    ki, k0 = pattern(ctx, n, None, [True] * n)
    ki[0] = False
    li = [ctx.real("l%d" % i, (50, 400)) for i in range(n)]
    A, B = consts(ctx, "A", n), consts(ctx, "B", 1)

    def z(x, C, l, phi, bed=True):
        """Any field, the same with and without weak layer."""
        return C + x * B if lin else C
    m.z = z
    G = m.ginc(A, A, phi, ctx.array(li), ctx.np.array(ki), ctx.np.array(k0))
    g1 = g2 = ctx.num(0)
    da = sum(li[i] for i in range(n) if not ki[i])
    for i in range(n):
        if not ki[i]:
            f = lambda x: z(x, A[:, [i]], li[i], phi)
            g1 = g1 + ctx.integral(lambda x: m.sig(f(x))[0] ** 2, 0, li[i]) / (2 * m.kn)
            g2 = g2 + ctx.integral(lambda x: m.tau(f(x))[0] ** 2, 0, li[i]) / (2 * m.kt)
    ctx.eq("mode I is the mean", G[1], g1 / da, tol=1e-5, rough=True)
    ctx.eq("mode II is the mean", G[2], g2 / da, tol=1e-5, rough=True)
    if not lin:
        ctx.le("mode I non-negative", 0, G[1])
        ctx.le("mode II non-negative", 0, G[2])


def instances(tier):
    out = [I("coincide-1", "coincide", {"n": 1, "lin": True}), I("coincide-2", "coincide", {"n": 2, "lin": False})]
    for p in ("PPPNNN", "PNpn"):
        o = {"eig_patterns": [p]}
        out.append(I("work-1-%s" % p, "work", {"n": 1}, opts=o))
        out.append(I("work-2-%s" % p, "work", {"n": 2}, opts=o, weight=2))
    out.append(I("work-3-crack", "work", {"n": 3, "k0": [True] * 3}, opts={"eig_patterns": ["PNpn"]}, weight=4))
    for k, o in (("100101", "111111"), ("0011010", "1011111"), ("01010101", "01111111")):
        out.append(I("work-%s-%s" % (k, o), "work", {"n": len(k), "ki": [c == "1" for c in k], "k0": [c == "1" for c in o]},
                     opts={"eig_patterns": ["PNpn"]}, weight=3))
    if tier != "quick":
        out.append(I("work-3", "work", {"n": 3}, opts={"eig_patterns": ["PPPNNN"]}, weight=6))
        out.append(I("work-4-crack", "work", {"n": 4, "k0": [True] * 4}, opts={"eig_patterns": ["PNpn"]}, weight=6))
    return out
