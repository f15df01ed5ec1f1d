"""Differential energy release rates."""
from .common import I, angle, model
from .c08 import slab

BOUNDS = ("assemblies of 1-4 segments (thorough 6) with every support pattern, of 7-10 with given ones; constants, lengths, slope, stiffnesses, weak layer symbolic; "
          "eigenvalue splits PPPNNN and PNpn; all units")
OUTSIDE = "more segments"
ASSUMES = ["slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06)"]

FACTOR = {"J/m^2": 1000, "kJ/m^2": 1, "N/mm": 1}


def tip(ctx):
    """Rates at one crack tip from an arbitrary state."""
    from .common import state
    m, _ = model(ctx, 1)
    z = state(ctx)
    sig, tau = m.sig(z, unit="MPa")[0], m.tau(z, unit="MPa")[0]
    for u, f in FACTOR.items():
        ctx.eq("mode I in " + u, m.Gi(z, unit=u)[0], f * sig ** 2 / (2 * m.kn), tol=1e-9)
        ctx.eq("mode II in " + u, m.Gii(z, unit=u)[0], f * tau ** 2 / (2 * m.kt), tol=1e-9)
        ctx.le("mode I non-negative", 0, m.Gi(z, unit=u)[0])
        ctx.le("mode II non-negative", 0, m.Gii(z, unit=u)[0])
    ctx.eq("default unit I", m.Gi(z), m.Gi(z, unit="kJ/m^2"))
    ctx.eq("default unit II", m.Gii(z), m.Gii(z, unit="kJ/m^2"))


def weights(ki):
    """Half weight at each tip unless its crack reaches an end of the slab
    or there is only one tip."""
    n = len(ki)
    tips = [i for i in range(n - 1) if ki[i] != ki[i + 1]]
    out = []
    for i in tips:
        j = i + 1 if not ki[i + 1] else i        # a segment of the crack
        step = 1 if j == i + 1 else -1
        while 0 <= j < n and not ki[j]:
            j += step
        free = j < 0 or j >= n
        out.append((i, 1 if free or len(tips) == 1 else ("half")))
    return out


def total(ctx, n, unit, sup=None):
    m = slab(ctx, "skiers")
    phi = angle(ctx)
    ki = [ctx.boolean("k%d" % i) for i in range(n)] if sup is None else [c == "1" for c in sup]
    li = [ctx.real("l%d" % i, (300, 2000)) for i in range(n)]
    C = ctx.array([[ctx.real("C%d_%d" % (i, j), (-1, 1), "any") for j in range(n)] for i in range(6)])
    G = m.gdif(C, phi, ctx.array(li), ctx.array(ki) if ctx.mode == "sym" else ctx.np.array(ki), unit=unit, mi=0)
    ctx.shape("rates", G, (3,))
    g1 = g2 = ctx.num(0)
    for i, w in weights(ki):
        z = m.z(li[i], C[:, [i]], li[i], phi, bed=ki[i])
        f = FACTOR[unit] if w == 1 else FACTOR[unit] * ctx.num(0.5)
        g1 = g1 + f * m.sig(z)[0] ** 2 / (2 * m.kn)
        g2 = g2 + f * m.tau(z)[0] ** 2 / (2 * m.kt)
    ctx.eq("mode I", G[1], g1, tol=1e-9)
    ctx.eq("mode II", G[2], g2, tol=1e-9)
    ctx.eq("total", G[0], g1 + g2, tol=1e-9)


def instances(tier):
    out = [I("tip", "tip")]
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for p, u in (("PPPNNN", "kJ/m^2"), ("PNpn", "J/m^2")):
            out.append(I("total-%d-%s" % (n, p), "total", {"n": n, "unit": u}, opts={"eig_patterns": [p]}, weight=n))
    for k, u in (("1101001", "J/m^2"), ("0110100110", "kJ/m^2"), ("1000000001", "kJ/m^2")):
        out.append(I("total-%s" % k, "total", {"n": len(k), "unit": u, "sup": k}, opts={"eig_patterns": ["PNpn"]}, weight=3))
    return out
