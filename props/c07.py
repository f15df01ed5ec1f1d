"""Solutions on unsupported segments: free-beam equilibrium."""
from .common import I, angle, model
from .c06 import consts

BOUNDS = "slabs of 1-3 and 5 layers (thorough 6), every parameter, position, slope, load and free constant symbolic"
OUTSIDE = "more layers"


def field(ctx, n):
    m, _ = model(ctx, n, nu=True)
    phi = angle(ctx)
    C = consts(ctx)
    l = ctx.real("l", (200, 2000))
    x = ctx.real("x", (0, 800), "nonneg")
    f = lambda s: m.z(s, C, l, phi, bed=False)
    z = f(x)
    d = ctx.deriv(f, x, step=5.0)
    qn, qt = m.get_weight_load(phi)
    pn, pt = m.get_surface_load(phi)
    N = lambda s: m.N(f(s))
    V = lambda s: m.V(f(s))
    M = lambda s: m.M(f(s))
    sl = lambda: abs(qn) + abs(pn) + abs(qt) + abs(pt)
    ctx.shape("z", z, (6, 1))
    ctx.eq("N' = -(qt+pt)", ctx.deriv(N, x, step=5.0), -(qt + pt), scale=lambda: [sl(), 1e-5 * abs(N(x)[0])], tol=1e-4, rough=True)
    ctx.eq("V' = -(qn+pn)", ctx.deriv(V, x, step=5.0), -(qn + pn), scale=lambda: [sl(), 1e-5 * abs(m.kA55 * z[4, 0])], tol=1e-4, rough=True)
    ctx.eq("M' = V - qt zs + pt h/2", ctx.deriv(M, x, step=5.0), m.V(z) - qt * m.zs + pt * m.h / 2,
           scale=lambda: [sl() * m.h, abs(m.V(z)[0]), 1e-5 * abs(m.kA55 * z[4, 0])], tol=1e-4, rough=True)
    for i, k in ((0, "u"), (2, "w"), (4, "psi")):
        ctx.eq(k + "' is the next entry", d[i], z[i + 1], scale=lambda: [abs(z[i + 1]), 1e-6 * abs(z[i])], tol=1e-4, rough=True)


def sequence(ctx, n):
    m, _ = model(ctx, n)
    phi = angle(ctx)
    C = consts(ctx)
    l = ctx.real("l", (200, 2000))
    xs = [ctx.real("x%d" % i, (0, 200), "nonneg") for i in range(3)]
    z = m.z(ctx.array(xs), C, l, phi, bed=False)
    ctx.shape("z", z, (6, 3))
    for j, x in enumerate(xs):
        ctx.eq("column %d" % j, z[:, j], m.z(x, C, l, phi, bed=False)[:, 0])


def instances(tier):
    ns = (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6)
    return [I("field-%d" % n, "field", {"n": n}, weight=n) for n in ns] + [I("sequence-2", "sequence", {"n": 2})]
