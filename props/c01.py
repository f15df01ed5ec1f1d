"""Laminate stiffness: exact through-thickness integrals, admissible."""
from .common import I, layers, model

BOUNDS = "slabs of 1-5 and 8 layers (thorough also 12), 25 and 60 layers (thorough 150) of given thicknesses and three densities, database profiles; thickness, density, C0, C1 and Poisson ratio symbolic"
OUTSIDE = "more layers"


def oracle(ctx, m, ls, nu):
    """Integrals about the mid-plane, layer by layer."""
    H = sum(l[1] for l in ls)
    A = B = D = S = 0
    top = -H / 2
    for i, l in enumerate(ls):
        h = l[1]
        c = top + h / 2
        E = m.slab[i, 2]
        G = m.slab[i, 3]
        e = E / (1 - nu ** 2)
        A = A + e * h
        B = B + e * h * c
        D = D + e * (h * c ** 2 + h ** 3 / 12)
        S = S + G * h * 5 / 6
        top = top + h
    return A, B, D, S, H


def admissible(ctx, m, full=True):
    ctx.lt("A11 > 0", 0, m.A11)
    ctx.lt("D11 > 0", 0, m.D11)
    ctx.lt("kA55 > 0", 0, m.kA55)
    ctx.lt("A11 D11 > B11^2", 0, m.A11 * m.D11 - m.B11 ** 2)
    ctx.eq("K0", m.K0, m.B11 ** 2 - m.A11 * m.D11, scale=lambda: [m.A11 * m.D11])


def integrals(ctx, n, lens=None):
    m, ls = model(ctx, n, nu=True, lens=lens)
    nu = ctx.real("nu", (0.1, 0.4), "nonneg")
    A, B, D, S, H = oracle(ctx, m, ls, nu)
    ctx.eq("A11", m.A11, A)
    ctx.eq("B11", m.B11, B, scale=lambda: [A * H])
    ctx.eq("D11", m.D11, D)
    ctx.eq("kA55", m.kA55, S)
    if n <= 4:          # beyond: implied by the integrals (positive moduli)
        admissible(ctx, m)
    else:
        ctx.eq("K0", m.K0, B ** 2 - A * D, scale=lambda: [A * D])


def homogeneous(ctx, n):
    rho = ctx.real("rho", (100, 400))
    ls = [[rho, ctx.real("h%d" % i, (30, 250))] for i in range(n)]
    m = ctx.weac.Layered("skier", layers=ls)
    H = sum(l[1] for l in ls)
    ctx.eq("B11 = 0", m.B11, 0, scale=lambda: [m.A11 * H])
    ctx.eq("D11 = A11 h^2/12", m.D11, m.A11 * H ** 2 / 12)
    admissible(ctx, m)


def database(ctx, profile):
    m = ctx.weac.Layered()
    nu = ctx.real("nu", (0.1, 0.4), "nonneg")
    ctx.assume(2 * nu < 1)
    m.set_beam_properties("profile " + profile, nu=nu, update=True)
    ls, _ = ctx.mod("weac.tools").load_dummy_profile(profile)
    A, B, D, S, H = oracle(ctx, m, [[r[0], r[1]] for r in ls], nu)
    ctx.eq("A11", m.A11, A)
    ctx.eq("B11", m.B11, B, scale=lambda: [A * H])
    ctx.eq("D11", m.D11, D)
    ctx.eq("kA55", m.kA55, S)
    admissible(ctx, m)


def instances(tier):
    ns = (1, 2, 3, 4, 5, 8) if tier == "quick" else (1, 2, 3, 4, 5, 8, 12)
    out = [I("integrals-%d" % n, "integrals", {"n": n}, weight=n) for n in ns]
    out += [I("integrals-many-%d" % n, "integrals", {"n": n, "lens": "many"}, weight=4) for n in ((25, 60) if tier == "quick" else (25, 60, 150))]
    out += [I("homogeneous-%d" % n, "homogeneous", {"n": n}) for n in ns]
    out += [I("database-" + p, "database", {"profile": p})
            for p in ("a", "b", "c", "d", "e", "f", "h", "soft", "medium", "hard", "comp")]
    return out
