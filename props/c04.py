"""Elastic properties from density, database and weak-layer input."""
from .common import I, foundation, layers

BOUNDS = "slabs of 1-4, 6 and 9 layers (thorough 14); densities, parameters, Poisson ratios, weak-layer input symbolic; every database profile"
OUTSIDE = "more layers"
SOFT, MED, HARD = (180, 120, 5), (270, 120, 30), (350, 120, 93.8)
DB = {"a": (HARD, MED, SOFT), "b": (SOFT, MED, HARD), "c": (HARD, SOFT, HARD), "d": (SOFT, HARD, SOFT),
      "e": (HARD, SOFT, SOFT), "f": (SOFT, SOFT, HARD), "h": (MED, MED, MED), "soft": (SOFT,) * 3,
      "medium": (MED,) * 3, "hard": (HARD,) * 3, "comp": ((240, 200, 5.23),)}


def slab(ctx, n):
    ls = layers(ctx, n)
    m = ctx.weac.Layered("skier", layers=ls)
    check_slab(ctx, m, ls, ctx.num(6.5), ctx.num(4.4), ctx.num(0.25))
    C0, C1 = ctx.real("C0", (3, 10)), ctx.real("C1", (3.5, 5))
    nu = ctx.real("nu", (0.1, 0.4), "nonneg")
    ctx.assume(2 * nu < 1)
    m.set_beam_properties(ls, C0=C0, C1=C1, nu=nu, update=True)
    check_slab(ctx, m, ls, C0, C1, nu)


def check_slab(ctx, m, ls, C0, C1, nu):
    ctx.true("one row per layer", m.slab.shape[0] == len(ls))
    for i, (rho, h) in enumerate(ls):
        E = C0 * 1000 * (rho / 917) ** C1
        ctx.eq("density of layer %d" % i, m.slab[i, 0], rho)
        ctx.eq("thickness of layer %d" % i, m.slab[i, 1], h)
        ctx.eq("Young's modulus of layer %d" % i, m.slab[i, 2], E)
        ctx.eq("shear modulus of layer %d" % i, m.slab[i, 3], E / (2 * (1 + nu)))
        ctx.eq("Poisson ratio of layer %d" % i, m.slab[i, 4], nu)
        ctx.lt("modulus positive", 0, m.slab[i, 2])


def monotone(ctx):
    a, b = ctx.real("rhoa", (100, 250)), ctx.real("rhob", (251, 400))
    ctx.assume(a < b)
    C0, C1 = ctx.real("C0", (3, 10)), ctx.real("C1", (3.5, 5))
    t = ctx.mod("weac.tools")
    ctx.lt("Bergfeld increasing", t.bergfeld(a, C0=C0, C1=C1), t.bergfeld(b, C0=C0, C1=C1))
    ctx.lt("Gerling increasing", t.gerling(a, C0=C0, C1=C1), t.gerling(b, C0=C0, C1=C1))
    m = ctx.weac.Layered("skier", layers=[[a, 100], [b, 100]])
    ctx.lt("modulus increases with density", m.slab[0, 2], m.slab[1, 2])
    ctx.lt("strength increases with density", t.tensile_strength_slab(a), t.tensile_strength_slab(b))


def helpers(ctx):
    t = ctx.mod("weac.tools")
    rho = ctx.real("rho", (100, 400))
    C0, C1 = ctx.real("C0", (3, 10)), ctx.real("C1", (3.5, 5))
    rho0 = ctx.real("rho0", (900, 920))
    for r in (rho, ctx.array([rho, rho * 2])):
        ctx.eq("Bergfeld", t.bergfeld(r), 6500 * (r / 917) ** ctx.num(4.4))
        ctx.eq("Bergfeld, parameters", t.bergfeld(r, rho0=rho0, C0=C0, C1=C1), C0 * 1000 * (r / rho0) ** C1)
        ctx.eq("Gerling", t.gerling(r), 6 * ctx.num(1e-10) * r ** ctx.num(4.6))
        ctx.eq("Gerling, parameters", t.gerling(r, C0=C0, C1=C1), C0 * ctx.num(1e-10) * r ** C1)
        ctx.eq("Scapozza", t.scapozza(r), 5070 * (r / 917) ** ctx.num(5.13))
        s = 240 * (r / 917) ** ctx.num(2.44)
        ctx.eq("tensile strength, default kPa", t.tensile_strength_slab(r), s)
        ctx.eq("tensile strength, kPa", t.tensile_strength_slab(r, unit="kPa"), s)
        ctx.eq("tensile strength, MPa", t.tensile_strength_slab(r, unit="MPa"), s / 1000)


def weak_layer(ctx):
    t, E, nu = foundation(ctx)
    m = ctx.weac.Layered("skier", layers=[[240, 200]])
    m.set_foundation_properties(t=t, E=E, nu=nu, update=True)
    ctx.eq("kn", m.kn, E / ((1 - nu ** 2) * t))
    ctx.eq("kt", m.kt, E / (2 * (1 + nu) * t))
    ctx.lt("kn positive", 0, m.kn)
    ctx.lt("kt positive", 0, m.kt)
    m.set_foundation_properties(update=True)
    ctx.eq("default kn", m.kn, ctx.num(0.25) / (1 - ctx.num(0.0625)) / 30)
    ctx.eq("default kt", m.kt, ctx.num(0.25) / (2 * ctx.num(1.25)) / 30)
    m2 = ctx.weac.Layered("skier", layers=[[240, 200]])
    m2.set_foundation_properties(t=t, E=E, update=True)
    ctx.eq("kn with default Poisson ratio", m2.kn, E / ((1 - ctx.num(0.0625)) * t))


def database(ctx, profile):
    nu = ctx.real("nu", (0.1, 0.4), "nonneg")
    ctx.assume(2 * nu < 1)
    m = ctx.weac.Layered("skier")
    for name in (profile, "profile " + profile, profile.upper()):
        m.set_beam_properties(name, nu=nu, update=True)
        ctx.true("rows", m.slab.shape[0] == len(DB[profile]))
        for i, (rho, h, E) in enumerate(DB[profile]):
            ctx.eq("density", m.slab[i, 0], ctx.num(rho))
            ctx.eq("thickness", m.slab[i, 1], ctx.num(h))
            ctx.eq("modulus", m.slab[i, 2], ctx.num(E))
            ctx.eq("shear modulus", m.slab[i, 3], ctx.num(E) / (2 * (1 + nu)))
    ctx.raises("unknown profile", ValueError, lambda: m.set_beam_properties("no such profile x"))


def instances(tier):
    ns = (1, 2, 3, 4, 6, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 9, 14)
    out = [I("slab-%d" % n, "slab", {"n": n}) for n in ns]
    out += [I("monotone", "monotone"), I("helpers", "helpers"), I("weak-layer", "weak_layer")]
    out += [I("database-" + p, "database", {"profile": p}) for p in DB]
    return out
