"""Triangular wedge between a slope-normal and a vertical face."""
from .common import I, angle, model

BOUNDS = "slabs of 1-6 and 9 layers (thorough 12), 25 and 60 layers (thorough 150) of given thicknesses and three densities, every thickness, density and slope -90 < phi < 90 symbolic"
OUTSIDE = "more layers"


def centroid(ctx, ls, phi):
    """Mass (t/mm) and mass centroid of the layered triangle with width
    (H/2 - z) tan(phi), by layer integrals in s = H/2 - z (bottom up)."""
    tan = ctx.tan(phi)
    mass = mx = mz = 0
    H = sum(h for _, h in ls)
    s = 0
    for rho, h in reversed(ls):
        r = rho * ctx.num(1e-12)
        i1 = ((s + h) ** 2 - s ** 2) / 2
        i2 = ((s + h) ** 3 - s ** 3) / 3
        mass = mass + r * tan * i1
        mx = mx + r * tan ** 2 * i2 / 2
        mz = mz + r * tan * (H / 2 * i1 - i2)
        s = s + h
    return mass, mx, mz


def wedge(ctx, n, lens=None):
    m, ls = model(ctx, n, load=False, lens=lens)
    phi = angle(ctx)
    f = ctx.mod("weac.tools").calc_vertical_bc_center_of_gravity
    slab0 = m.slab.copy()
    xs, zs, w = f(m.slab, phi)
    mass, mx, mz = centroid(ctx, ls, phi)
    ctx.eq("weight", w, mass, tol=1e-9)
    ctx.eq("first moment along the slab", w * xs, mx, tol=1e-9)
    ctx.eq("first moment across the slab", w * zs, mz, scale=lambda: [abs(w) * m.h], tol=1e-9)
    if ctx.pick(phi > 0):
        ctx.lt("added wedge: positive weight", 0, w)
        ctx.lt("offset towards the wedge", 0, xs)
    elif ctx.pick(phi < 0):
        ctx.lt("cut-off wedge: negative weight", w, 0)
        ctx.lt("offset towards the slab", xs, 0)
    else:
        ctx.eq("flat: weight", w, 0)
        ctx.eq("flat: offset", xs, 0)
    if not ctx.pick(phi.__eq__(0)):
        x2, z2, w2 = f(m.slab, -phi)
        ctx.eq("odd weight", w2, -w)
        ctx.eq("odd offset", x2, -xs)
        ctx.eq("even depth", z2, zs, scale=lambda: [m.h], tol=1e-9)
    ctx.same("slab kept", m.slab, slab0)


def instances(tier):
    return [I("wedge-%d" % n, "wedge", {"n": n}, weight=n) for n in ((1, 2, 3, 4, 5, 6, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12))] + [
        I("wedge-many-%d" % n, "wedge", {"n": n, "lens": "many"}, weight=4) for n in ((25, 60) if tier == "quick" else (25, 60, 150))]
