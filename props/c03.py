"""Slab geometry and loads."""
from .common import I, angle, model

BOUNDS = "slabs of 1-4, 6 and 9 layers (thorough 14), 25 and 60 layers (thorough 150) of given thicknesses and three densities, all densities, thicknesses, loads, slopes symbolic"
OUTSIDE = "more layers"
G = 9810


def geometry(ctx, n, lens=None):
    m, ls = model(ctx, n, wl=False, param=False, lens=lens)
    phi = angle(ctx)
    H = sum(l[1] for l in ls)
    mass = sum(l[0] * l[1] for l in ls)
    mom = 0
    top = -H / 2
    for r, h in ls:
        mom = mom + r * h * (top + h / 2)
        top = top + h
    ctx.eq("thickness", m.h, H)
    ctx.eq("center of gravity", m.zs, mom / mass, scale=lambda: [H])
    ctx.lt("center of gravity above the bottom", m.zs, H / 2)
    ctx.lt("center of gravity below the top", -H / 2, m.zs)
    hh, zz = ctx.mod("weac.tools").calc_center_of_gravity(ctx.array(ls))
    ctx.eq("helper thickness", hh, H)
    ctx.eq("helper center of gravity", zz, mom / mass, scale=lambda: [H])
    q = mass * G / 10 ** 12
    qn, qt = m.get_weight_load(phi)
    ctx.eq("weight load, normal", qn, q * ctx.cos(phi))
    ctx.eq("weight load, tangential", qt, -q * ctx.sin(phi))
    p = ctx.real("p", (0, 2e-3), "nonneg")
    pn, pt = m.get_surface_load(phi)
    ctx.eq("surface load, normal", pn, p * ctx.cos(phi))
    ctx.eq("surface load, tangential", pt, -p * ctx.sin(phi))
    ctx.eq("magnitude", qn ** 2 + qt ** 2, q ** 2)


def skier(ctx, n):
    m, ls = model(ctx, 1, system="skiers", wl=False, param=False)
    phi = angle(ctx)
    ms = [ctx.real("m%d" % i, (0, 200), "nonneg") for i in range(n)]
    for mi in ms:
        Fn, Ft = m.get_skier_load(mi, phi)
        F = mi * G / 1000 / 1000
        ctx.eq("skier load, normal", Fn, F * ctx.cos(phi))
        ctx.eq("skier load, tangential", Ft, -F * ctx.sin(phi))
    Fn, Ft = m.get_skier_load(ctx.array(ms), phi)
    for i, mi in enumerate(ms):
        ctx.eq("skier load of a list, normal", Fn[i], mi * G / 1000000 * ctx.cos(phi))
        ctx.eq("skier load of a list, tangential", Ft[i], -mi * G / 1000000 * ctx.sin(phi))
    lski = ctx.real("lski", (500, 2000))
    m.lski = lski
    Fn, Ft = m.get_skier_load(ms[0], phi)
    ctx.eq("ski length, normal", Fn, ms[0] * G / 1000 / lski * ctx.cos(phi))
    ctx.eq("ski length, tangential", Ft, -ms[0] * G / 1000 / lski * ctx.sin(phi))


def touchdown_loads(ctx, system):
    """Line loads used for contact belong to the slope of the segment call."""
    m, ls = model(ctx, 2, system=system, param=False)
    q = sum(l[0] * l[1] for l in ls) * G / 10 ** 12
    p = ctx.real("p", (0, 2e-3), "nonneg")
    L = ctx.real("L", (1000, 5000))
    a = ctx.real("a", (0, 900), "nonneg")
    ctx.assume(a < L)
    for name in ("phi", "phi2"):
        phi = angle(ctx, name)
        cf = ctx.real("cf", (0.1, 0.9))
        m.calc_segments(L=L, a=a, phi=phi, cf=cf)
        ctx.eq("normal line load", m.calc_qn(), (q + p) * ctx.cos(phi))
        ctx.eq("tangential line load", m.calc_qt(), -(q + p) * ctx.sin(phi))
        t = ctx.real("t", (5, 60))
        ctx.eq("collapse height", m.tc, cf * t - (q + p) * ctx.cos(phi) / m.kn,
               scale=lambda: [cf * t, (q + p) / m.kn])


def instances(tier):
    ns = (1, 2, 3, 4, 6, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 9, 14)
    out = [I("geometry-%d" % n, "geometry", {"n": n}, weight=n) for n in ns]
    out += [I("geometry-many-%d" % n, "geometry", {"n": n, "lens": "many"}, weight=4) for n in ((25, 60) if tier == "quick" else (25, 60, 150))]
    out += [I("skier", "skier", {"n": 2})]
    out += [I("touchdown-loads-" + s, "touchdown_loads", {"system": s}) for s in ("pst-", "-pst", "vpst-", "skier")]
    return out
