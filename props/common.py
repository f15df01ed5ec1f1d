"""Shared harness building blocks (no solver, no package import here)."""


def I(name, fn, params=None, **kw):
    d = {"name": name, "fn": fn, "params": params or {}}
    d.update(kw)
    return d


def layers(ctx, n, tag="", lens=None):
    """Symbolic layering, top to bottom: [[rho, h], ...].  lens "many": given
    thicknesses, three densities in turn (long profiles)."""
    if lens == "many":
        rho = [ctx.real("rho%s%d" % (tag, i), (100, 400)) for i in range(3)]
        return [[rho[i * i % 7 % 3], ctx.num(3 + 7 * i % 11)] for i in range(n)]
    return [[ctx.real("rho%s%d" % (tag, i), (100, 400)), ctx.real("h%s%d" % (tag, i), (30, 250)) if lens is None else ctx.num(lens[i])]
            for i in range(n)]


def angle(ctx, name="phi", wide=False):
    """Slope in degrees, |phi| < 90."""
    phi = ctx.real(name, (-40, 40), "any")
    ctx.assume(phi > -90)
    ctx.assume(phi < 90)
    return phi


def foundation(ctx):
    """Weak-layer input: thickness, modulus, Poisson ratio."""
    t = ctx.real("t", (5, 60))
    E = ctx.real("Ew", (0.05, 2))
    nu = ctx.real("nuw", (0.05, 0.4), "nonneg")
    ctx.assume(2 * nu < 1)
    return t, E, nu


def model(ctx, n=2, system="pst-", touchdown=False, wl=True, param=True, nu=False, load=True, cls="Layered", lens=None):
    """A model built through the public interface from symbolic input."""
    w = ctx.weac
    ls = layers(ctx, n, lens=lens)
    m = getattr(w, cls)(system, layers=ls, touchdown=touchdown)
    if param or nu:
        kw = {}
        if param:
            kw["C0"] = ctx.real("C0", (3, 10))
            kw["C1"] = ctx.real("C1", (3.5, 5))
        if nu:
            kw["nu"] = ctx.real("nu", (0.1, 0.4), "nonneg")
            ctx.assume(2 * kw["nu"] < 1)
        m.set_beam_properties(ls, **kw)
    if wl:
        t, E, nuw = foundation(ctx)
        m.set_foundation_properties(t=t, E=E, nu=nuw)
    if load:
        m.set_surface_load(ctx.real("p", (0, 2e-3), "nonneg"))
    if hasattr(m, "calc_fundamental_system"):
        m.calc_fundamental_system()
    return m, ls


def state(ctx, cols=1, tag="z"):
    """An arbitrary solution vector (6 x cols)."""
    typ = [(-5, 5), (-1e-2, 1e-2), (-5, 5), (-5e-2, 5e-2), (-5e-2, 5e-2), (-1e-4, 1e-4)]
    return ctx.array([[ctx.real("%s%d_%d" % (tag, i, j), typ[i], "any") for j in range(cols)]
                      for i in range(6)])
