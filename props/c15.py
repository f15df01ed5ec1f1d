"""Slab stresses carry the section forces and meet the weak layer."""
from .common import I, angle, model, state

BOUNDS = ("slabs of 1-2 layers (thorough 3) with 1-3 mesh intervals per layer (1 layer: 6), every spacing dz in that range, 1-5 layers of given thickness with up to 101 intervals (default spacing), layering, weak layer, "
          "slope and state symbolic; no surface load for the transverse stresses")
OUTSIDE = "finer meshes of layers of unspecified thickness, unsupported positions"
ASSUMES = ["the second derivative of the field is the one the model reports (C05)"]


def setup(ctx, n, parts, load=False, cols=1, lens=None, dz=None):
    """lens, dz: given layer thicknesses and spacing (fine meshes)."""
    m, ls = model(ctx, n, param=False, load=load, lens=lens)
    phi = angle(ctx)
    if lens is not None:
        return m, ls, phi, ctx.num(dz), state(ctx, cols)
    dz = ctx.real("dz", (60, 260))
    for _, h in ls:
        ctx.assume(h <= parts * dz)
    return m, ls, phi, dz, state(ctx, cols)


def transverse(ctx, n, parts=1, **kw):
    m, ls, phi, dz, Z = setup(ctx, n, parts, **kw)
    m.set_surface_load(0)
    T = m.Txz(Z, phi, dz=dz, unit="MPa")
    S = m.Szz(Z, phi, dz=dz, unit="MPa")
    k = T.shape[0]
    ctx.true("rows", S.shape == T.shape and T.shape[1] == 1)
    ctx.eq("shear stress vanishes at the surface", T[0, 0], 0)
    ctx.eq("normal stress vanishes at the surface", S[0, 0], 0)
    ctx.eq("shear stress meets the weak layer", T[k - 1, 0], m.tau(Z)[0], tol=1e-6,
           scale=lambda: [1e-3 * abs(v) for v in T[:, 0]] + [1e-6 * m.kt * abs(Z[0, 0])])
    psi3 = m.dz_dxdx(Z, phi)[5, 0]
    E = sum(m.slab[i, 2] / (1 - m.slab[i, 4] ** 2) * m.slab[i, 1] for i in range(n))
    # equilibrium of the upper half of the weak layer
    sb = m.sig(Z)[0] - m.t / 2 * m.tau(m.dz_dx(Z, phi))[0]
    q = (S[k - 1, 0] - sb) / psi3
    B = dz ** 2 / 12 * E
    ctx.le("normal stress meets the weak layer (above)", q, B, slack=1e3 * abs(sb / psi3) if ctx.mode == "conc" else 0)
    ctx.le("normal stress meets the weak layer (below)", -B, q, slack=1e3 * abs(sb / psi3) if ctx.mode == "conc" else 0)


def axial(ctx, n, parts=1, **kw):
    m, ls, phi, dz, Z = setup(ctx, n, parts, load=True, **kw)
    S = m.Sxx(Z, phi, dz=dz, unit="MPa")
    zi = m.get_zmesh(dz=dz)[:, 0]
    k = S.shape[0]
    N = M = ctx.num(0)
    for i in range(k - 1):
        a, b, d = S[i, 0], S[i + 1, 0], zi[i + 1] - zi[i]
        N = N + (a + b) / 2 * d
        # integral of z times the linear interpolant
        M = M + d * (zi[i] * (2 * a + b) + zi[i + 1] * (a + 2 * b)) / 6
    eN, eM = N - m.N(Z)[0], M - m.M(Z)[0]
    s = ctx.sin(phi)
    w = sum(ctx.num(1e-12) * r * h for r, h in ls) * m.g
    sc = 1e3 * float(abs(m.A11 * Z[1, 0]) + abs(m.A11 * m.h * Z[5, 0])) if ctx.mode == "conc" else 0
    if not ctx.pick(s.__eq__(0)):
        for tag, e, B in (("force", eN, w * dz), ("moment", eM, w * dz * m.h / 2)):
            f = 1 if tag == "force" else (float(m.h) if ctx.mode == "conc" else 1)
            q = e / s
            sl = sc * f / abs(s) if ctx.mode == "conc" else 0
            ctx.le("normal %s of the axial stress (above)" % tag, q, B, slack=sl)
            ctx.le("normal %s of the axial stress (below)" % tag, -B, q, slack=sl)
    else:
        ctx.eq("normal force of the axial stress", eN, 0, scale=lambda: [sc])
        ctx.eq("moment of the axial stress", eM, 0, scale=lambda: [sc * m.h])


def units(ctx, n):
    """kPa is 1000 times MPa, columns are independent, defaults are kPa."""
    m, ls, phi, dz, Z = setup(ctx, n, 1, load=True, cols=2)
    for f in ("Sxx", "Txz", "Szz"):
        g = getattr(m, f)
        a = g(Z, phi, dz=dz, unit="MPa")
        b = g(Z, phi, dz=dz, unit="kPa")
        ctx.true(f + " shape", a.shape == b.shape and a.shape[1] == 2)
        ctx.eq(f + " in kPa", b, 1000 * a, tol=1e-9)
        ctx.eq(f + " default unit", g(Z, phi, dz=dz), b, tol=1e-12)
        for j in range(2):
            ctx.eq(f + " column %d" % j, g(Z[:, [j]], phi, dz=dz, unit="MPa")[:, 0], a[:, j], tol=1e-9,
                   scale=lambda: [abs(v) for v in a[:, j]])


def instances(tier):
    out = [I("units-2", "units", {"n": 2})]
    for n, parts in ((1, 1), (1, 2), (2, 1)) if tier == "quick" else ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1)):
        out.append(I("transverse-%d-%d" % (n, parts), "transverse", {"n": n, "parts": parts}, weight=n))
        out.append(I("axial-%d-%d" % (n, parts), "axial", {"n": n, "parts": parts}, weight=n))
    out += [I("axial-2-2", "axial", {"n": 2, "parts": 2}, weight=2)] if tier == "quick" else []
    out += [I("axial-1-6", "axial", {"n": 1, "parts": 6}, weight=2), I("transverse-1-6", "transverse", {"n": 1, "parts": 6}, weight=2)]
    for t, lens, dz in (("single", [202], 2), ("thin", [40, 22], 2), ("five", [40, 20, 70, 100, 55], 20)):
        for f in ("axial", "transverse"):
            out.append(I("%s-%s" % (f, t), f, {"n": len(lens), "lens": lens, "dz": dz}))
    return out
