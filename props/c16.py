"""Principal stresses."""
from .common import I, angle, model, state

BOUNDS = "slabs of 1-2 layers with one mesh interval per layer (thorough 2), of 1-4 layers of given thickness with up to 26 intervals, both components and units; layering, slope, spacing, state symbolic"
OUTSIDE = "finer meshes"
ASSUMES = ["slab stress components arbitrary fields on the mesh, unit factor 1000 (decided by C15)"]


def eigen(ctx, tag, p, val, sx, sz, t, sc):
    """p is the larger (smaller) root of the characteristic polynomial."""
    ctx.eq(tag + " is an eigenvalue", (2 * p - sx - sz) ** 2, (sx - sz) ** 2 + 4 * t ** 2, scale=lambda: [sc() ** 2], tol=1e-6)
    if val == "max":
        ctx.le(tag + " is the larger one", sx + sz, 2 * p, slack=sc() if ctx.mode == "conc" else 0)
    else:
        ctx.le(tag + " is the smaller one", 2 * p, sx + sz, slack=sc() if ctx.mode == "conc" else 0)


def stub_stresses(ctx, m):
    """Symbolic run: the three stress components are arbitrary fields on the
    model's mesh, one per state, slope and spacing, given in MPa or kPa.
    Concrete run: the model's own."""
    if ctx.mode == "conc":
        return
    memo = ctx.e.memo

    def make(f):
        def g(Z, phi, dz=2, unit="kPa"):
            from symx import sym as S
            k = ("stress", f, tuple(S.lift(v).r.key() for v in Z.ravel()), S.lift(phi).r.key(), S.lift(dz).r.key())
            if k not in memo:
                i = sum(1 for x in memo if isinstance(x, tuple) and x[0] == "stress")
                rows = len(m.get_zmesh(dz=dz))
                memo[k] = ctx.array([[ctx.e.fresh("st%d_%d_%d" % (i, a, b)) for b in range(Z.shape[1])] for a in range(rows)])
            return memo[k] * {"kPa": 1000, "MPa": 1}[unit]
        return g
    for f in ("Sxx", "Txz", "Szz"):
        setattr(m, f, make(f))


def slab(ctx, n, val, unit, parts=1, lens=None, dz=None):
    m, ls = model(ctx, n, param=False, lens=lens)
    phi = angle(ctx)
    if lens is None:
        dz = ctx.real("dz", (260, 400))
        for _, h in ls:
            ctx.assume(h <= parts * dz)
    Z = state(ctx)
    stub_stresses(ctx, m)
    P = m.principal_stress_slab(Z, phi, dz=dz, unit=unit, val=val)
    sx, tx, sz = [getattr(m, f)(Z, phi, dz=dz, unit=unit) for f in ("Sxx", "Txz", "Szz")]
    ctx.true("shape", P.shape == sx.shape == tx.shape == sz.shape)
    for i in range(P.shape[0]):
        eigen(ctx, "row %d" % i, P[i, 0], val, sx[i, 0], sz[i, 0], tx[i, 0],
              lambda: max(abs(sx[i, 0]), abs(sz[i, 0]), abs(tx[i, 0])))


def slab_normal(ctx, n, lens=None, dz=None):
    """Ratio to the layer's own tensile strength (Sigrist 2006, kPa)."""
    m, ls = model(ctx, n, param=False, lens=lens)
    phi = angle(ctx)
    if lens is None:
        dz = ctx.real("dz", (260, 400))
        for _, h in ls:
            ctx.assume(h <= dz)
        dens = [ls[j // 2][0] for j in range(2 * n)]
    else:       # C23 decides the mesh
        dens = list(m.get_zmesh(dz=dz)[:, 3])
    Z = state(ctx)
    stub_stresses(ctx, m)
    P = m.principal_stress_slab(Z, phi, dz=dz, unit="kPa", val="max")
    a = m.principal_stress_slab(Z, phi, dz=dz, unit="kPa", val="max", normalize=True)
    b = m.principal_stress_slab(Z, phi, dz=dz, unit="MPa", val="max", normalize=True)
    ctx.true("shape", a.shape == b.shape == P.shape and P.shape[0] == len(dens))
    for j, rho in enumerate(dens):
        ft = 240 * (rho / 917) ** ctx.num(2.44)
        ctx.eq("row %d is the ratio to the strength" % j, a[j, 0] * ft, P[j, 0], tol=1e-9, scale=lambda: [1e-9])
        ctx.eq("row %d unit independent" % j, b[j, 0], a[j, 0], tol=1e-9, scale=lambda: [1e-9])


def weak(ctx, val, unit):
    m, ls = model(ctx, 1)
    Z = state(ctx, 2)
    p = m.principal_stress_weaklayer(Z, unit=unit, val=val)
    sig, tau = m.sig(Z, unit=unit), m.tau(Z, unit=unit)
    ctx.shape("values", p, (2,))
    for j in range(2):
        eigen(ctx, "column %d" % j, p[j], val, 0, sig[j], tau[j], lambda: max(abs(sig[j]), abs(tau[j])))
    a = m.principal_stress_weaklayer(Z, unit="kPa", val=val)
    b = m.principal_stress_weaklayer(Z, unit="MPa", val=val)
    ctx.eq("units", a, 1000 * b, tol=1e-9)


def weak_normal(ctx):
    m, ls = model(ctx, 1)
    Z = state(ctx, 2)
    sc = ctx.real("sc", (0.5, 6))
    p = m.principal_stress_weaklayer(Z, unit="kPa", val="min")
    a = m.principal_stress_weaklayer(Z, sc=sc, unit="kPa", val="min", normalize=True)
    b = m.principal_stress_weaklayer(Z, sc=sc, unit="MPa", val="min", normalize=True)
    d = m.principal_stress_weaklayer(Z, unit="kPa", val="min", normalize=True)
    ctx.eq("ratio to the compressive strength", a * sc, p, tol=1e-9)
    ctx.eq("unit independent", b, a, tol=1e-9)
    ctx.eq("default strength", d * ctx.num(2.6), p, tol=1e-9)


def rejected(ctx):
    m, ls = model(ctx, 1)
    phi = angle(ctx)
    Z = state(ctx)
    dz = ls[0][1]
    for val in ("mid", "MAX", ""):
        ctx.raises("slab component " + val, ValueError, lambda: m.principal_stress_slab(Z, phi, val=val, dz=dz))
        ctx.raises("weak layer component " + val, ValueError, lambda: m.principal_stress_weaklayer(Z, val=val))
    for unit in ("kPa", "MPa"):
        ctx.raises("normalised slab minimum", ValueError,
                   lambda: m.principal_stress_slab(Z, phi, dz=dz, unit=unit, val="min", normalize=True))
        ctx.raises("normalised weak layer maximum", ValueError,
                   lambda: m.principal_stress_weaklayer(Z, unit=unit, val="max", normalize=True))


def defaults(ctx):
    m, ls = model(ctx, 1)
    phi = angle(ctx)
    Z = state(ctx)
    stub_stresses(ctx, m)
    dz = ls[0][1]
    ctx.eq("slab default", m.principal_stress_slab(Z, phi, dz=dz), m.principal_stress_slab(Z, phi, dz=dz, unit="kPa", val="max", normalize=False))
    ctx.eq("weak layer default", m.principal_stress_weaklayer(Z), m.principal_stress_weaklayer(Z, unit="kPa", val="min", normalize=False))


def instances(tier):
    out = [I("rejected", "rejected"), I("defaults", "defaults"), I("weak-normal", "weak_normal")]
    for v in ("max", "min"):
        for u in ("kPa", "MPa"):
            out.append(I("weak-%s-%s" % (v, u), "weak", {"val": v, "unit": u}))
            out.append(I("slab-%s-%s-1" % (v, u), "slab", {"n": 1, "val": v, "unit": u}))
    out.append(I("slab-max-kPa-2", "slab", {"n": 2, "val": "max", "unit": "kPa"}, weight=3))
    out += [I("slab-normal-%d" % n, "slab_normal", {"n": n}, weight=2) for n in (1, 2)]
    out += [I("slab-max-fine", "slab", {"n": 2, "val": "max", "unit": "kPa", "lens": [30, 22], "dz": 2}, weight=2),
            I("slab-min-fine", "slab", {"n": 4, "val": "min", "unit": "MPa", "lens": [40, 22, 60, 80], "dz": 15}, weight=2),
            I("slab-normal-fine", "slab_normal", {"n": 4, "lens": [40, 20, 60, 80], "dz": 10}, weight=2)]
    if tier != "quick":
        out.append(I("slab-max-kPa-1-2", "slab", {"n": 1, "val": "max", "unit": "kPa", "parts": 2}, weight=3))
        out.append(I("slab-min-MPa-2", "slab", {"n": 2, "val": "min", "unit": "MPa"}, weight=3))
    return out
