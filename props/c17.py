"""Output quantities: linear functions, units, coordinates, NaN handling."""
from .common import I, model, state

BOUNDS = "arbitrary states (2-4 columns), one-layer slabs with symbolic layering and weak layer; every unit and location; every NaN pattern of 3 coordinates (thorough 4), given ones of 8-12"
OUTSIDE = ""

LEN = {"m": 1e-3, "cm": 0.1, "mm": 1, "um": 1000}
STRESS = {"kPa": 1000, "MPa": 1}
RAD = ("rad", "radian", "radians")
DEG = ("deg", "degree", "degrees")


def linear(ctx):
    m, _ = model(ctx, 1)
    Z = state(ctx, 2)
    z0 = ctx.real("z0", (-100, 100), "any")
    n = ctx.num
    for u, f in LEN.items():
        ctx.eq("w in " + u, m.w(Z, unit=u), n(f) * Z[2, :], tol=1e-9)
        ctx.eq("u in " + u, m.u(Z, z0=z0, unit=u), n(f) * (Z[0, :] + z0 * Z[4, :]), tol=1e-9,
               scale=lambda: [n(f) * abs(Z[0, 0]), n(f) * abs(Z[0, 1])])
    for u in RAD:
        ctx.eq("psi in " + u, m.psi(Z, unit=u), Z[4, :])
    for u in DEG:
        ctx.eq("psi in " + u, m.psi(Z, unit=u), Z[4, :] * 180 / ctx.pi, tol=1e-9)
    ctx.eq("default units w", m.w(Z), Z[2, :])
    ctx.eq("default units u", m.u(Z, z0=0), Z[0, :])
    ctx.eq("default units psi", m.psi(Z), Z[4, :])
    ctx.eq("w'", m.dw_dx(Z), Z[3, :])
    ctx.eq("psi'", m.dpsi_dx(Z), Z[5, :])
    ctx.eq("u'", m.du_dx(Z, z0=z0), Z[1, :] + z0 * Z[5, :], tol=1e-9, scale=lambda: [abs(Z[1, 0]), abs(Z[1, 1])])
    top = Z[0, :] + m.h / 2 * Z[4, :] - m.t / 2 * Z[3, :]
    s = lambda: [m.kt * abs(Z[0, 0]), m.kt * abs(Z[0, 1]), m.kt * m.t * abs(Z[3, 0])]
    for u, f in STRESS.items():
        ctx.eq("sigma in " + u, m.sig(Z, unit=u), -f * m.kn * Z[2, :], tol=1e-9)
        ctx.eq("tau in " + u, m.tau(Z, unit=u), f * m.kt * top, tol=1e-9, scale=lambda: [f * v for v in s()])
    ctx.eq("default unit sigma", m.sig(Z), m.sig(Z, unit="MPa"))
    ctx.eq("default unit tau", m.tau(Z), m.tau(Z, unit="MPa"))
    ctx.eq("sigma = kn t eps", m.sig(Z), m.kn * m.t * m.eps(Z), tol=1e-9)
    ctx.eq("tau = kt t gamma in magnitude", m.tau(Z) ** 2, (m.kt * m.t * m.gamma(Z)) ** 2, tol=1e-7,
           scale=lambda: [v ** 2 for v in s()])
    ctx.eq("N", m.N(Z), m.A11 * Z[1, :] + m.B11 * Z[5, :], tol=1e-9, scale=lambda: [m.A11 * abs(Z[1, 0]), m.A11 * abs(Z[1, 1])])
    ctx.eq("M", m.M(Z), m.B11 * Z[1, :] + m.D11 * Z[5, :], tol=1e-9, scale=lambda: [m.D11 * abs(Z[5, 0]), m.D11 * abs(Z[5, 1])])
    ctx.eq("V", m.V(Z), m.kA55 * (Z[3, :] + Z[4, :]), tol=1e-9, scale=lambda: [m.kA55 * abs(Z[3, 0]), m.kA55 * abs(Z[3, 1])])


def slab_outputs(ctx):
    m, _ = model(ctx, 1)
    Z = state(ctx, 3)
    x = ctx.array([ctx.real("x%d" % i, (-1000, 3000), "any") for i in range(3)])
    x0, Z0 = x.copy(), Z.copy()
    n = ctx.num
    for loc, z0 in (("top", -m.h / 2), ("mid", 0), ("bot", m.h / 2)):
        for u, f in LEN.items():
            c, v = m.get_slab_displacement(x, Z, loc=loc, unit=u)
            ctx.eq("displacement coordinate", c, x / 10, tol=1e-9)
            ctx.eq("displacement %s in %s" % (loc, u), v, n(f) * (Z[0, :] + z0 * Z[4, :]), tol=1e-9,
                   scale=lambda: [n(f) * abs(a) for a in Z[0, :]])
    for u, f in LEN.items():
        c, v = m.get_slab_deflection(x, Z, unit=u)
        ctx.eq("deflection coordinate", c, x / 10, tol=1e-9)
        ctx.eq("deflection in " + u, v, n(f) * Z[2, :], tol=1e-9)
    for u in DEG:
        c, v = m.get_slab_rotation(x, Z, unit=u)
        ctx.eq("rotation coordinate", c, x / 10, tol=1e-9)
        ctx.eq("rotation in " + u, v, Z[4, :] * 180 / ctx.pi, tol=1e-9)
    for u in RAD:
        ctx.eq("rotation in " + u, m.get_slab_rotation(x, Z, unit=u)[1], Z[4, :])
    ctx.eq("default displacement", m.get_slab_displacement(x, Z)[1], Z[0, :])
    ctx.eq("default deflection", m.get_slab_deflection(x, Z)[1], Z[2, :])
    ctx.eq("default rotation", m.get_slab_rotation(x, Z)[1], Z[4, :] * 180 / ctx.pi, tol=1e-9)
    ctx.same("inputs kept", {"x": x, "Z": Z}, {"x": x0, "Z": Z0})


def weak_layer(ctx, pattern):
    """Coordinates with NaN where unsupported (True)."""
    m, _ = model(ctx, 1)
    k = len(pattern)
    Z = state(ctx, k)
    nan = float("nan")
    xs = [ctx.real("x%d" % i, (-1000, 3000), "any") for i in range(k)]
    full = [nan if p else v for p, v in zip(pattern, xs)]
    keep = [i for i in range(k) if not pattern[i]]
    for name, q in (("shear", m.tau), ("normal", m.sig)):
        g = getattr(m, "get_weaklayer_%sstress" % name)
        for u, f in STRESS.items():
            x = ctx.array(full)
            x0, Z0 = x.copy(), Z.copy()
            ref = f * q(Z, unit="MPa")
            c, v = g(x, Z, unit=u, removeNaNs=False)
            ctx.shape("%s coordinates" % name, c, (k,))
            ctx.shape("%s stress" % name, v, (k,))
            for i in range(k):
                ctx.true("%s %d masked exactly if unsupported" % (name, i), bool(ctx.isnan(v[i])) == pattern[i])
                ctx.true("%s %d coordinate" % (name, i), bool(ctx.isnan(c[i])) == pattern[i])
                if not pattern[i]:
                    ctx.eq("%s %d" % (name, i), v[i], ref[i], tol=1e-9)
                    ctx.eq("%s %d coordinate" % (name, i), c[i], xs[i] / 10, tol=1e-9)
            c, v = g(x, Z, unit=u, removeNaNs=True)
            ctx.shape("%s coordinates without NaN" % name, c, (len(keep),))
            ctx.shape("%s stress without NaN" % name, v, (len(keep),))
            for j, i in enumerate(keep):
                ctx.eq("%s kept %d" % (name, i), v[j], ref[i], tol=1e-9)
                ctx.eq("%s kept %d coordinate" % (name, i), c[j], xs[i] / 10, tol=1e-9)
            c, v = g(x, Z)
            for i in keep:
                ctx.eq("%s default %d" % (name, i), v[i], q(Z, unit="MPa")[i], tol=1e-9)
            ctx.shape("%s default" % name, v, (k,))
            ctx.same("inputs kept", {"x": x, "Z": Z}, {"x": x0, "Z": Z0})


def instances(tier):
    import itertools
    out = [I("linear", "linear"), I("slab", "slab_outputs")]
    for k in (3,) if tier == "quick" else (3, 4):
        for p in itertools.product((False, True), repeat=k):
            out.append(I("weak-" + "".join("sn"[b] for b in p), "weak_layer", {"pattern": list(p)}))
    for b in ("snsnnsss", "nnnnssssnnnn"):
        out.append(I("weak-" + b, "weak_layer", {"pattern": [c == "n" for c in b]}))
    return out
