"""Governing ODE = static equilibrium of slab and weak layer."""
from .common import I, angle, model, state

BOUNDS = "slabs of 1-4 layers (thorough 6), every parameter, state and slope symbolic"
OUTSIDE = "more layers"


def equilibrium(ctx, n, cls="Layered"):
    m, _ = model(ctx, n, nu=True)
    phi = angle(ctx)
    Z = state(ctx)
    d = m.dz_dx(Z, phi)
    qn, qt = m.get_weight_load(phi)
    pn, pt = m.get_surface_load(phi)
    h, t, zs = m.h, m.t, m.zs
    sig, tau = m.sig(Z), m.tau(Z)
    V = m.V(Z)
    dN = m.N(d)
    dM = m.M(d)
    dV = m.V(d)
    sl = lambda: abs(qn) + abs(pn) + abs(qt) + abs(pt)
    ctx.shape("z'", d, (6, 1))
    ctx.eq("N' = tau - (qt+pt)", dN, tau - (qt + pt), scale=lambda: [sl(), abs(tau[0]), 1e-3 * m.A11 * abs(d[1, 0]), 1e-3 * m.B11 * abs(d[5, 0])])
    ctx.eq("V' = -sigma - (qn+pn)", dV, -sig - (qn + pn), scale=lambda: [sl(), abs(sig[0])])
    ctx.eq("M' = V + tau(h+t)/2 - qt zs + pt h/2", dM, V + tau * (h + t) / 2 - qt * zs + pt * h / 2,
           scale=lambda: [abs(V[0]), abs(tau[0]) * (h + t), sl() * h])
    for i in (0, 2, 4):
        ctx.eq("entry %d of z' is the vector's own derivative entry" % i, d[i], Z[i + 1])


def second(ctx, n):
    """z'' is the derivative of z' along the field: K z' with constant load."""
    m, _ = model(ctx, n)
    phi = angle(ctx)
    Z = state(ctx)
    d = m.dz_dx(Z, phi)
    dd = m.dz_dxdx(Z, phi)
    K = m.calc_system_matrix()
    ctx.eq("z'' = K z'", dd, ctx.np.dot(K, d), scale=lambda: [1e-12])
    ctx.eq("u0''", m.du0_dxdx(Z, phi), d[1])
    ctx.eq("psi''", m.dpsi_dxdx(Z, phi), d[5])
    ctx.eq("u0'''", m.du0_dxdxdx(Z, phi), dd[1])
    ctx.eq("psi'''", m.dpsi_dxdxdx(Z, phi), dd[5])


def instances(tier):
    ns = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6)
    out = [I("equilibrium-%d" % n, "equilibrium", {"n": n}, weight=n) for n in ns]
    out += [I("second-%d" % n, "second", {"n": n}, weight=n) for n in ns]
    return out
