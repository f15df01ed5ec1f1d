"""Splitting and flipping layers."""
from .common import I, angle, foundation

BOUNDS = "slabs of 1-2 physical layers, any of them split into 2-3 sub-layers, slabs of 4-5 layers with one split into 2-4, flips of 2-7 layers (thorough: every layer of 3, 8 layers); all values symbolic"
OUTSIDE = "more layers or sub-layers"


def build(ctx, ls):
    m = ctx.weac.Layered("skier", layers=ls)
    t, E, nu = foundation(ctx)
    m.set_foundation_properties(t=t, E=E, nu=nu)
    m.set_surface_load(ctx.real("p", (0, 2e-3), "nonneg"))
    m.calc_fundamental_system()
    return m


def phys(ctx, n):
    return [[ctx.real("rho%d" % i, (100, 400)), ctx.real("h%d" % i, (30, 250))] for i in range(n)]


def split(ctx, n, at, parts):
    ls = phys(ctx, n)
    rho, h = ls[at]
    sub = []
    for k in range(parts - 1):
        hk = ctx.real("sub%d" % k, (10, 29.0 / parts))
        sub.append([rho, hk])
    rest = h - sum(s[1] for s in sub)
    ctx.assume(rest > 0)
    sub.append([rho, rest])
    a = build(ctx, ls)
    b = build(ctx, ls[:at] + sub + ls[at + 1:])
    H = sum(l[1] for l in ls)
    ctx.eq("thickness", b.h, a.h)
    ctx.eq("center of gravity", b.zs, a.zs, scale=lambda: [H])
    ctx.eq("A11", b.A11, a.A11)
    ctx.eq("B11", b.B11, a.B11, scale=lambda: [a.A11 * H])
    ctx.eq("D11", b.D11, a.D11)
    ctx.eq("kA55", b.kA55, a.kA55)
    ctx.eq("K0", b.K0, a.K0)
    phi = angle(ctx)
    qa, qb = a.get_weight_load(phi), b.get_weight_load(phi)
    ctx.eq("weight load (normal)", qb[0], qa[0])
    ctx.eq("weight load (tangential)", qb[1], qa[1])
    Ka, Kb = a.calc_system_matrix(), b.calc_system_matrix()
    for i in range(6):
        for j in range(6):
            ctx.eq("system matrix [%d,%d]" % (i, j), Kb[i, j], Ka[i, j], scale=lambda: [1e-6 * abs(Ka[1, 3]), 1e-9 * abs(Ka[1, 4])])
    va, vb = a.get_load_vector(phi), b.get_load_vector(phi)
    ctx.eq("load vector", vb, va, scale=lambda: [abs(qa[1]) * H / a.D11])


def wedge(ctx, n, at, parts):
    ls = phys(ctx, n)
    rho, h = ls[at]
    sub = []
    for k in range(parts - 1):
        sub.append([rho, ctx.real("sub%d" % k, (10, 29.0 / parts))])
    rest = h - sum(s[1] for s in sub)
    ctx.assume(rest > 0)
    sub.append([rho, rest])
    a = ctx.weac.Layered("vpst-", layers=ls)
    b = ctx.weac.Layered("vpst-", layers=ls[:at] + sub + ls[at + 1:])
    phi = angle(ctx)
    f = ctx.mod("weac.tools").calc_vertical_bc_center_of_gravity
    wa, wb = f(a.slab, phi), f(b.slab, phi)
    H = a.h
    ctx.eq("wedge center of gravity x", wb[0], wa[0], scale=lambda: [H * 1e-3])
    ctx.eq("wedge center of gravity z", wb[1], wa[1], scale=lambda: [H * 1e-3])
    ctx.eq("wedge weight", wb[2], wa[2])


def flip(ctx, n):
    ls = phys(ctx, n)
    a, b = build(ctx, ls), build(ctx, ls[::-1])
    H = sum(l[1] for l in ls)
    phi = angle(ctx)
    ctx.eq("thickness", b.h, a.h)
    ctx.eq("center of gravity", b.zs, -a.zs, scale=lambda: [H])
    ctx.eq("B11", b.B11, -a.B11, scale=lambda: [a.A11 * H])
    ctx.eq("A11", b.A11, a.A11)
    ctx.eq("D11", b.D11, a.D11)
    ctx.eq("kA55", b.kA55, a.kA55)
    ctx.eq("K0", b.K0, a.K0)
    qa, qb = a.get_weight_load(phi), b.get_weight_load(phi)
    ctx.eq("weight load (normal)", qb[0], qa[0])
    ctx.eq("weight load (tangential)", qb[1], qa[1])


def instances(tier):
    cases = [(1, 0, 2), (1, 0, 3), (2, 0, 2), (2, 1, 2), (4, 1, 4), (5, 2, 2), (1, 0, 7)]
    if tier == "thorough":
        cases += [(2, 0, 3), (3, 0, 2), (3, 1, 2), (3, 2, 2), (8, 3, 3), (6, 5, 5)]
    out = []
    for n, at, k in cases:
        p = {"n": n, "at": at, "parts": k}
        out.append(I("split-%d-%d-%d" % (n, at, k), "split", p, weight=n))
        out.append(I("wedge-%d-%d-%d" % (n, at, k), "wedge", p, weight=n))
    out += [I("flip-%d" % n, "flip", {"n": n}) for n in ((2, 3, 7) if tier == "quick" else (2, 3, 4, 7, 10))]
    return out
