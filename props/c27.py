"""Potential energies are strain energy and work of the loads."""
from .common import I, angle, state
from .c08 import slab, place_crack

BOUNDS = ("both PST types with slope-normal faces, uncracked, cracked, and in contact stages A-C; rasters of 2, 5 and 20 samples (thorough also 3, 9, 50) with arbitrary "
          "solution vectors; stiffnesses, loads, slope, lengths, touchdown length, contact spring symbolic")
OUTSIDE = "accuracy of the raster's mean; the strain energy of the resting part beyond the touchdown point; vertical faces and skier systems (not implemented)"
ASSUMES = ["the raster is an arbitrary one (C12 decides which); the solution's end obeys the contact condition (C19)",
           "slab stiffnesses arbitrary admissible (C01)"]


def setup(ctx, system, stage):
    m = slab(ctx, system, stage in ("B", "C"))
    phi = angle(ctx)
    L = ctx.real("L", (4000, 20000) if stage in ("B", "C") else (2000, 6000))
    a = ctx.num(0) if stage == "0" else ctx.real("a", (200, 1500))
    ctx.assume(a < L)
    kw = dict(L=L, a=a, cf=ctx.real("cf", (0.1, 0.7)), phi=phi, ratio=ctx.real("ratio", (10, 1000)))
    lc, kR = ctx.real("th_lc", (300, 600)), ctx.real("kR", (1e5, 1e7))
    if ctx.mode == "sym":
        a1, a2 = ctx.real("th_a1", (300, 600)), ctx.real("th_a2", (700, 1200))
        ctx.assume(a1 < a2)
        m.calc_a1, m.calc_a2, m.calc_lC = lambda: a1, lambda: a2, lambda: lc
        if stage in ("B", "C"):
            ctx.assume(lc < a)
            ctx.assume(a > (a1 if stage == "B" else a2))
            if stage == "B":
                ctx.assume(a <= a2)
        m.substitute_stiffness = lambda l, support="rested", dof="rot": kR
    elif stage in ("B", "C"):
        place_crack(ctx, m, kw)
    s = m.calc_segments(m=0, **kw)
    if stage == "0" or stage == "A":
        m.set_touchdown_attributes(kw["L"], kw["a"], kw["cf"], phi, kw["ratio"])
    if ctx.mode == "conc":
        # any stage will do, in the stage's own terms
        kR = m.substitute_stiffness(m.a - m.td, "rested", "rot") if m.mode == "C" else 0
    elif stage != "C":
        kR = ctx.num(0)
    return m, phi, kw, s["nocrack"] if stage == "0" else s["crack"], kR


def raster(ctx, m, g, phi, n, kR):
    """An arbitrary raster: n samples, the unsupported ones NaN."""
    ki = [bool(k) for k in g["ki"]]
    if ctx.mode == "conc":
        C = m.assemble_and_solve(phi=phi, **g)
        held = []
        real = m.rasterize_solution

        def record(*p, **k):
            held.append(real(*p, **k))
            return held[-1]
        m.rasterize_solution = record
        return C, held
    Z = state(ctx, n)
    end = n - 1 if m.system == "pst-" else 0
    # contact condition of the cracked end: M = -/+ kR psi
    sg = -1 if end else 1
    Z[5, end] = (sg * kR * Z[4, end] - m.B11 * Z[1, end]) / m.D11
    xs = [ctx.real("x%d" % i, (0, 3000), "nonneg") for i in range(n)]
    # the first samples of a right-cut PST are supported, one at least
    nan = float("nan")
    if all(ki):
        xb = list(xs)
    elif m.system == "pst-":
        xb = xs[:(n + 1) // 2] + [nan] * (n - (n + 1) // 2)
    else:
        xb = [nan] * (n // 2) + xs[n // 2:]
    C = ctx.array([[ctx.real("C%d_%d" % (i, j), (-1, 1), "any") for j in range(len(ki))] for i in range(6)])
    out = (ctx.array(xs), Z, ctx.array(xb))
    real = m.rasterize_solution

    def stub(*p, **k):
        import inspect
        v = inspect.signature(real).bind(*p, **k).arguments
        v = {**v, **v.get("kwargs", {})}
        ctx.same("constants of the raster", v["C"], C)
        ctx.same("slope of the raster", v["phi"], phi)
        ctx.same("lengths of the raster", list(v["li"]), list(g["li"]))
        ctx.true("supports of the raster", [bool(q) for q in v["ki"]] == ki)
        return out[0].copy(), out[1].copy(), out[2].copy()
    m.rasterize_solution = stub
    return C, [out]


def energies(ctx, m, kw, g, phi, held, kR):
    """Strain energy from forces times strains, work from loads times
    displacements, as means over the raster times the lengths."""
    x, Z, xb = held[-1]
    n = Z.shape[1]
    u, du, w, dw, psi, dpsi = [Z[i, :] for i in range(6)]
    li, ki = list(g["li"]), [bool(k) for k in g["ki"]]
    l = sum(li[1:], li[0])
    ls = sum((v for v, k in zip(li, ki) if k), ctx.num(0))
    half = ctx.num(0.5)
    slab_ = weak = wn = wt = ctx.num(0)
    sup = 0
    qn, qt = m.get_weight_load(phi)
    pn, pt = m.get_surface_load(phi)
    for j in range(n):
        N = m.A11 * du[j] + m.B11 * dpsi[j]
        M = m.B11 * du[j] + m.D11 * dpsi[j]
        V = m.kA55 * (dw[j] + psi[j])
        slab_ = slab_ + half * (N * du[j] + M * dpsi[j] + V * (dw[j] + psi[j]))
        if not ctx.isnan(xb[j]):
            sup += 1
            weak = weak + half * (m.kn * w[j] ** 2 + m.kt * (u[j] + m.h / 2 * psi[j] - m.t / 2 * dw[j]) ** 2)
        wn = wn + (qn + pn) * w[j]
        wt = wt + qt * (u[j] + m.zs * psi[j]) + pt * (u[j] - m.h / 2 * psi[j])
    e = n - 1 if m.system == "pst-" else 0
    inner = l * slab_ / n + ls * weak / sup + half * kR * psi[e] ** 2
    rest = kw["L"] - l
    outer = -(l * (wn + wt) / n + rest * ((qn + pn) * m.tc + qt * (u[e] + m.zs * psi[e]) + pt * (u[e] - m.h / 2 * psi[e])))
    return inner, outer


def potentials(ctx, system, stage, n):
    m, phi, kw, g, kR = setup(ctx, system, stage)
    C, held = raster(ctx, m, g, phi, n, kR)
    Pi = m.internal_potential(C, phi, kw["L"], **g)
    inner, outer = energies(ctx, m, kw, g, phi, held, kR)
    ctx.eq("internal potential is the strain energy", Pi, inner)
    Pe = m.external_potential(C, phi, kw["L"], **g)
    ctx.eq("external potential is minus the work of the loads", Pe, energies(ctx, m, kw, g, phi, held, kR)[1],
           scale=lambda: [abs(kw["L"] * m.calc_qn() * m.w(held[-1][1])).max()])
    Pt = m.total_potential(C, phi, kw["L"], **g)
    ctx.eq("total potential", Pt, Pi + Pe, scale=lambda: [abs(Pi), abs(Pe)])
    if ctx.mode == "conc" and not m.touchdown:
        # linear system without contact: the loads' work is twice the energy
        ctx.eq("energy balance", Pe, -2 * Pi, tol=0.1, rough=True)


def instances(tier):
    o = {"eig_patterns": ["PNpn"]}
    out = []
    for s in ("pst-", "-pst"):
        for st in ("0", "A", "B", "C"):
            for n in (2, 5, 20) if tier == "quick" else (2, 3, 5, 9, 20, 50):
                out.append(I("%s-%s-%d" % (s, st, n), "potentials", {"system": s, "stage": st, "n": n}, opts=o))
    return out
