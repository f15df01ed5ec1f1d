"""Touchdown stages and contact conditions."""
from .common import I, angle, model
from .c08 import slab, stub_contact
from .c09 import expect, ends, scales
from .c10 import centroid

BOUNDS = ("PSTs cut from either side, all stages; lengths, crack, collapse factor, slope, thresholds, springs, stiffnesses, stiffness ratio "
          "symbolic; eigenvalue splits PPPNNN and PNpn")
OUTSIDE = "value of thresholds and springs (C18); round-off of the linear solver"
ASSUMES = ["contact thresholds 0 < a1 < a2 and overhang length arbitrary, springs arbitrary positive, one per length, support and direction (C18)",
           "numpy.linalg.solve returns a solution of its linear system",
           "slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06)"]


def inputs(ctx):
    L = ctx.real("L", (4000, 20000))
    a = ctx.real("a", (200, 3500), "nonneg")
    ctx.assume(a < L)
    return dict(L=L, a=a, cf=ctx.real("cf", (0.1, 0.7)), phi=angle(ctx), ratio=ctx.real("ratio", (10, 1000)))


def stage(ctx, system, touchdown, direct):
    m = slab(ctx, system, touchdown)
    kw = inputs(ctx)
    if touchdown:
        stub_contact(ctx, m, kw)
    a = kw["a"]
    if direct:
        m.calc_touchdown_system(**kw)
    else:
        m.calc_segments(**kw)
    if not touchdown:
        ctx.true("stage A", m.mode == "A")
        ctx.eq("overhang", m.td, a)
        return
    ctx.eq("length", m.L, kw["L"])
    ctx.eq("crack", m.a, a)
    a1, a2 = m.calc_a1(), m.calc_a2()
    if ctx.pick(a <= a1):
        ctx.true("stage A up to first contact", m.mode == "A")
        ctx.eq("overhang in A", m.td, a)
    elif ctx.pick(a <= a2):
        ctx.true("stage B up to full contact", m.mode == "B")
        ctx.eq("overhang in B", m.td, a)
    else:
        ctx.true("stage C beyond", m.mode == "C")
        ctx.eq("overhang in C", m.td, m.calc_lC(), tol=1e-6)


def collapse(ctx, system):
    """Available collapse height: cf*t minus the compression under load."""
    m = slab(ctx, system, True)
    kw = inputs(ctx)
    stub_contact(ctx, m, kw)
    m.calc_segments(**kw)
    qn = m.get_weight_load(kw["phi"])[0] + m.get_surface_load(kw["phi"])[0]
    qt = m.get_weight_load(kw["phi"])[1] + m.get_surface_load(kw["phi"])[1]
    ctx.eq("collapse height", m.tc, kw["cf"] * m.t - qn / m.kn, tol=1e-7, scale=lambda: [kw["cf"] * m.t])
    ctx.eq("normal line load", m.calc_qn(), qn, tol=1e-9)
    ctx.eq("tangential line load", m.calc_qt(), qt, tol=1e-9, scale=lambda: [abs(qn)])


def contact(ctx, system):
    m = slab(ctx, system, True)
    kw = inputs(ctx)
    stub_contact(ctx, m, kw)
    g = m.calc_segments(**kw)["crack"]
    phi = kw["phi"]
    C = m.assemble_and_solve(phi=phi, **g)
    e = ends(m, C, phi, g["li"], g["ki"])
    right = system == "pst-"
    z, o = (e[1], e[0]) if right else (e[0], e[1])
    expect(ctx, "supported end", m, o, 0, 0, 0)
    tc, a, td = m.tc, kw["a"], m.td
    N, M = m.N(z)[0], m.M(z)[0]
    f = scales(m, z)
    h = m.h
    if m.mode == "A":
        expect(ctx, "free end", m, z, 0, 0, 0)
        return
    ctx.eq("lands at the collapse height", z[2, 0], tc, tol=1e-4, scale=lambda: [abs(tc), 1e-3 * abs(z[0, 0])])
    if m.mode == "B":
        ctx.eq("no normal force", N, 0, scale=f, tol=1e-4)
        ctx.eq("no moment", M, 0, scale=lambda: [h * v for v in f()], tol=1e-4)
    elif m.mode == "C":
        s = 1 if right else -1
        qt = m.get_weight_load(phi)[1] + m.get_surface_load(phi)[1]
        k = m.substitute_stiffness(a - td, "rested", "rot")
        ctx.eq("tangential weight of the rested part", N, s * qt * (a - td), scale=f, tol=1e-4)
        ctx.eq("spring moment opposes the rotation", M, -s * k * z[4, 0], scale=lambda: [h * v for v in f()] + [1e-3 * abs(k * z[4, 0])], tol=1e-4)
    else:
        ctx.true("stage known", False)


def vertical(ctx, system, n=1):
    m = slab(ctx, system, True, n=n)
    kw = inputs(ctx)
    stub_contact(ctx, m, kw)
    s = m.calc_segments(**kw)
    phi = kw["phi"]
    N = M = V = 0
    if not ctx.pick(phi.__eq__(0)):
        mass, mx, mz = centroid(ctx, [[m.slab[i, 0], m.slab[i, 1]] for i in range(n)], phi)
        gx, gz = -m.g * ctx.sin(phi), m.g * ctx.cos(phi)
        N, V, M = mass * gx, mass * gz, mz * gx - mx * gz
    for state in ("nocrack", "crack"):
        g = s[state]
        C = m.assemble_and_solve(phi=phi, **g)
        for tag, z in zip(("left", "right"), ends(m, C, phi, g["li"], g["ki"])):
            expect(ctx, "%s %s end" % (state, tag), m, z, N, M, V)


def instances(tier):
    out = []
    for s in ("pst-", "-pst"):
        for d in (True, False):
            for t in (True, False):
                out.append(I("stage-%s-%s-%s" % (s, "contact" if t else "free", "direct" if d else "segments"),
                             "stage", {"system": s, "touchdown": t, "direct": d}))
        out.append(I("collapse-%s" % s, "collapse", {"system": s}))
        for p in ("PPPNNN", "PNpn"):
            out.append(I("contact-%s-%s" % (s, p), "contact", {"system": s}, opts={"eig_patterns": [p]}, samples=8))
    for s in ("vpst-", "-vpst"):
        out.append(I("vertical-%s" % s, "vertical", {"system": s}, opts={"eig_patterns": ["PNpn"]}))
    return out
