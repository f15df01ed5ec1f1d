"""Responses superpose linearly in the loads."""
from .common import I, angle, model, state
from .c08 import slab

BOUNDS = ("all four PST types, the one-skier system and assemblies of 2-3 segments (thorough 4) with every support pattern, of 5-7 with given ones; two arbitrary load sets "
          "(slab weight, surface load, skiers) and an arbitrary factor; slope, lengths, stiffnesses symbolic; eigenvalue splits PPPNNN and PNpn; "
          "stresses of arbitrary states in slabs of 1-2 layers")
OUTSIDE = "contact (nonlinear in the loads); uniqueness of the solution of the linear system"
ASSUMES = ["numpy.linalg.solve returns the unique solution of its linear system",
           "slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06); stiffnesses do not follow the density in these load sets"]


def loads(ctx, m, dens, p):
    """Slab weight times dens, surface load p; stiffnesses kept."""
    m.slab = m.slab.copy()
    for i in range(len(m.slab)):
        m.slab[i, 0] = dens * m.slab[i, 0]
    m.set_surface_load(p)
    return m


def trio(ctx, system, scale, n=1, fixed=False):
    """Load sets A and B and their combination (A and 0: multiples)."""
    ms = [slab(ctx, system, n=n) for _ in range(3)]
    w = [ctx.real("wa", (0.3, 1.5), "nonneg"), ctx.real("wb", (0.3, 1.5), "nonneg")]
    p = [ctx.real("pa", (0, 3), "nonneg"), ctx.real("pb", (0, 3), "nonneg")]
    if scale:
        f = ctx.num(2.5) if fixed else ctx.real("factor", (0.5, 3))
        combine = lambda a, b: f * a
    else:
        f = None
        combine = lambda a, b: a + b
    if "v" in system:        # a wedge needs mass
        ctx.assume(w[0] > 0)
        ctx.assume(w[1] > 0)
    for m, d, q in zip(ms, w + [combine(*w)], p + [combine(*p)]):
        loads(ctx, m, d, q)
    return ms, combine, f


def solved(ctx, system, scale=False, ki=None, fixed=False):
    ms, combine, f = trio(ctx, system, scale, fixed=fixed)
    a, b, c = ms
    phi = angle(ctx)
    if "v" in system:
        ctx.pick(phi.__eq__(0))
    if ki is None:
        L, cr = ctx.real("L", (2500, 6000)), ctx.real("a", (200, 1500), "nonneg")
        ctx.assume(cr < L)
        sk = [ctx.real("ma", (0, 120), "nonneg"), ctx.real("mb", (0, 120), "nonneg")]
        segs = [m.calc_segments(L=L, a=cr, m=w, phi=phi) for m, w in zip(ms, sk + [combine(*sk)])]
    else:
        n = len(ki)
        li = [ctx.real("l%d" % i, (600, 3000), "pos" if i in (0, n - 1) else "nonneg") for i in range(n)]
        sk = [[ctx.real("m%s%d" % (t, i), (0, 120), "nonneg") for i in range(n - 1)] for t in "ab"]
        segs = [m.calc_segments(li=li, mi=w, ki=ki, k0=[True] * n, phi=phi)
                for m, w in zip(ms, sk + [[combine(x, y) for x, y in zip(*sk)]])]
    for st in ("nocrack", "crack") if ki is None else ("crack",):
        ga, gb, gc = [s[st] for s in segs]
        n = len(ga["li"])
        A = a.assemble_and_solve(phi=phi, **ga)
        B = None if scale else b.assemble_and_solve(phi=phi, **gb)
        if ctx.mode == "sym":
            ctx.known_solution([("combined constants solve the combined system (%s)" % st, combine(A, B).T.reshape(-1, 1))])
        C = c.assemble_and_solve(phi=phi, **gc)
        if ctx.mode == "sym":
            ctx.end_known_solution()
        for i in range(n):
            l, k = ga["li"][i], ga["ki"][i]
            for x in (0, ctx.num(0.37) * l, l):
                za = a.z(x, A[:, [i]], l, phi, bed=k)
                zb = None if scale else b.z(x, B[:, [i]], l, phi, bed=k)
                zc = c.z(x, C[:, [i]], l, phi, bed=k)
                for q, nm in enumerate(("u", "u'", "w", "w'", "psi", "psi'")):
                    ctx.eq("%s in segment %d (%s)" % (nm, i, st), zc[q, 0], combine(za[q, 0], 0 if scale else zb[q, 0]), tol=1e-4,
                           scale=lambda: [(1e-2 * abs(zc[0, 0]) + 1e-2 * abs(zc[2, 0]) + 1e-4) * (1, 1e-2, 1, 1e-2, 1e-2, 1e-4)[q]])
        if scale and st == "crack":
            Ga, Gc = a.gdif(A, phi, **ga), c.gdif(C, phi, **gc)
            for i in range(3):
                ctx.eq("differential energy release rate %d" % i, Gc[i], f * f * Ga[i], tol=1e-4, scale=lambda: [abs(Gc[0])])


def increments(ctx, system):
    """Crack-opening work of scaled solutions (solutions scale: instances
    above; here arbitrary constants)."""
    ms, combine, f = trio(ctx, system, True)
    a, _, c = ms
    phi = angle(ctx)
    if "v" in system:
        ctx.pick(phi.__eq__(0))
    L, cr = ctx.real("L", (2500, 6000)), ctx.real("a", (200, 1500))
    ctx.assume(cr < L)
    s = a.calc_segments(L=L, a=cr, phi=phi)
    li, k0, ki = s["crack"]["li"], s["nocrack"]["ki"], s["crack"]["ki"]
    C = [ctx.array([[ctx.real("%s%d%d" % (t, i, j), (-1, 1), "any") for j in range(len(li))] for i in range(6)]) for t in "CD"]
    Ga = a.ginc(C0=C[0], C1=C[1], phi=phi, li=li, ki=ki, k0=k0)
    Gc = c.ginc(C0=f * C[0], C1=f * C[1], phi=phi, li=li, ki=ki, k0=k0)
    for i in range(3):
        ctx.eq("incremental energy release rate %d" % i, Gc[i], f * f * Ga[i], tol=1e-4, scale=lambda: [abs(v) for v in Gc])


def quantities(ctx, n, scale):
    """Forces, tractions and slab stresses of combined states."""
    ms = [model(ctx, n)[0] for _ in range(3)]
    a, b, c = ms
    w = [ctx.real("wa", (0.3, 1.5), "nonneg"), ctx.real("wb", (0.3, 1.5), "nonneg")]
    p = [ctx.real("pa", (0, 3), "nonneg"), ctx.real("pb", (0, 3), "nonneg")]
    f = ctx.real("factor", (0.5, 3))
    combine = (lambda x, y: f * x) if scale else (lambda x, y: x + y)
    for m, d, q in zip(ms, w + [combine(*w)], p + [combine(*p)]):
        loads(ctx, m, d, q)
    phi = angle(ctx)
    Za, Zb = state(ctx, tag="a"), state(ctx, tag="b")
    Zc = combine(Za, Zb)
    for g in ("get_weight_load", "get_surface_load"):
        for x, y, z in zip(*[getattr(m, g)(phi) for m in ms]):
            ctx.eq(g, z, combine(x, y), tol=1e-9)
    for g in ("w", "psi", "N", "M", "V", "sig", "tau", "eps", "gamma"):
        ctx.eq(g, getattr(c, g)(Zc), combine(getattr(a, g)(Za), getattr(b, g)(Zb)), tol=1e-6,
               scale=lambda: [1e-3 * abs(v) for v in list(getattr(a, g)(Za)) + list(getattr(b, g)(Zb))])
    if scale:
        for g in ("Gi", "Gii"):
            ctx.eq(g, getattr(c, g)(Zc), f * f * getattr(a, g)(Za), tol=1e-9)
    dz = ctx.real("dz", (260, 400))
    for i in range(n):
        ctx.assume(a.slab[i, 1] <= dz)
    for g in ("Sxx", "Txz", "Szz"):
        x, y, z = [getattr(m, g)(Z, phi, dz=dz) for m, Z in zip(ms, (Za, Zb, Zc))]
        ctx.eq("stress " + g, z, combine(x, y), tol=1e-6,
               scale=lambda: [1e-2 * abs(float(v)) for v in list(x.ravel()) + list(y.ravel())])


def instances(tier):
    out = []
    for s in (False, True):
        t = "factor" if s else "sum"
        for n in (1, 2):
            out.append(I("quantities-%s-%d" % (t, n), "quantities", {"n": n, "scale": s}))
        for p in ("PPPNNN", "PNpn"):
            o = {"eig_patterns": [p]}
            quick = s and tier == "quick"
            if quick and p == "PNpn":
                continue
            kw = {"scale": s}
            if quick:
                kw["fixed"] = True       # sums imply rational factors; arbitrary ones in the thorough tier
            for y in ("pst-", "-pst", "vpst-", "-vpst", "skier"):
                out.append(I("%s-%s-%s" % (y, t, p), "solved", dict(kw, system=y), opts=o, weight=4 + (y == "skier") * 4))
            pats = [[True, True], [True, True, True], [True, False, True]]
            if tier != "quick":
                pats += [[True, False, False, True], [True, True, False, True]]
            for k in pats if not (s and tier == "thorough") else pats[:3]:
                out.append(I("skiers-%s-%s-%s" % ("".join("fs"[v] for v in k), t, p), "solved", dict(kw, system="skiers", ki=k), opts=o, weight=2 + len(k)))
    for k, s, p in (("sfsfs", False, "PNpn"), ("sfssffs", True, "PPPNNN")):
        out.append(I("skiers-%s-%s" % (k, p), "solved", {"system": "skiers", "scale": s, "fixed": s, "ki": [c == "s" for c in k]},
                     opts={"eig_patterns": [p]}, weight=6))
    for y in ("pst-", "vpst-"):
        out.append(I("increment-%s" % y, "increments", {"system": y}, opts={"eig_patterns": ["PNpn"]}, weight=3))
    return out
