"""Mirrored experiments have mirrored solutions."""
from .common import I, angle, model, state
from .c08 import place_crack, slab
from .c18 import stub_springs
from .c20 import stub_roots

BOUNDS = ("all PST systems without and with contact (stages A-C), the one-skier system and assemblies of 2-3 segments (thorough 4) with every support "
          "pattern, of 5-7 with given ones; lengths, cracks, loads, slope, stiffnesses symbolic; eigenvalue splits PPPNNN and PNpn; field quantities and stresses of "
          "arbitrary states, slabs of 1-2 layers")
OUTSIDE = "more segments; uniqueness of the solution of the linear system"
ASSUMES = ["numpy.linalg.solve returns the unique solution of its linear system",
           "numpy.linalg.eig: the mirrored system matrix has the mirrored eigenpairs (scale and order are free)",
           "slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06)",
           "contact lengths and springs are functions of geometry, loads and stiffnesses (C18)"]

FLIP = (-1, 1, 1, -1, -1, 1)  # u, u', w, w', psi, psi'


def S(ctx, z):
    return ctx.array([[FLIP[i] * z[i, j] for j in range(z.shape[1])] for i in range(6)])


def governing(ctx):
    """z' = K z + q maps onto itself."""
    m = slab(ctx, "pst-")
    phi = angle(ctx)
    K = m.calc_system_matrix()
    for i in range(6):
        for j in range(6):
            ctx.eq("K[%d,%d]" % (i, j), FLIP[i] * K[i, j] * FLIP[j], -K[i, j])
    a, b = m.get_load_vector(phi), m.get_load_vector(-phi)
    for i in range(6):
        ctx.eq("q[%d]" % i, b[i, 0], -FLIP[i] * a[i, 0], tol=1e-9)
    for f in ("get_weight_load", "get_surface_load"):
        (an, at), (bn, bt) = getattr(m, f)(phi), getattr(m, f)(-phi)
        ctx.eq(f + " normal", bn, an)
        ctx.eq(f + " tangential", bt, -at)
    w = ctx.real("m", (10, 120))
    (an, at), (bn, bt) = m.get_skier_load(w, phi), m.get_skier_load(w, -phi)
    ctx.eq("skier load normal", bn, an)
    ctx.eq("skier load tangential", bt, -at)


def quantities(ctx, n):
    """Section forces, tractions, energy release rates, displacements and
    stresses of a state and of its mirror image."""
    m, ls = model(ctx, n)
    phi = angle(ctx)
    Z = state(ctx)
    M = S(ctx, Z)
    z0 = ctx.real("z0", (-100, 100), "any")
    for f, s in (("w", 1), ("dw_dx", -1), ("psi", -1), ("dpsi_dx", 1), ("N", 1), ("M", 1), ("V", -1), ("sig", 1), ("tau", -1),
                 ("eps", 1), ("gamma", -1), ("Gi", 1), ("Gii", 1)):
        ctx.eq(f, getattr(m, f)(M), s * getattr(m, f)(Z), tol=1e-9)
    ctx.eq("u", m.u(M, z0=z0), -m.u(Z, z0=z0))
    ctx.eq("u'", m.du_dx(M, z0=z0), m.du_dx(Z, z0=z0))
    ctx.eq("weak-layer principal stress", m.principal_stress_weaklayer(M) ** 2, m.principal_stress_weaklayer(Z) ** 2, tol=1e-6)
    dz = ctx.real("dz", (260, 400))
    for _, h in ls:
        ctx.assume(h <= dz)
    # (the axial stress carries a mesh-size error odd in the slope, see C15)
    for f, s in (("Txz", -1), ("Szz", 1)):
        a, b = getattr(m, f)(Z, phi, dz=dz), getattr(m, f)(M, -phi, dz=dz)
        top = lambda: [1e-6 * max(abs(float(v)) for v in a[:, 0]), 1e-9]
        ctx.eq("stress " + f, b, s * a, tol=1e-6, scale=top)


def solve_exact(M, y):
    """Solve M c = y by elimination over exact terms."""
    n = len(y)
    A = [[M[i, j] for j in range(n)] + [y[i]] for i in range(n)]

    def zero(v):
        from symx.sym import lift
        return not lift(v).r.n
    rows = list(range(n))
    where = {}
    for j in range(n):
        p = min((i for i in rows if not zero(A[i][j])), key=lambda i: sum(not zero(v) for v in A[i][:n]))
        rows.remove(p)
        where[j] = p
        A[p] = [v / A[p][j] for v in A[p]]
        for i in range(n):
            if i != p and not zero(A[i][j]):
                f = A[i][j]
                A[i] = [a - f * b for a, b in zip(A[i], A[p])]
    return [A[where[j]][n] for j in range(n)]


def mirrored_eigen(ctx, m2, m1):
    """The mirror image of the eigenpairs, as the second model's own."""
    if ctx.mode == "conc":
        return

    def flip(v):
        return v * ctx.np.array(FLIP).reshape(6, 1) if v.size else v
    m2.ewR, m2.ewC = -m1.ewR, -m1.ewC
    m2.evR, m2.evC = flip(m1.evR), flip(m1.evC)
    m2.sR, m2.sC = -1 - m1.sR, -1 - m1.sC


def mirrored_constants(ctx, m1, m2, C, phi, li, ki):
    """Constants of the mirror image of a solution."""
    n = len(li)
    out = []
    for i in reversed(range(n)):
        c, l = [C[k, i] for k in range(6)], li[i]
        if ki[i]:
            r, k = len(m1.ewR), len(m1.ewC)
            d = list(c)
            for q in range(k):
                w = m1.ewC[q].imag * l
                s, co = ctx.np.sin(w), ctx.np.cos(w)
                d[r + q] = c[r + q] * co + c[r + k + q] * s
                d[r + k + q] = c[r + k + q] * co - c[r + q] * s
        else:
            y = S(ctx, m1.z(l, C[:, [i]], l, phi, bed=False)) - m2.zp(x=0, phi=-phi, bed=False)
            d = solve_exact(m2.zh(0, l, bed=False), [y[j, 0] for j in range(6)])
        out += d
    return ctx.array(out).reshape(-1, 1)


def pair(ctx, s1, s2, touchdown):
    a, b = slab(ctx, s1, touchdown), slab(ctx, s2, touchdown)
    for m in (a, b):
        if touchdown and ctx.mode == "sym":
            stub_springs(ctx, m)
            stub_roots(ctx, m)
    mirrored_eigen(ctx, b, a)
    return a, b


def compare(ctx, a, b, phi, g, r, state):
    """Solve both; the second is the mirror image of the first."""
    n = len(g["li"])
    ctx.true("number of segments", len(r["li"]) == n)
    for i in range(n):
        ctx.eq("length of segment %d (%s)" % (i, state), r["li"][n - 1 - i], g["li"][i], tol=1e-9, scale=lambda: [1.0])
        ctx.true("support of segment %d (%s)" % (i, state), bool(r["ki"][n - 1 - i]) == bool(g["ki"][i]))
    for i in range(n - 1):
        ctx.eq("skier %d (%s)" % (i, state), r["mi"][n - 2 - i], g["mi"][i])
    C = a.assemble_and_solve(phi=phi, **g)
    if ctx.mode == "sym":
        ctx.known_solution([("mirror image solves the mirrored system (%s)" % state, mirrored_constants(ctx, a, b, C, phi, g["li"], g["ki"]))])
    D = b.assemble_and_solve(phi=-phi, **r)
    if ctx.mode == "sym":
        ctx.end_known_solution()
    for i in range(n):
        l, k = g["li"][i], g["ki"][i]
        # inside a segment with oscillating fundamental solutions: by their equation (governing)
        inner = ctx.mode == "conc" or not k or not len(a.ewC)
        for x in (0, ctx.num(0.37) * l, l) if inner else (0, l):
            z = a.z(x, C[:, [i]], l, phi, bed=k)
            y = b.z(r["li"][n - 1 - i] - x, D[:, [n - 1 - i]], l, -phi, bed=k)
            for q, nm in enumerate(("u", "u'", "w", "w'", "psi", "psi'")):
                ctx.eq("%s in segment %d (%s)" % (nm, i, state), y[q, 0], FLIP[q] * z[q, 0], tol=1e-4,
                       scale=lambda: [(1e-2 * abs(z[0, 0]) + 1e-2 * abs(z[2, 0]) + 1e-4) * (1, 1e-2, 1, 1e-2, 1e-2, 1e-4)[q]])


def pst(ctx, s1, s2, touchdown=False):
    a, b = pair(ctx, s1, s2, touchdown)
    phi = angle(ctx)
    if "v" in s1:
        ctx.pick(phi.__eq__(0))
    L = ctx.real("L", (4000, 20000) if touchdown else (2500, 6000))
    c = ctx.real("a", (200, 1500), "nonneg")
    ctx.assume(c < L)
    kw = dict(L=L, a=c, cf=ctx.real("cf", (0.1, 0.7)), ratio=ctx.real("ratio", (10, 1000)))
    if touchdown and ctx.mode == "conc":
        q = dict(kw, phi=phi)
        place_crack(ctx, a, q)
        kw["a"] = q["a"]
    if s1 == "skier":
        kw["m"] = ctx.real("m", (0, 120), "nonneg")
    g, r = a.calc_segments(phi=phi, **kw), b.calc_segments(phi=-phi, **kw)
    ctx.true("same stage", a.mode == b.mode)
    ctx.eq("same overhang", a.td, b.td, tol=1e-6)
    for st in ("nocrack", "crack"):
        compare(ctx, a, b, phi, g[st], r[st], st)


def skiers(ctx, n, ki):
    a, b = pair(ctx, "skiers", "skiers", False)
    phi = angle(ctx)
    li = [ctx.real("l%d" % i, (600, 3000), "pos" if i in (0, n - 1) else "nonneg") for i in range(n)]
    mi = [ctx.real("m%d" % i, (0, 120), "nonneg") for i in range(n - 1)]
    k0 = [True] * n
    g = a.calc_segments(li=li, mi=mi, ki=ki, k0=k0, phi=phi)
    r = b.calc_segments(li=li[::-1], mi=mi[::-1], ki=ki[::-1], k0=k0, phi=-phi)
    compare(ctx, a, b, phi, g["crack"], r["crack"], "crack")


def instances(tier):
    out = [I("governing", "governing"), I("quantities-1", "quantities", {"n": 1}), I("quantities-2", "quantities", {"n": 2})]
    for p in ("PPPNNN", "PNpn"):
        o = {"eig_patterns": [p]}
        for s1, s2 in (("pst-", "-pst"), ("-pst", "pst-"), ("vpst-", "-vpst"), ("-vpst", "vpst-"), ("skier", "skier")):
            if p == "PNpn" and s1 in ("-pst", "-vpst") and tier == "quick":
                continue
            out.append(I("%s-%s" % (s1, p), "pst", {"s1": s1, "s2": s2}, opts=o, weight=2))
        for s1, s2 in (("pst-", "-pst"), ("-pst", "pst-")):
            if p == "PNpn" and s1 == "-pst" and tier == "quick":
                continue
            out.append(I("%s-contact-%s" % (s1, p), "pst", {"s1": s1, "s2": s2, "touchdown": True}, opts=o, weight=3, samples=30))
        pats = [[True, True], [True, True, True], [True, False, True]]
        if tier != "quick":
            pats += [[True, False, False, True], [True, True, False, True], [True, True, True, True]]
        for k in pats:
            out.append(I("skiers-%s-%s" % ("".join("fs"[v] for v in k), p), "skiers", {"n": len(k), "ki": k}, opts=o, weight=2))
    for k, p in (("sfsfs", "PNpn"), ("sfssffs", "PPPNNN")):
        out.append(I("skiers-%s-%s" % (k, p), "skiers", {"n": len(k), "ki": [c == "s" for c in k]}, opts={"eig_patterns": [p]}, weight=3))
    return out
