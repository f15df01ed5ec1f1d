"""Solutions on supported segments: ODE, particular integral, boundedness."""
from .common import I, angle, model

BOUNDS = ("slabs of 1-2 layers (particular solutions 1-5), every parameter, position, segment length, free constant and "
          "eigenpair symbolic; every split into real/complex eigenvalues listed in the instances")
OUTSIDE = "zero or defective eigenvalues"
ASSUMES = ["numpy.linalg.eig returns eigenpairs, complex ones as conjugate pairs"]


def consts(ctx, n=6):
    return ctx.array([[ctx.real("C%d" % i, (-1, 1), "any")] for i in range(n)])


def field(ctx, n):
    m, _ = model(ctx, n)
    phi = angle(ctx)
    C = consts(ctx)
    l = ctx.real("l", (200, 2000))
    x = ctx.real("x", (0, 200), "nonneg")
    if ctx.mode == "conc":      # the difference quotient's range
        ctx.assume(x <= l and abs(ctx.np.linalg.eigvals(m.calc_system_matrix())).max() <= 0.05)
    f = lambda s: m.z(s, C, l, phi, bed=True)
    z = f(x)
    d = ctx.deriv(f, x, step=1.0)
    ctx.shape("z", z, (6, 1))
    e = m.dz_dx(z, phi)
    for i in range(6):
        ctx.eq("z' = K z + q, row %d" % i, d[i], e[i], scale=lambda: [abs(d[i]), abs(z[i]) * 1e-3, abs(m.get_load_vector(phi)[i])], tol=1e-4, rough=True)


def sequence(ctx, n):
    """Evaluation at a list of positions equals the pointwise evaluation."""
    m, _ = model(ctx, n)
    phi = angle(ctx)
    C = consts(ctx)
    l = ctx.real("l", (200, 2000))
    xs = [ctx.real("x%d" % i, (0, 200), "nonneg") for i in range(2)]
    z = m.z(ctx.array(xs), C, l, phi, bed=True)
    zt = m.z(tuple(xs), C, l, phi, bed=True)
    ctx.shape("z", z, (6, 2))
    for j, x in enumerate(xs):
        one = m.z(x, C, l, phi, bed=True)
        ctx.eq("column %d" % j, z[:, j], one[:, 0])
        ctx.eq("column %d (tuple)" % j, zt[:, j], one[:, 0])


def particular(ctx, n):
    m, _ = model(ctx, n)
    phi = angle(ctx)
    x = ctx.real("x", (0, 5000), "nonneg")
    f = lambda s: m.zp(s, phi, bed=True)
    zp = f(x)
    d = ctx.deriv(f, x)
    e = m.dz_dx(zp, phi)
    q = m.get_load_vector(phi)
    K = m.calc_system_matrix()
    for i in range(6):
        ctx.eq("zp' = K zp + q, row %d" % i, d[i], e[i], scale=lambda: abs(ctx.np.asarray(K[i], dtype=float)) @ abs(zp) + abs(q[i]))


def bounded(ctx, n):
    m, _ = model(ctx, n)
    l = ctx.real("l", (200, 60000))
    x = ctx.real("x", (0, 200), "nonneg")
    ctx.assume(x <= l)
    zh = m.zh(x, l, True)
    nR, nC = len(m.ewR), len(m.ewC)
    ctx.shape("zh", zh, (6, nR + 2 * nC))
    for r in range(6):
        for j in range(nR):
            a = m.evR[r, j]
            ctx.assume(a ** 2 > 0)
            ctx.le("real basis function %d row %d bounded" % (j, r), zh[r, j] ** 2 / a ** 2, 1)
        for j in range(nC):
            b = m.evC[r, j].real ** 2 + m.evC[r, j].imag ** 2
            ctx.assume(b > 0)
            ctx.le("complex basis functions %d row %d bounded (root of sum of squares)" % (j, r),
                   (zh[r, nR + j] ** 2 + zh[r, nR + nC + j] ** 2) / b, 1)


def complete(ctx, n):
    """Six basis functions whatever the split of the eigenvalues."""
    m, _ = model(ctx, n)
    l = ctx.real("l", (200, 60000))
    ctx.shape("zh", m.zh(0, l, True), (6, 6))
    ctx.true("six solutions", len(m.ewR) + 2 * len(m.ewC) == 6)
    for w in m.ewC:
        ctx.true("one of each conjugate pair", w.imag > 0)


def instances(tier):
    pats = ["PNpn", "pnPN", "PPPNNN", "PPNNp", "nPNPN", "pnp"]
    if tier == "thorough":
        pats += ["RRCC", "RRRRC", "CCC", "RCRC", "RRRRRR"]
    ns = (1, 2, 3, 5)
    out = []
    for p in pats:
        o = {"eig_patterns": [p]}
        out.append(I("field-2-" + p, "field", {"n": 2}, opts=o, weight=3))
        out.append(I("bounded-1-" + p, "bounded", {"n": 1}, opts=o, weight=2))
        out.append(I("complete-1-" + p, "complete", {"n": 1}, opts=o))
    for n in ns:
        out.append(I("particular-%d" % n, "particular", {"n": n}))
        out.append(I("sequence-%d" % n, "sequence", {"n": n}))
    return out
