"""Plots show the model's own quantities at the right places."""
from .common import I, angle, layers, model, state
from .c16 import stub_stresses

BOUNDS = ("curves of 41 points with arbitrary solution values and arbitrary gaps in x, models of 1-5 segments with every support and load pattern; "
          "contour plots of 2-3 columns and 1-2 layers of 1-2 elements, every field, normalized and not, every system type; profiles of 1-4 layers")
OUTSIDE = "colours, fonts, label positions, contour levels, figure files"
ASSUMES = ["matplotlib draws what it is given (recorded by a stand-in)",
           "contour plots of stresses: stress fields are arbitrary functions of state, slope and mesh (C15, C16)"]

N = 41


def plots(ctx):
    p = ctx.mod("weac.plot")
    ctx.recorder.clear()
    return p


def curves(ax):
    return [l for l in ax.lines if l.kw.get("color") not in ("white", "w")]


def figure(ctx, name):
    figs = [f for f in ctx.recorder.figs if f.axes]
    ctx.true("one figure", len(figs) == 1)
    f = figs[0]
    ctx.true("saved once as %s" % name, len(f.saved) == 1 and f.saved[0].split("/")[-1].split(".")[0] == name)
    ctx.true("one pair of axes", len(f.axes) == 1)
    return f.axes[0]


def expect(ctx, ax, data):
    c = curves(ax)
    ctx.true("%d curves" % len(data), len(c) == len(data))
    for l, (key, x, y) in zip(c, data):
        ctx.eq(key + " x", ctx.array(list(l.x)), ctx.array(list(x)), tol=1e-9)
        ctx.eq(key + " y", ctx.array(list(l.y)), ctx.array(list(y)), tol=1e-9)
    if len(ax.texts) == len(data):
        for t, (key, x, y) in zip(ax.texts, data):
            ctx.true("label of %s" % key, key in t[2])


def xs(ctx, gaps=False):
    x = [ctx.real("x%d" % i, (100 * i, 100 * i + 90), "nonneg") for i in range(N)]
    if gaps:
        for i in (3, 4, 5, 20):
            x[i] = float("nan")
    return ctx.array(x)


def segments(ctx, n):
    li = [ctx.real("l%d" % i, (600, 3000), "nonneg") for i in range(n)]
    mi = [ctx.real("m%d" % i, (0, 120), "nonneg") for i in range(n - 1)]
    if n > 2:
        mi[0] = 0
    ki = [ctx.boolean("k%d" % i) for i in range(n)]
    return {"li": ctx.array(li), "mi": ctx.array(mi), "ki": ctx.np.array(ki)}


def marks(ctx, ax, s):
    """Shaded cracks and lines at the loads."""
    spans, lines = [], [0]
    pos = 0
    for l, k in zip(s["li"], s["ki"]):
        if not k:
            spans.append((pos, pos + l))
        pos = pos + l
    pos = 0
    for l, m in zip(s["li"], s["mi"]):
        pos = pos + l
        if ctx.pick(m > 0):
            lines.append(pos)
    ctx.true("number of cracks", len(ax.spans) == len(spans))
    for g, w in zip(ax.spans, spans):
        ctx.eq("crack", ctx.array([g[0], g[1]]), ctx.array([w[0] / 10, w[1] / 10]), tol=1e-9)
    ctx.true("number of load lines", len(ax.vlines) == len(lines))
    for g, w in zip(ax.vlines, lines):
        ctx.eq("load line", g, w / 10, tol=1e-9)


def solution(ctx, kind, n, gaps=False):
    m, _ = model(ctx, 1, param=False)
    p = plots(ctx)
    x, z = xs(ctx, gaps), state(ctx, N)
    s = segments(ctx, n)
    t = m.h / 2
    deg = 180 / ctx.pi
    if kind == "displacements":
        p.displacements(m, x, z, 7, **s)
        data = [("u_0", z[0]), ("-w", -z[2]), ("psi", z[4] * deg)]
        name = "disp7"
    elif kind == "section_forces":
        p.section_forces(m, x, z, "", **s)
        data = [("N", m.A11 * z[1] + m.B11 * z[5]), ("M", m.B11 * z[1] + m.D11 * z[5]), ("V", m.kA55 * (z[3] + z[4]))]
        name = "forc"
    elif kind == "stresses":
        p.stresses(m, x, z, i=3, **s)
        data = [("tau", 1000 * m.tau(z)), ("sigma", 1000 * m.sig(z))]
        name = "stress3"
    else:
        y = ctx.array([ctx.real("y%d" % i, (0, 2), "any") for i in range(N)])
        p.stress_criteria(x, y, **s)
        data, name = [("sigma", y)], "crit"
    ax = figure(ctx, name)
    expect(ctx, ax, [(k, x / 10, y) for k, y in data])
    marks(ctx, ax, s)


def bare(ctx, kind):
    """Without segment lists nothing is marked."""
    m, _ = model(ctx, 1, param=False)
    p = plots(ctx)
    x, z = xs(ctx), state(ctx, N)
    getattr(p, kind)(m, x, z)
    ax = figure(ctx, {"displacements": "disp", "section_forces": "forc", "stresses": "stress"}[kind])
    ctx.true("curves", len(curves(ax)) == (2 if kind == "stresses" else 3))
    ctx.true("no cracks", not ax.spans)
    ctx.true("no loads", len(ax.vlines) <= 1)


def fea(ctx, kind):
    m, _ = model(ctx, 1, param=False)
    p = plots(ctx)
    n = 125
    x, z = ctx.array([ctx.real("x%d" % i, (100 * i, 100 * i + 90), "nonneg") for i in range(n)]), state(ctx, n)
    F = ctx.array([[ctx.real("f%d_%d" % (i, j), (0, 1), "any") for j in range(6)] for i in range(n)])
    deg = 180 / ctx.pi
    getattr(p, kind)(m, x, z, F)
    ax = figure(ctx, kind)
    f = lambda j: ctx.array([F[n - 1 - i, j] for i in range(n)])
    if kind == "fea_disp":
        data = [("FEA $u_0", F[:, 0], -f(1)), ("FEA $w_0", F[:, 0], f(2)), ("FEA $\\psi", F[:, 0], f(5) * deg),
                ("u_0", x, z[0]), ("-w", x, -z[2]), ("psi", x, z[4] * deg)]
    else:
        data = [("sigma", F[:, 0], 1000 * f(2)), ("tau", F[:, 0], 1000 * f(3)), ("tau", x, 1000 * m.tau(z)), ("sigma", x, 1000 * m.sig(z))]
    expect(ctx, ax, [(k, a / 10, y) for k, a, y in data])


def rates(ctx, kind):
    p = plots(ctx)
    da = ctx.array([ctx.real("a%d" % i, (10 * i, 10 * i + 9), "nonneg") for i in range(N)])
    G, H = [ctx.array([[ctx.real("%s%d_%d" % (g, j, i), (0, 1e-3), "any") for i in range(N)] for j in range(3)]) for g in "GH"]
    if kind == "err_modes":
        p.err_modes(da, G)
        data = [("I\\!I}$", G[2]), ("{I}", G[1]), ("{I+I", G[0])]
        expect(ctx, figure(ctx, "modes"), [(k, da / 10, 1000 * y) for k, y in data])
        ctx.recorder.clear()
        p.err_modes(da, H, kind="dif")
        data = [("I\\!I}$", H[2]), ("{I}", H[1]), ("{I+I", H[0])]
        expect(ctx, figure(ctx, "modes"), [(k, da / 10, 1000 * y) for k, y in data])
    else:
        for mode in (0, 1, 2):
            ctx.recorder.clear()
            p.err_comp(da, G, H, mode=mode)
            expect(ctx, figure(ctx, "err"), [("G", da / 10, 1000 * G[mode]), ("bar", da / 10, 1000 * H[mode])])


def profile(ctx, n):
    m, ls = model(ctx, n, param=False, wl=False, load=False)
    p = plots(ctx)
    p.slab_profile(m)
    ax = figure(ctx, "profile")
    ctx.true("one filled profile", len(ax.fills) == 1)
    kind, y, a, b = ax.fills[0]
    ctx.true("filled sideways from zero density", kind == "x")
    y, b = list(y), list(b)
    ctx.eq("zero line", a, 0)
    ctx.true("two corners per layer", len(y) == len(b) == 2 * n)
    z = 0
    for i, (rho, h) in enumerate(reversed(ls)):
        ctx.eq("lower edge %d" % i, y[2 * i], z, tol=1e-9)
        ctx.eq("upper edge %d" % i, y[2 * i + 1], z + h, tol=1e-9)
        ctx.eq("density %d" % i, ctx.array(b[2 * i:2 * i + 2]), ctx.array([rho, rho]), tol=1e-9)
        z = z + h


def deformed(ctx, field, system="pst-", n=1, cols=2, normalize=False, parts=1, gap=False):
    m, ls = model(ctx, n, system=system, param=False)
    p = plots(ctx)
    phi = angle(ctx)
    dz = ctx.real("dz", (260, 400))
    for _, h in ls:
        ctx.assume(h <= parts * dz)
    Z = state(ctx, cols)
    x = [ctx.real("x0", (0, 10), "nonneg")]
    for i in range(1, cols):
        x.append(x[-1] + ctx.real("dx%d" % i, (50, 90)))
    xs = ctx.array(x)
    xw = list(x)
    if gap:
        xw[-2] = float("nan")
    scale = ctx.real("scale", (10, 200))
    stress = field not in ("u", "w")
    if stress:
        stub_stresses(ctx, m)
    if ctx.mode == "sym":
        p.significant_digits = lambda d: 2
        if field == "principal":
            fs, fw = {}, {}

            def slab(z, phi, dz=2, unit="kPa", val="max", normalize=False):
                rows = len(m.get_zmesh(dz=dz))
                k = ("slab", val, unit, bool(normalize))
                if k not in fs:
                    fs[k] = ctx.array([[ctx.e.fresh("ps%d_%d_%d" % (len(fs), i, j)) for j in range(cols)] for i in range(rows)])
                return fs[k]

            def weak(z, sc=2.6, unit="kPa", val="min", normalize=False):
                k = ("weak", val, unit, bool(normalize))
                if k not in fw:
                    fw[k] = ctx.array([ctx.e.fresh("pw%d_%d" % (len(fw), j)) for j in range(cols)])
                return fw[k]
            m.principal_stress_slab, m.principal_stress_weaklayer = slab, weak
    p.deformed(m, xs, ctx.array(xw), Z, phi, dz=dz, scale=scale, field=field, normalize=normalize, filename="cf")
    ax = figure(ctx, "cf")
    ctx.true("slab and weak layer", len(ax.contours) == 2)
    (sx, sz, sf), (wx, wz, wf) = [c[0][:3] for c in ax.contours]
    depth = m.get_zmesh(dz=dz)[:, 0]
    rows = len(depth)
    off = x[-1] / 2 if system in ("skier", "skiers") else 0
    ctx.true("slab grid", sx.shape == sz.shape == sf.shape == (rows, cols))
    ctx.true("weak-layer grid", wx.shape == wz.shape == wf.shape == (2, cols))
    U = [[Z[0, j] + depth[i] * Z[4, j] for j in range(cols)] for i in range(rows)]
    W = [Z[2, j] for j in range(cols)]
    sl = lambda: [abs(v) for v in x] + [m.h]
    for i in range(rows):
        for j in range(cols):
            ctx.eq("slab x", sx[i, j], (x[j] - off) / 10 + scale * U[i][j] / 10, scale=sl)
            ctx.eq("slab depth", sz[i, j], (depth[i] + m.h / 2) / 10 + scale * W[j] / 10, scale=sl)
    bottom = None
    for j in range(cols):
        if gap and j == cols - 2:
            ctx.true("no weak layer in the crack", ctx.isnan(wx[0, j]) and ctx.isnan(wx[1, j]))
            continue
        ctx.eq("weak layer follows the slab (x)", wx[0, j], (x[j] - off) / 10 + scale * U[rows - 1][j] / 10, scale=sl)
        ctx.eq("weak layer follows the slab (z)", wz[0, j], m.h / 10 + scale * W[j] / 10, scale=sl)
        ctx.eq("weak-layer base at rest (x)", wx[1, j], (x[j] - off) / 10, scale=sl)
        if bottom is None:
            bottom = wz[1, j]
        ctx.eq("weak-layer base is flat", wz[1, j], bottom, scale=sl)
        for i in range(rows):
            ctx.le("base below the slab", (depth[i] + m.h / 2) / 10 + scale * W[j] / 10, bottom, slack=1e-9)
    # requested field
    if field == "u":
        F, G = [[1000 * v for v in r] for r in U], [1000 * v for v in U[-1]]
    elif field == "w":
        F, G = [[1000 * v for v in W]] * rows, [1000 * v for v in W]
    elif field == "principal":
        F = m.principal_stress_slab(Z, phi, dz=dz, unit="kPa", val="max", normalize=normalize)
        G = m.principal_stress_weaklayer(Z, unit="kPa", val="min", normalize=normalize)
    else:
        F = getattr(m, field)(Z, phi, dz=dz, unit="kPa")
        G = {"Sxx": ctx.array([0] * cols), "Txz": m.tau(Z, unit="kPa"), "Szz": m.sig(Z, unit="kPa")}[field]
    F, G = [[F[i][j] for j in range(cols)] for i in range(rows)], list(G)
    sc = lambda: [abs(v) for r in F for v in r] + [abs(v) for v in G]
    for i in range(rows):
        for j in range(cols):
            ctx.eq("slab field", sf[i, j], F[i][j], scale=sc)
    for i in range(2):
        for j in range(cols):
            if not (gap and j == cols - 2):
                ctx.eq("weak-layer field", wf[i, j], G[j], scale=sc)


def instances(tier):
    out = []
    for k in ("displacements", "section_forces", "stresses", "criteria"):
        for n in ((2, 3, 4) if tier == "quick" else (2, 3, 4, 5)):
            out.append(I("%s-%d" % (k, n), "solution", {"kind": k, "n": n}, weight=n, witnesses=2))
        out.append(I("%s-gaps" % k, "solution", {"kind": k, "n": 3, "gaps": True}, witnesses=2))
    for k in ("displacements", "section_forces", "stresses"):
        out.append(I("bare-%s" % k, "bare", {"kind": k}, witnesses=2))
    for k in ("fea_disp", "fea_stress"):
        out.append(I(k, "fea", {"kind": k}, witnesses=2))
    for k in ("err_modes", "err_comp"):
        out.append(I(k, "rates", {"kind": k}, witnesses=2))
    for n in (1, 2, 3, 4):
        out.append(I("profile-%d" % n, "profile", {"n": n}, witnesses=2))
    for f in ("u", "w", "Sxx", "Txz", "Szz", "principal"):
        for s in (("pst-", "skier") if tier == "quick" else ("pst-", "-pst", "vpst-", "-vpst", "skier", "skiers")):
            out.append(I("deformed-%s-%s" % (f, s), "deformed", {"field": f, "system": s}))
        out.append(I("deformed-%s-gap" % f, "deformed", {"field": f, "system": "skiers", "cols": 3, "gap": True}))
        out.append(I("deformed-%s-layers" % f, "deformed", {"field": f, "n": 2, "parts": 1 if tier == "quick" else 2}))
    for s in ("pst-", "skier"):
        out.append(I("deformed-normalized-%s" % s, "deformed", {"field": "principal", "system": s, "normalize": True}))
    return out
