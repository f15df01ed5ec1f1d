"""The through-thickness mesh covers each layer with its own properties."""
from .common import I, layers, model

BOUNDS = ("slabs of 1-3 layers (thorough 4) of up to 3 (1 layer: 10; 2 layers: thorough 6) mesh intervals per layer, of 1-5 layers of given thickness with up to 101 intervals; layering, moduli, Poisson ratio and "
          "spacing dz symbolic; named profiles")
OUTSIDE = "finer meshes of layers of unspecified thickness"
ASSUMES = []


def check(ctx, m, rows, dz, default=False):
    """rows: (rho, h, E, nu) of the layers, top to bottom."""
    z = m.get_zmesh() if default else m.get_zmesh(dz=dz)
    k = len(z)
    ctx.shape("mesh", z, (k, 4))
    h = sum(r[1] for r in rows)
    ctx.eq("starts at the top", z[0, 0], -h / 2, tol=1e-9)
    ctx.eq("ends at the bottom", z[k - 1, 0], h / 2, tol=1e-9)
    for i in range(k - 1):
        ctx.le("never decreasing", z[i, 0], z[i + 1, 0], slack=h if ctx.mode == "conc" else 0)
    # runs of points: one per layer, split where consecutive points coincide
    runs, cur = [], [0]
    for i in range(1, k):
        d = z[i, 0] - z[i - 1, 0]
        same = abs(d) <= 1e-9 * float(h) if ctx.mode == "conc" else ctx.pick(d.__eq__(0))
        if same:
            runs.append(cur)
            cur = []
        cur.append(i)
    runs.append(cur)
    ctx.true("one run of points per layer", len(runs) == len(rows))
    if len(runs) != len(rows):
        return
    top = -h / 2
    for i, (run, (rho, hi, E, nu)) in enumerate(zip(runs, rows)):
        t = "layer %d: " % i
        ctx.true(t + "both faces", len(run) >= 2)
        ctx.eq(t + "top", z[run[0], 0], top, tol=1e-9, scale=lambda: [h])
        top = top + hi
        ctx.eq(t + "bottom", z[run[-1], 0], top, tol=1e-9, scale=lambda: [h])
        for a, b in zip(run, run[1:]):
            ctx.le(t + "step at most dz", z[b, 0] - z[a, 0], dz, slack=dz if ctx.mode == "conc" else 0)
        for j in run:
            ctx.eq(t + "modulus", z[j, 1], E, tol=1e-9)
            ctx.eq(t + "Poisson ratio", z[j, 2], nu, tol=1e-9)
            ctx.eq(t + "density", z[j, 3], rho, tol=1e-9)


def mesh(ctx, n, parts):
    m, ls = model(ctx, n, wl=False, nu=True, load=False)
    dz = ctx.real("dz", (20, 200))
    for _, h in ls:
        ctx.assume(h <= parts * dz)
    rows = [(ls[i][0], ls[i][1], m.slab[i, 2], m.slab[i, 4]) for i in range(n)]
    check(ctx, m, rows, dz)


def given(ctx, n, parts=1, lens=None, dz=None):
    """Layer properties entered directly, arbitrary per layer."""
    m, ls = model(ctx, n, wl=False, param=False, load=False, lens=lens)
    fixed = dz is not None
    dz = ctx.num(dz) if fixed else ctx.real("dz", (20, 200))
    rows = []
    for i, (rho, h) in enumerate(ls):
        if not fixed:
            ctx.assume(h <= parts * dz)
        E, nu = ctx.real("El%d" % i, (1, 100)), ctx.real("nul%d" % i, (0.1, 0.4), "nonneg")
        ctx.assume(2 * nu < 1)
        m.slab[i, 2], m.slab[i, 4] = E, nu
        m.slab[i, 3] = E / (2 * (1 + nu))
        rows.append((rho, h, E, nu))
    check(ctx, m, rows, dz)


def default(ctx):
    """Default spacing: 2 mm."""
    w = ctx.weac
    h = ctx.real("h", (1, 7))
    ctx.assume(h <= 8)
    rho = ctx.real("rho", (100, 400))
    m = w.Layered("pst-", layers=[[rho, h]])
    check(ctx, m, [(rho, h, m.slab[0, 2], m.slab[0, 4])], ctx.num(2), default=True)


def named(ctx, name):
    """Three layers of 120 mm from the database, symbolic spacing."""
    m = ctx.weac.Layered("pst-", layers=name)
    dz = ctx.real("dz", (45, 130))
    ctx.assume(dz >= 40)
    s, md, hd = (180, 120, 5), (270, 120, 30), (350, 120, 93.8)
    t = {"a": (hd, md, s), "b": (s, md, hd), "c": (hd, s, hd)}[name]
    check(ctx, m, [(r[0], ctx.num(r[1]), r[2], 0.25) for r in t], dz)


def instances(tier):
    o = {"eig_patterns": ["PNpn"]}
    out = [I("one-10", "mesh", {"n": 1, "parts": 10}, opts=o),
           I("two-3", "mesh", {"n": 2, "parts": 3}, opts=o), I("three-2", "mesh", {"n": 3, "parts": 2}, opts=o),
           I("given-2", "given", {"n": 2, "parts": 2}, opts=o), I("given-3", "given", {"n": 3, "parts": 2 if tier == "quick" else 3}, opts=o),
           I("default", "default", {}, opts=o)]
    out += [I("named-%s" % k, "named", {"name": k}, opts=o) for k in "abc"]
    for t, lens, dz in (("single", [202], 2), ("thin", [41, 22.5, 7], 2), ("five", [40, 20, 70, 101, 55], 20), ("eight", [30, 5, 12, 80, 33, 60, 9, 14], 12)):
        out.append(I("fine-%s" % t, "given", {"n": len(lens), "lens": lens, "dz": dz}, opts=o))
    if tier != "quick":
        out += [I("three-3", "mesh", {"n": 3, "parts": 3}, opts=o, weight=3), I("four-2", "mesh", {"n": 4, "parts": 2}, opts=o, weight=3),
                I("two-6", "mesh", {"n": 2, "parts": 6}, opts=o, weight=3)]
    return out
