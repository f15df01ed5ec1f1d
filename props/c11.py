"""Segment lists tile the specimen and encode crack and skier."""
from .common import I, angle, model
from .c08 import stub_contact

BOUNDS = "every system; L, 0 <= a <= L, skier mass, slope, thresholds symbolic; skier lists of 1-4 segments (thorough 6) with every support pattern, of 8-14 segments with given ones"
OUTSIDE = "longer skier lists"
ASSUMES = ["contact thresholds arbitrary (C18)"]


def build(ctx, system, touchdown=False):
    m, _ = model(ctx, 1, system=system, touchdown=touchdown)
    return m


def listed(ctx, s):
    ctx.true("configurations", set(s) >= {"nocrack", "crack", "both"})
    li, mi, ki, k0 = s["both"]["li"], s["both"]["mi"], s["both"]["ki"], s["both"]["k0"]
    ctx.same("crack list", {k: s["crack"][k] for k in ("li", "mi", "ki")}, {"li": li, "mi": mi, "ki": ki})
    ctx.same("nocrack list", {k: s["nocrack"][k] for k in ("li", "mi", "ki")}, {"li": li, "mi": mi, "ki": k0})
    n = len(li)
    ctx.true("one support flag per segment", len(ki) == n and len(k0) == n)
    ctx.true("one load per inner boundary", len(mi) == n - 1)
    return n, li, mi, ki, k0


def tile(ctx, system, touchdown=False):
    m = build(ctx, system, touchdown)
    L = ctx.real("L", (2500, 12000))
    a = ctx.real("a", (100, 1500), "nonneg")
    ctx.assume(a <= L)
    mass = ctx.real("m", (10, 120), "nonneg")
    kw = dict(L=L, a=a, m=mass, phi=angle(ctx))
    if touchdown:
        kw["cf"] = ctx.real("cf", (0.05, 0.9))
        stub_contact(ctx, m, kw)
        a = kw["a"]
    s = m.calc_segments(**kw)
    n, li, mi, ki, k0 = listed(ctx, s)
    for i in range(n):
        ctx.le("length %d non-negative" % i, 0, li[i])
        ctx.true("uncracked %d supported" % i, bool(k0[i]))
    ctx.eq("total length", sum(li[i] for i in range(n)), L, tol=1e-9)
    ctx.eq("unsupported length", sum([li[i] for i in range(n) if not ki[i]], ctx.num(0)), a, scale=lambda: [L], tol=1e-9)
    # position of the crack
    x = [ctx.num(0)]
    for i in range(n):
        x.append(x[-1] + li[i])
    for i in range(n):
        if not ki[i]:
            if system in ("pst-", "vpst-"):
                ctx.le("crack at the right end", L - a, x[i], slack=1e-6)
            elif system in ("-pst", "-vpst"):
                ctx.le("crack at the left end", x[i + 1], a, slack=1e-6)
            else:
                ctx.le("crack below the skier (left)", L / 2 - a / 2, x[i], slack=1e-6)
                ctx.le("crack below the skier (right)", x[i + 1], L / 2 + a / 2, slack=1e-6)
    if system == "skier":
        ctx.eq("total load", sum(mi[i] for i in range(n - 1)), mass, tol=1e-9)
        ctx.eq("load at mid length", sum(mi[i] * x[i + 1] for i in range(n - 1)), mass * L / 2, tol=1e-9)
        for i in range(n - 1):
            ctx.le("loads at mid length only", mi[i] ** 2 * (x[i + 1] - L / 2) ** 2, 0, slack=1e-6)
    else:
        for i in range(n - 1):
            ctx.eq("no skier load", mi[i], 0)


def defaults(ctx, system):
    """Default arguments: no crack, no skier, L = 10 m; extra keywords ignored."""
    m = build(ctx, system)
    s = m.calc_segments(anything=3)
    n, li, mi, ki, k0 = listed(ctx, s)
    ctx.eq("total length", sum(li[i] for i in range(n)), 10000)
    ctx.eq("unsupported length", sum([li[i] for i in range(n) if not ki[i]], ctx.num(0)), 0)
    for i in range(n - 1):
        ctx.eq("no load", mi[i], 0)


def skiers(ctx, n, sup=None):
    m = build(ctx, "skiers")
    li = [ctx.real("l%d" % i, (300, 6000), "nonneg") for i in range(n)]
    mi = [ctx.real("m%d" % i, (0, 120), "nonneg") for i in range(n - 1)]
    ki = [ctx.boolean("k%d" % i) for i in range(n)] if sup is None else [c == "1" for c in sup]
    k0 = [True] * (n - 1) + [ctx.boolean("k0")]
    s = m.calc_segments(li=li, mi=mi, ki=ki, k0=k0, L=ctx.real("L", (2500, 6000)), a=ctx.real("a", (0, 500), "nonneg"), phi=angle(ctx))
    listed(ctx, s)
    ctx.same("passed through", {k: s["both"][k] for k in ("li", "mi", "ki", "k0")}, {"li": li, "mi": mi, "ki": ki, "k0": k0})


def contact(ctx, system):
    m = build(ctx, system, True)
    L = ctx.real("L", (2500, 6000))
    a = ctx.real("a", (200, 1500))
    ctx.assume(a < L)
    kw = dict(L=L, a=a, phi=angle(ctx), cf=ctx.real("cf", (0.3, 0.9)), ratio=ctx.real("ratio", (10, 1000)))
    stub_contact(ctx, m, kw)
    a = kw["a"]
    s = m.calc_segments(**kw)
    n, li, mi, ki, k0 = listed(ctx, s)
    ctx.eq("supported part", sum([li[i] for i in range(n) if ki[i]], ctx.num(0)), L - a, tol=1e-9)
    ctx.eq("overhanging part", sum([li[i] for i in range(n) if not ki[i]], ctx.num(0)), m.td, tol=1e-9)
    for i in range(n):
        ctx.true("uncracked %d supported" % i, bool(k0[i]))
    ctx.true("crack side", not ki[n - 1 if system == "pst-" else 0])
    ctx.true("support side", bool(ki[0 if system == "pst-" else n - 1]))


def instances(tier):
    out = [I("tile-%s" % s, "tile", {"system": s}) for s in ("pst-", "-pst", "vpst-", "-vpst", "skier")]
    out += [I("tile-%s-contact" % s, "tile", {"system": s, "touchdown": True}) for s in ("vpst-", "-vpst")]
    out += [I("default-%s" % s, "defaults", {"system": s}) for s in ("pst-", "-pst", "vpst-", "-vpst", "skier")]
    out += [I("skiers-%d" % n, "skiers", {"n": n}) for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6))]
    out += [I("skiers-%s" % k, "skiers", {"n": len(k), "sup": k}) for k in ("01011010", "11011010111101")]
    out += [I("contact-%s" % s, "contact", {"system": s}) for s in ("pst-", "-pst")]
    return out
