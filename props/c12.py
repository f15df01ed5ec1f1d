"""Rasterised solutions."""
from .common import I, angle, model
from .c08 import slab

BOUNDS = ("2-3 segments (thorough 4) of symbolic length (zero included) with every support pattern, sampling densities num = 1..3 (thorough 5) "
          "with every resulting split of the samples, 1-7 segments of given lengths with num = 20, 30, 100 and the default; constants, slope, stiffnesses symbolic; eigenvalue splits PPPNNN and PNpn")
OUTSIDE = "finer sampling of segments of unspecified length"
ASSUMES = ["slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06)"]


def raster(ctx, n, num, zero=False, ki=None, lens=None):
    m = slab(ctx, "skiers")
    phi = angle(ctx)
    ki = [ctx.boolean("k%d" % i) for i in range(n)] if ki is None else ki
    if lens is None:
        li = [ctx.real("l%d" % i, (300, 2000), "nonneg" if zero and i > 0 else "pos") for i in range(n)]
    else:
        li = [ctx.num(v) for v in lens]
    C = ctx.array([[ctx.real("C%d_%d" % (i, j), (-1, 1), "any") for j in range(n)] for i in range(6)])
    C0, li0, ki0 = C.copy(), ctx.array(li), list(ki)
    kia = ctx.np.array(ki)
    lia = ctx.array(li)
    x, z, xb = m.rasterize_solution(C=C, phi=phi, li=lia, ki=kia, mi=0, k0=0, **({} if num is None else {"num": num}))
    ctx.same("arguments kept", {"C": C, "li": lia, "ki": kia}, {"C": C0, "li": li0, "ki": ki0})
    use = [i for i in range(n) if ctx.pick(li[i] > 0)]
    pos = [ctx.num(0)]
    for i in use:
        pos.append(pos[-1] + li[i])
    L = pos[-1]

    def at(a, b):
        if ctx.mode == "conc":
            return abs(a - b) <= 1e-9 * float(L)
        return ctx.pick((a - b).__eq__(0))
    N = len(x)
    ctx.shape("solution", z, (6, N))
    ctx.shape("supported coordinates", xb, (N,))
    ctx.eq("starts at 0", x[0], 0)
    ctx.eq("ends at the total length", x[N - 1], L)
    for j in range(N - 1):
        ctx.le("ordered", x[j], x[j + 1], slack=1.0)
    # segment of each sample; a boundary sample belongs to the right segment
    own = []
    for j in range(N):
        on = [b for b in range(len(pos)) if at(x[j], pos[b])]
        if on:
            b = on[0]
            own.append((b, True))
        else:
            s = [i for i in range(len(use)) if ctx.pick(pos[i] < x[j]) and ctx.pick(x[j] < pos[i + 1])]
            ctx.true("inside one segment", len(s) == 1)
            own.append((s[0], False))
    for b in range(len(pos)):
        ctx.true("boundary %d sampled" % b, any(o == (b, True) for o in own))
    for j, (s, bd) in enumerate(own):
        last = bd and s == len(use)
        i = use[s - 1 if last else s]
        xl = li[i] if last else x[j] - pos[s]
        ctx.eq("solution at sample", z[:, [j]], m.z(xl, C[:, [i]], li[i], phi, bed=ki[i]), tol=1e-7,
               scale=lambda: [abs(v) for v in z[:, j]] if bd else [0])
        sup = ki[i]
        if bd and not sup and 0 < s < len(use):
            sup = ki[use[s - 1]]
        if sup:
            ctx.true("supported sample", not ctx.isnan(xb[j]))
            ctx.eq("supported coordinate", xb[j], x[j])
        else:
            ctx.true("unsupported sample", bool(ctx.isnan(xb[j])))


def instances(tier):
    out = []
    for num in (1, 2, 3):
        out.append(I("two-%d" % num, "raster", {"n": 2, "num": num}, opts={"eig_patterns": ["PPPNNN" if num == 2 else "PNpn"]}, weight=2))
    out.append(I("zero-2", "raster", {"n": 2, "num": 2, "zero": True}, opts={"eig_patterns": ["PNpn"]}, weight=2))
    for a in (True, False):
        for b in (True, False):
            for c in (True, False):
                k = [a, b, c]
                t = "".join("sf"[not v] for v in k)
                out.append(I("three-%s" % t, "raster", {"n": 3, "num": 2 if tier == "quick" else 3, "zero": True, "ki": k},
                             opts={"eig_patterns": ["PNpn"]}, weight=3))
    out.append(I("one", "raster", {"n": 1, "num": 3}, opts={"eig_patterns": ["PPPNNN"]}))
    given = [("s", 20, [1500]), ("sfs", 20, [1000, 300, 2000]), ("sffss", 30, [1000, 300, 200, 500, 0.5]), ("sf", None, [1000.5, 300.25]),
             ("fsfsfs", 100, [250, 250, 250, 250, 250, 250]), ("ssffs", None, [900, 0, 33.3, 0, 1200])]
    if tier != "quick":
        given += [("sfsfsfs", None, [1000, 1, 1000, 2, 1000, 3, 1000]), ("fs", 1000, [10, 25000]), ("sssf", 77, [0.1, 300, 200, 0.1])]
    for k, num, lens in given:
        out.append(I("given-%s-%s" % (k, num), "raster", {"n": len(k), "num": num, "ki": [c == "s" for c in k], "lens": lens},
                     opts={"eig_patterns": ["PNpn"]}, weight=2))
    if tier != "quick":
        out.append(I("two-5", "raster", {"n": 2, "num": 5}, opts={"eig_patterns": ["PNpn"]}, weight=4))
        out.append(I("four-sfsf", "raster", {"n": 4, "num": 2, "ki": [True, False, True, False]}, opts={"eig_patterns": ["PNpn"]}, weight=5))
        out.append(I("four-sffs", "raster", {"n": 4, "num": 3, "ki": [True, False, False, True]}, opts={"eig_patterns": ["PNpn"]}, weight=5))
    return out
