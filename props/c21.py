"""Equivalent inputs and entry points give the same model."""
from .common import I, angle, layers, state
from .c08 import slab
from .c20 import behaviour, copy, snap, unchanged

BOUNDS = ("profiles of 1-3 and 6 layers in every container form, all properties symbolic; every system type for the inverse model, with segments, "
          "solution, energy release rates, stresses and outputs; touchdown helper for every input form")
OUTSIDE = "profiles with more layers"
ASSUMES = ["numpy.linalg.eig, numpy.linalg.solve are functions of their arguments",
           "touchdown helper: the contact lengths are functions of the model's stiffnesses, loads, geometry and foundation (C18 decides which)"]

SYSTEMS = ("pst-", "-pst", "vpst-", "-vpst", "skier", "skiers")


def forms(ctx, ls):
    """The same profile in every supported container."""
    return {"list": [list(r) for r in ls], "tuple of tuples": tuple(tuple(r) for r in ls), "list of tuples": [tuple(r) for r in ls],
            "array": ctx.array(ls), "list of arrays": [ctx.array(r) for r in ls]}


def containers(ctx, n):
    w = ctx.weac
    phi = angle(ctx)
    ls = layers(ctx, n)
    ref = w.Layered("pst-", layers=[list(r) for r in ls])
    up = w.Layered("pst-")
    C0, C1, E = ctx.real("C0", (3, 10)), ctx.real("C1", (3.5, 5)), ctx.real("Ew", (0.05, 2))
    up.set_foundation_properties(E=E)
    up.set_beam_properties([list(r) for r in ls], C0=C0, C1=C1, update=True)
    r = snap(ref)
    for f, v in forms(ctx, ls).items():
        a = w.Layered("pst-", layers=v)
        unchanged(ctx, a, r, f + " at construction: ")
        b = w.Layered("pst-")
        b.set_beam_properties(v, update=True)
        unchanged(ctx, b, r, f + " set later: ")
        c = w.Inverse("pst-", layers=v, parameters=(C0, C1, E))
        unchanged(ctx, c, snap(up), f + " for the inverse model: ")
    behaviour(ctx, a, ref, phi)


def defaults(ctx):
    w = ctx.weac
    phi = angle(ctx)
    ref = w.Layered("pst-", layers=[[240, 200]])
    behaviour(ctx, w.Layered(), ref, phi)
    behaviour(ctx, w.Layered("pst-", layers=None), ref, phi)
    behaviour(ctx, w.Layered(system="pst-", touchdown=False), ref, phi)
    p = (ctx.real("C0", (3, 10)), ctx.real("C1", (3.5, 5)), ctx.real("Ew", (0.05, 2)))
    behaviour(ctx, w.Inverse(parameters=p), w.Inverse("pst-", layers=[[240, 200]], parameters=p), phi)
    ref.set_foundation_properties(E=0.25)
    ref.set_beam_properties([[240, 200]], C0=6.0, C1=4.6, update=True)
    behaviour(ctx, w.Inverse(), ref, phi)


def named(ctx):
    """Profiles of the database."""
    w = ctx.weac
    s, md, hd = (180, 120, 5), (270, 120, 30), (350, 120, 93.8)
    table = {"a": (hd, md, s), "b": (s, md, hd), "c": (hd, s, hd), "d": (s, hd, s), "e": (hd, s, s), "f": (s, s, hd), "h": (md, md, md),
             "soft": (s, s, s), "medium": (md, md, md), "hard": (hd, hd, hd), "comp": ((240, 200, 5.23),)}
    nu = ctx.real("nu", (0.1, 0.4), "nonneg")
    ctx.assume(2 * nu < 1)
    for k, rows in table.items():
        for name in (k, k.upper(), "profile " + k):
            m = w.Layered("pst-", layers=name)
            m.set_beam_properties(name, nu=nu, update=True)
            e = [[ctx.num(r[0]), ctx.num(r[1]), ctx.num(r[2]), ctx.num(r[2]) / (2 * (1 + nu)), nu] for r in rows]
            ctx.shape("rows of " + name, m.slab, (len(rows), 5))
            ctx.eq("slab of " + name, m.slab, ctx.array(e), tol=1e-9)


def inverse(ctx, system, n=1):
    w = ctx.weac
    phi = angle(ctx)
    ls = layers(ctx, n)
    C0, C1, E = ctx.real("C0", (3, 10)), ctx.real("C1", (3.5, 5)), ctx.real("Ew", (0.05, 2))
    inv = w.Inverse(system, layers=ls, parameters=(C0, C1, E))
    std = w.Layered(system, layers=ls)
    std.set_foundation_properties(E=E)
    std.set_beam_properties(ls, C0=C0, C1=C1, update=True)
    p = ctx.real("p", (0, 2e-3), "nonneg")
    for m in (inv, std):
        m.set_surface_load(p)
    unchanged(ctx, inv, snap(std), "model ")
    L = ctx.real("L", (2500, 6000))
    a = ctx.real("a", (200, 1500))
    ctx.assume(a < L)
    ms = ctx.real("m", (10, 120))
    kw = dict(L=L, a=a, m=ms, phi=phi, cf=ctx.real("cf", (0.3, 0.9)), ratio=ctx.real("ratio", (10, 1000)))
    if system == "skiers":
        kw.update(li=ctx.array([L, a, L]), mi=ctx.array([ms, ctx.num(0)]), ki=ctx.np.array([True, False, True]), k0=ctx.np.array([True, True, True]))
    s = inv.calc_segments(**kw)
    ctx.same("segments", s, std.calc_segments(**kw))
    for st in ("nocrack", "crack"):
        g = s[st]
        A, B = inv.assemble_and_solve(phi=phi, **g), std.assemble_and_solve(phi=phi, **g)
        ctx.eq("solution " + st, A, B, tol=1e-9)
    ctx.same("differential rate", inv.gdif(A, phi, **g), std.gdif(A, phi, **g))
    C0_ = inv.assemble_and_solve(phi=phi, **s["nocrack"])
    ctx.same("incremental rate", inv.ginc(C0_, A, phi, **s["both"]), std.ginc(C0_, A, phi, **s["both"]))
    if system == "pst-":
        outputs(ctx, inv, std, ls, phi)


def outputs(ctx, inv, std, ls, phi):
    """Fields, stresses and outputs of an arbitrary state."""
    Z = state(ctx, 2)
    x = ctx.array([ctx.real("x0", (0, 3000), "nonneg"), ctx.real("x1", (0, 3000), "nonneg")])
    for f in ("w", "dw_dx", "psi", "dpsi_dx", "N", "M", "V", "sig", "tau", "eps", "gamma", "Gi", "Gii"):
        ctx.same(f, getattr(inv, f)(Z), getattr(std, f)(Z))
    for f in ("u", "du_dx"):
        ctx.same(f, getattr(inv, f)(Z, z0=ls[0][1]), getattr(std, f)(Z, z0=ls[0][1]))
    for f in ("get_slab_displacement", "get_slab_deflection", "get_slab_rotation", "get_weaklayer_shearstress", "get_weaklayer_normalstress"):
        ctx.same(f, copy(getattr(inv, f)(x, Z)), copy(getattr(std, f)(x, Z)))
    ctx.same("weak-layer principal stress", inv.principal_stress_weaklayer(Z), std.principal_stress_weaklayer(Z))


def contact(ctx, m=None):
    """Symbolic run: contact lengths as functions of everything they may read."""
    if ctx.mode == "conc":
        return
    from symx import sym as S
    memo = ctx.e.memo

    def f(name, extra=()):
        def g(self, *a, **k):
            key = (name,) + tuple(S.lift(v).r.key() for v in [getattr(self, x) for x in ("L", "tc", "A11", "B11", "D11", "kA55", "kn", "kt", "t", "h", "zs", "p") + extra]
                                  + [self.calc_qn(), self.calc_qt()])
            if key not in memo:
                memo[key] = ctx.e.fresh("%s_%d" % (name, sum(1 for x in memo if isinstance(x, tuple) and x[0] == name)), "pos")
            return memo[key]
        return g
    cls = ctx.weac.Layered
    cls.calc_a1, cls.calc_a2 = f("fa1"), f("fa2")
    cls.calc_lC = f("flC", ("a", "ratio"))


def helper(ctx, form):
    """touchdown_distance against the model it stands for."""
    w = ctx.weac
    contact(ctx)
    phi = angle(ctx)
    tools = ctx.mod("weac.tools")
    ls = layers(ctx, 2) if form not in ("none", "omitted", "default") else [[240, 200]]
    if form == "default":
        kw = {}
        C0, C1, E, t, phi = 6.5, 4.4, 0.25, 10, 0
    else:
        C0, C1, E, t = ctx.real("C0", (3, 10)), ctx.real("C1", (3.5, 5)), ctx.real("Ew", (0.05, 2)), ctx.real("t", (5, 60))
        kw = dict(C0=C0, C1=C1, Ewl=E, t=t, phi=phi)
    if form not in ("omitted", "default"):
        kw["layers"] = None if form == "none" else forms(ctx, ls)[form]
    got = tools.touchdown_distance(**kw)
    m = w.Layered("pst-", layers=[list(r) for r in ls], touchdown=True)
    m.set_foundation_properties(t=t, E=E)
    m.set_beam_properties([list(r) for r in ls], C0=C0, C1=C1, update=True)
    m.calc_segments(L=1e5, a=0, phi=phi)
    a1, a2 = m.calc_a1(), m.calc_a2()
    m.calc_segments(L=1e5, a=5 * a1, phi=phi)
    lc = m.calc_lC()
    ctx.eq("first contact", got[0], a1, tol=1e-6)
    ctx.eq("full contact", got[1], a2, tol=1e-6)
    ctx.eq("steady-state touchdown distance", got[2], lc, tol=1e-6)
    ctx.true("three lengths", len(got) == 3)


def seq(ctx, kind, v):
    return ctx.np.array(v) if kind == "array" else tuple(v) if kind == "tuple" else list(v)


def numbers(ctx, system, kind):
    """Whole numbers given as ints are the same numbers; segment lists may
    come in any sequence type."""
    phi = angle(ctx)

    def build(c):
        m = slab(ctx, system)
        m.set_surface_load(c(0))
        kw = dict(L=c(8400), a=c(300), m=c(80), phi=phi)
        if system == "skiers":
            kw.update(li=[c(4100), c(300), c(4000)], mi=[c(80), c(0)], ki=[True, False, True], k0=[True, True, True])
            if c is int:
                kw.update({k: seq(ctx, kind, kw[k]) for k in ("li", "mi", "ki", "k0")})
            else:
                kw.update({k: ctx.np.array(kw[k]) for k in ("li", "mi", "ki", "k0")})
        s = m.calc_segments(**kw)
        out = []
        for st in ("nocrack", "crack"):
            g = dict(s[st])
            if c is int:
                g.update({k: seq(ctx, kind, g[k]) for k in ("li", "mi", "ki")})
            C = m.assemble_and_solve(phi=phi, **g)
            out.append(C)
            g.update(li=ctx.np.array(g["li"]), ki=ctx.np.array(g["ki"]))
            x, z, xs = m.rasterize_solution(C=C, phi=phi, num=8, **g)
            out += [x, z, xs, m.gdif(C, phi, **g)]
            for bed in (True, False):
                out += [m.z(c(0), C[:, [0]], c(4100), phi, bed=bed), m.z(c(100), C[:, [0]], c(4100), phi, bed=bed),
                        m.z([c(0), c(100)], C[:, [0]], c(4100), phi, bed=bed), m.z(ctx.np.array([c(0), c(100)]), C[:, [0]], c(4100), phi, bed=bed)]
        out.append(m.ginc(out[0], C, phi, **s["both"]))
        w = z[:, :2]
        for z0 in (c(0), c(40), c(-40)):
            out += [m.u(w, z0), m.du_dx(w, z0)]
        X = ctx.np.array([c(0), c(5)])
        for f in ("get_slab_displacement", "get_slab_deflection", "get_slab_rotation", "get_weaklayer_shearstress", "get_weaklayer_normalstress"):
            out.append(copy(getattr(m, f)(X, w)))
        out += [m.get_weight_load(phi)[0], m.get_skier_load(c(80), phi)[0]]
        return out
    A, B = build(int), build(float)
    for i, (p, q) in enumerate(zip(A, B)):
        ctx.same("result %d" % i, p, q)


def positions(ctx, system, mode="A"):
    """Short and long names of the position of a segment, default "mid"."""
    m = slab(ctx, system, mode != "A")
    z = state(ctx, 2)
    zl, zr = z[:, [0]], z[:, [1]]
    m.mode = mode
    if mode != "A":
        a, td, kR = ctx.real("a", (500, 1500)), ctx.real("td", (100, 400)), ctx.real("kR", (1e5, 1e7))
        m.a, m.td = a, td
        m.substitute_stiffness = lambda l, support="rested", dof="rot": kR
    for k in (True, False):
        for p, q in (("l", "left"), ("r", "right"), ("m", "mid")):
            ctx.same("equations at %s" % q, m.eqs(zl, zr, k=k, pos=p), m.eqs(zl, zr, k=k, pos=q))
            if p != "m":
                ctx.same("boundary conditions at %s" % q, m.bc(zl, k=k, pos=p), m.bc(zl, k=k, pos=q))
        ctx.same("equations by default", m.eqs(zl, zr, k=k), m.eqs(zl, zr, k=k, pos="mid"))
    ctx.same("unsupported by default", m.eqs(zl, zr, pos="l"), m.eqs(zl, zr, k=False, pos="left"))


def layering(ctx):
    """Layers, foundation, mesh and stresses from ints."""
    w = ctx.weac
    phi = angle(ctx)
    z = state(ctx, 2)

    def build(c):
        ls = [[c(240), c(200)], [c(180), c(100)]]
        m = w.Layered("pst-", layers=ls)
        m.set_foundation_properties(t=c(30), E=c(1), update=True)
        # exact powers of whole densities are out of the solver's reach
        m.slab = ctx.array([[r[0], r[1], ctx.num(8) + i, ctx.num(3) + i, ctx.num(0.25)] for i, r in enumerate(m.slab)])
        m.calc_laminate_stiffness_matrix() if hasattr(m, "calc_laminate_stiffness_matrix") else None
        out = [m.kn, m.kt, m.h, m.zs, m.A11, m.B11, m.D11, m.kA55]
        for dz in (c(20), c(30)):
            q = m.get_zmesh(dz=dz)
            out += [q[k] for k in sorted(q)] if isinstance(q, dict) else [q]
            out += [m.Sxx(z, phi, dz=dz), m.Txz(z, phi, dz=dz), m.Szz(z, phi, dz=dz)]
        return out
    A, B = build(int), build(float)
    for i, (p, q) in enumerate(zip(A, B)):
        ctx.same("result %d" % i, p, q)


def instances(tier):
    o = {"eig_patterns": ["PNpn"]}
    out = [I("containers-%d" % n, "containers", {"n": n}, opts=o) for n in ((1, 2, 3, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 9))]
    out += [I("defaults", "defaults", {}, opts=o), I("named", "named", {}, opts=o)]
    for s in SYSTEMS:
        out.append(I("inverse-%s" % s, "inverse", {"system": s}, opts=o, weight=2))
    for f in ("none", "omitted", "default", "list", "tuple of tuples", "list of tuples", "array", "list of arrays"):
        out.append(I("helper-%s" % f.replace(" ", "_"), "helper", {"form": f}, opts=o))
    for s in ("skier", "pst-", "-vpst"):
        out.append(I("numbers-%s" % s, "numbers", {"system": s, "kind": "list"}, opts=o, weight=2))
    for k in ("list", "tuple", "array"):
        out.append(I("numbers-skiers-%s" % k, "numbers", {"system": "skiers", "kind": k}, opts=o, weight=2))
    for s in SYSTEMS:
        out.append(I("positions-%s" % s, "positions", {"system": s}, opts=o))
    for s in ("pst-", "-pst"):
        for k in "BC":
            out.append(I("positions-%s-%s" % (s, k), "positions", {"system": s, "mode": k}, opts=o))
    out.append(I("layering", "layering", {}, opts=o, weight=2))
    return out
