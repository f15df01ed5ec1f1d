"""Ill-posed requests are rejected; well-posed ones are answered."""
from .common import I, angle, model, state
from .c08 import slab, stub_contact
from .c16 import stub_stresses

BOUNDS = ("lists of 0-4 segments (thorough 5) with every support pattern and every combination of list lengths, sixteen kinds of rejected requests for the state they leave, all eight system types and two unknown ones, "
          "contact stages A-C; the listed wrong names of profiles, stress components, positions, fields, units and locations; lengths, loads, slope, "
          "stiffnesses, solution values symbolic; eigenvalue split PNpn")
OUTSIDE = "wrong value types, wrong names other than the listed ones, non-positive material parameters"
ASSUMES = ["numpy.linalg.solve returns a solution of its linear system",
           "slab stiffnesses arbitrary admissible (C01), eigenpairs arbitrary exact (C06)"]

FREE = ("pst-", "-pst", "vpst-", "-vpst", "rot", "trans")


def lists(ctx, n, nk, nm):
    li = ctx.array([ctx.real("l%d" % i, (600, 3000)) for i in range(n)])
    mi = ctx.array([ctx.real("m%d" % i, (0, 120), "nonneg") for i in range(nm)])
    ki = [ctx.boolean("k%d" % i) for i in range(nk)]
    return li, mi, ki


def ready(ctx, system):
    """A model whose contact mode is known."""
    m = slab(ctx, system)
    phi = angle(ctx)
    if system in ("pst-", "-pst"):
        m.calc_segments(L=3000, a=300, phi=phi)
    return m, phi


def patterns(ctx, system, n):
    m, phi = ready(ctx, system)
    li, mi, ki = lists(ctx, n, n, max(n - 1, 0))
    bad = not any(ki) or (system not in FREE and not (ki[0] and ki[n - 1]))
    if bad:
        ctx.raises("unsupported model", ValueError, lambda: m.assemble_and_solve(phi=phi, li=li, mi=mi, ki=ctx.np.array(ki)))
        ctx.raises("unsupported model (lists)", ValueError, lambda: m.assemble_and_solve(phi=phi, li=list(li), mi=list(mi), ki=list(ki)))
    else:
        for kind in ("array", "list"):
            A = (li, mi, ctx.np.array(ki)) if kind == "array" else (list(li), list(mi), list(ki))
            C = m.assemble_and_solve(phi=phi, li=A[0], mi=A[1], ki=A[2])
            ctx.true("constants (%s)" % kind, C.shape[0] == 6 and C.shape[1] >= n)
            ctx.true("lists stay as they were (%s)" % kind, len(A[0]) == n and len(A[1]) == n - 1 and len(A[2]) == n)


def lengths(ctx, system, top):
    m, phi = ready(ctx, system)
    for n in range(1, top + 1):
        for nk in range(1, top + 1):
            for nm in range(0, top + 1):
                if n == nk == nm + 1:
                    continue
                li = ctx.array([ctx.real("l%d" % i, (600, 3000)) for i in range(n)])
                mi = [ctx.real("m%d" % i, (0, 120), "nonneg") for i in range(nm)]
                ctx.raises("%d lengths, %d supports, %d loads" % (n, nk, nm), ValueError,
                           lambda: m.assemble_and_solve(phi=phi, li=li, mi=mi, ki=[True] * nk))
                ctx.raises("%d lengths, %d supports, %d loads" % (n, nk, nm), ValueError,
                           lambda: m.assemble_and_solve(phi=phi, li=list(li), mi=mi, ki=[True] + [False] * (nk - 2) + [True] * (nk > 1)))


def unknown(ctx, system):
    m = slab(ctx, system)
    phi = angle(ctx)
    L, a, mass = ctx.real("L", (8000, 12000)), ctx.real("a", (200, 1500)), ctx.real("m", (0, 120), "nonneg")
    ctx.assume(a < L)
    li, mi, ki = lists(ctx, 2, 2, 1)
    ctx.raises("segments of an unknown system", ValueError, lambda: m.calc_segments(L=L, a=a, m=mass, phi=phi))
    ctx.raises("segments of an unknown system", ValueError, lambda: m.calc_segments(li=li, mi=mi, ki=ki, k0=[True, True], phi=phi))
    ctx.raises("solving an unknown system", ValueError, lambda: m.assemble_and_solve(phi=phi, li=li, mi=mi, ki=ki))
    ctx.raises("end conditions of an unknown system", ValueError, lambda: m.bc(state(ctx), k=True, pos="l"))


def answered(ctx, system, touchdown=False):
    m = slab(ctx, system, touchdown)
    phi = angle(ctx)
    L = ctx.real("L", (2500, 6000))
    a = ctx.real("a", (200, 1500), "nonneg")
    ctx.assume(a < L)
    if touchdown:
        stub_contact(ctx, m)
    if system == "skiers":
        li = [ctx.real("l%d" % i, (600, 3000)) for i in range(3)]
        mi = [ctx.real("m%d" % i, (0, 120), "nonneg") for i in range(2)]
        s = m.calc_segments(li=li, mi=mi, ki=[True, False, True], k0=[True] * 3, L=L, a=a, phi=phi)
    else:
        s = m.calc_segments(L=L, a=a, m=ctx.real("m", (0, 120), "nonneg"), phi=phi)
    g = s["crack"]
    C = m.assemble_and_solve(phi=phi, **g)
    ctx.shape("constants", C, (6, len(g["li"])))
    if not touchdown and system in ("pst-", "skiers"):
        xsl, z, xwl = m.rasterize_solution(C=C, phi=phi, num=8, **g)
        ctx.true("solution", z.shape == (6, len(xsl)) and len(xsl) == len(xwl))


def names(ctx):
    w = ctx.weac
    t = ctx.mod("weac.tools")
    for p in ("a", "F", "soft", "HARD", "comp", "Medium"):
        layers, E = t.load_dummy_profile(p)
        ctx.true("known profile %s" % p, len(layers) == len(E) > 0)
    for p in ("g", "x", "", "sof", "ab", "layered"):
        ctx.raises("profile '%s'" % p, ValueError, lambda: t.load_dummy_profile(p))
        if p:
            ctx.raises("layers '%s'" % p, ValueError, lambda: w.Layered("skier", layers=p))
        if p:
            ctx.raises("beam '%s'" % p, ValueError, lambda: w.Layered("skier").set_beam_properties(p, update=True))
    m, ls = model(ctx, 1, param=False)
    ctx.assume(ls[0][1] <= 1000)
    phi = angle(ctx)
    z = state(ctx, 2)
    a = dict(phi=phi, dz=1000)
    z1 = z[:, [0]]
    for k in (True, False):
        for p, n in (("l", 9), ("left", 9), ("r", 9), ("right", 9), ("m", 12), ("mid", 12)):
            m.mode = "A"
            ctx.true("position %s" % p, len(m.eqs(z1, z1, k=k, pos=p)) == n)
        for p in ("top", "", "x", "middle", "center", "L"):
            ctx.raises("position '%s'" % p, ValueError, lambda: m.eqs(z1, z1, k=k, pos=p))
    x = ctx.array([0, 1])
    for u in ("furlong", "", "Pa", "mm2"):
        bad = (KeyError, ValueError)
        for f in ("w", "sig", "tau", "Gi", "Gii"):
            ctx.raises("%s in %s" % (f, u), bad, lambda: getattr(m, f)(z, unit=u))
        ctx.raises("u in %s" % u, bad, lambda: m.u(z, z0=0, unit=u))
        for f in ("Sxx", "Txz", "Szz"):
            ctx.raises("%s in %s" % (f, u), bad, lambda: getattr(m, f)(z, unit=u, **a))
        for f in ("get_weaklayer_shearstress", "get_weaklayer_normalstress", "get_slab_displacement", "get_slab_deflection"):
            ctx.raises("%s in %s" % (f, u), bad, lambda: getattr(m, f)(x, z, unit=u))
    for l in ("topp", "", "center", "t", "Top"):
        ctx.raises("location %s" % l, (KeyError, ValueError), lambda: m.get_slab_displacement(x, z, loc=l))
    p = ctx.mod("weac.plot")
    for f in ("principle", "", "U", "sxx", "Sxz", "stress"):
        ctx.raises("plot field '%s'" % f, ValueError, lambda: p.deformed(m, x, x, 0 * z, phi, field=f, dz=1000, window=1e6))


def kept(ctx, system):
    """A rejected request changes nothing: not the model, not its arguments,
    and later requests are answered as if it had not been made."""
    from .c20 import copy, snap, unchanged
    w = ctx.weac
    m, ls = model(ctx, 1, system=system, param=False)
    ctx.assume(ls[0][1] <= 1000)
    phi = angle(ctx)
    if system in ("pst-", "-pst"):
        m.calc_segments(L=3000, a=300, phi=phi)
    before = snap(m)
    z = state(ctx, 2)
    x = ctx.array([0, 1])
    args = {"z": z, "x": x}
    l = [ctx.real("l%d" % i, (600, 3000)) for i in range(3)]
    a = dict(phi=phi, dz=1000)
    bad = (KeyError, ValueError)
    asks = {
        "unsupported": lambda k: m.assemble_and_solve(phi=phi, li=k(l), mi=k([1, 2]), ki=k([False] * 3)),
        "two loads too many": lambda k: m.assemble_and_solve(phi=phi, li=k(l), mi=k([1, 2, 3, 4]), ki=k([True] * 3)),
        "too few supports": lambda k: m.assemble_and_solve(phi=phi, li=k(l), mi=k([1, 2]), ki=k([True] * 2)),
        "no loads": lambda k: m.assemble_and_solve(phi=phi, li=k(l), mi=k([]), ki=k([True] * 3)),
        "profile": lambda k: m.set_beam_properties("no such profile", update=True),
        "profile, fitted": lambda k: m.set_beam_properties("q", C0=ctx.num(5), C1=ctx.num(4), nu=ctx.num(0.2)),
        "position": lambda k: m.eqs(z[:, [0]], z[:, [1]], k=True, pos="top"),
        "unit of w": lambda k: m.w(z, unit="furlong"),
        "unit of sig": lambda k: m.sig(z, unit="furlong"),
        "unit of Gi": lambda k: m.Gi(z, unit="furlong"),
        "unit of Sxx": lambda k: m.Sxx(z, unit="furlong", **a),
        "unit of stresses": lambda k: m.get_weaklayer_shearstress(x, z, unit="furlong"),
        "location": lambda k: m.get_slab_displacement(x, z, loc="bottommost"),
        "component": lambda k: m.principal_stress_weaklayer(z, val="mid"),
        "slab component": lambda k: m.principal_stress_slab(z, val="mid", **a),
        "normalized tension": lambda k: m.principal_stress_weaklayer(z, val="max", normalize=True),
    }
    if system in ("skier", "skiers"):
        asks["free end"] = lambda k: m.assemble_and_solve(phi=phi, li=k(l), mi=k([1, 2]), ki=k([True, True, False]))
    held = copy(args)
    for name, f in asks.items():
        for k in (list, ctx.np.array):
            ctx.raises(name, bad, lambda: f(k))
        unchanged(ctx, m, before, "after %s: " % name)
    ctx.same("arguments", copy(args), held)
    ctx.same("user's layers", ls, m.slab[:, :2].tolist() if hasattr(m.slab, "tolist") else ls)
    r = w.Layered(system, layers=ls)
    r.set_foundation_properties(t=m.t, E=m.weak["E"], nu=m.weak["nu"], update=True)
    r.set_surface_load(m.p)
    ctx.same("system matrix of a new model", m.calc_system_matrix(), r.calc_system_matrix())
    ctx.same("load vector of a new model", m.get_load_vector(phi), r.get_load_vector(phi))


def components(ctx):
    m, ls = model(ctx, 1, param=False)
    ctx.assume(ls[0][1] <= 1000)
    phi = angle(ctx)
    z = state(ctx, 1)
    a = dict(phi=phi, dz=1000)
    stub_stresses(ctx, m)
    if ctx.mode == "sym":
        sig, tau = ctx.e.fresh("sig", "pos"), ctx.e.fresh("tau", "pos")
        m.sig = lambda Z, unit="MPa": ctx.array([sig])
        m.tau = lambda Z, unit="MPa": ctx.array([tau])
    for v in ("max", "min"):
        ctx.true("known component", m.principal_stress_slab(z, val=v, **a).shape[1] == 1)
        ctx.true("known component", m.principal_stress_weaklayer(z, val=v).shape[-1] == 1)
    ctx.true("tension normalized", m.principal_stress_slab(z, val="max", normalize=True, **a).shape[1] == 1)
    ctx.true("compression normalized", m.principal_stress_weaklayer(z, val="min", normalize=True).shape[-1] == 1)
    for v in ("mid", "", "Max", "maxmin", "in", "MIN", None, 1):
        for norm in (False, True):
            ctx.raises("slab component %s" % v, ValueError, lambda: m.principal_stress_slab(z, val=v, normalize=norm, **a))
            ctx.raises("weak-layer component %s" % v, ValueError, lambda: m.principal_stress_weaklayer(z, val=v, normalize=norm))
    for u in ("kPa", "MPa"):
        ctx.raises("normalized compression (slab)", ValueError, lambda: m.principal_stress_slab(z, val="min", normalize=True, unit=u, **a))
        ctx.raises("normalized tension (weak layer)", ValueError, lambda: m.principal_stress_weaklayer(z, val="max", normalize=True, unit=u))


def instances(tier):
    out = [I("names", "names", witnesses=2), I("components", "components", witnesses=2)]
    top = 4 if tier == "quick" else 5
    o = {"eig_patterns": ["PNpn"]}
    for s in ("skier", "skiers", "pst-", "-vpst", "-pst", "vpst-", "rot", "trans"):
        for n in range(0, 4 if s != "skiers" else top + 1):
            out.append(I("patterns-%s-%d" % (s, n), "patterns", {"system": s, "n": n}, opts=o, weight=n))
    for s in ("skier", "skiers", "pst-", "-vpst", "rot", "trans"):
        out.append(I("lengths-%s" % s, "lengths", {"system": s, "top": top}, opts=o, witnesses=2))
    for s in ("foo", "pst", "Skier", ""):
        out.append(I("unknown-%s" % s, "unknown", {"system": s}, opts=o))
    for s in ("skier", "skiers", "pst-", "-vpst"):
        out.append(I("kept-%s" % s, "kept", {"system": s}, opts=o, witnesses=2))
    for s in ("skier", "skiers", "pst-", "-pst", "vpst-", "-vpst"):
        out.append(I("answered-%s" % s, "answered", {"system": s}, opts=o, weight=2))
    for s in ("pst-", "-pst"):
        out.append(I("contact-%s" % s, "answered", {"system": s, "touchdown": True}, opts=o, weight=2))
    return out
