"""Results depend on current inputs only; queries do not disturb the model."""
from .common import I, angle, layers, model
from .c08 import slab, stub_contact
from .c18 import slab_attributes, stub_springs

BOUNDS = ("histories of up to 5 property changes and queries listed in the instances, every public query twice on models of every system type; "
          "one input changed after full use (3 layers; 22 inputs); "
          "layerings of 1-2 layers, all properties, slopes, lengths, cracks, constants symbolic")
OUTSIDE = "longer histories; failed calls in between (C24)"
ASSUMES = ["numpy.linalg.eig, numpy.linalg.solve and scipy.optimize.brentq are functions of their arguments",
           "contact histories: substitute springs depend on length, support and direction only (C18)"]

ATTRS = ("g", "lski", "tol", "system", "weak", "t", "kn", "kt", "p", "slab", "k", "h", "zs", "A11", "B11", "D11", "kA55", "K0",
         "ewC", "ewR", "evC", "evR", "sC", "sR", "touchdown")


def copy(v):
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and any(hasattr(x, "shape") or isinstance(x, dict) for x in v):
        return {i: copy(x) for i, x in enumerate(v)}
    if isinstance(v, (list, tuple)):
        return [copy(x) for x in v]
    return v.copy() if hasattr(v, "copy") else v


def snap(m):
    return {a: copy(getattr(m, a)) for a in ATTRS if hasattr(m, a)}


def split(ctx, v):
    """Complex arrays as pairs of real ones."""
    if ctx.mode == "conc" and getattr(getattr(v, "dtype", None), "kind", "") == "c":
        return [v.real, v.imag]
    return v


def unchanged(ctx, m, before, tag=""):
    after = snap(m)
    for a in before:
        x, y = split(ctx, after.get(a)), split(ctx, before[a])
        if isinstance(y, list) and len(y) == 2 and ctx.mode == "conc" and hasattr(y[0], "shape"):
            for p, q in zip(x, y):
                ctx.same(tag + a, p, q)
        else:
            ctx.same(tag + a, x, y)


def behaviour(ctx, m, r, phi):
    """Both models answer alike."""
    unchanged(ctx, m, snap(r), "model ")
    ctx.same("system matrix", m.calc_system_matrix(), r.calc_system_matrix())
    ctx.same("load vector", m.get_load_vector(phi), r.get_load_vector(phi))
    for f in ("get_weight_load", "get_surface_load"):
        ctx.same(f, list(getattr(m, f)(phi)), list(getattr(r, f)(phi)))
    C = ctx.array([[ctx.real("C%d" % i, (-1, 1), "any")] for i in range(6)])
    l, x = ctx.real("l", (200, 2000)), ctx.real("x", (0, 200), "nonneg")
    for bed in (True, False):
        ctx.same("field", m.z(x, C, l, phi, bed=bed), r.z(x, C, l, phi, bed=bed))
    z = r.z(x, C, l, phi, bed=True)
    for f in ("N", "M", "V", "sig", "tau", "eps", "gamma", "Gi", "Gii"):
        ctx.same(f, getattr(m, f)(z), getattr(r, f)(z))


def history(ctx, ops, final="PNpn"):
    w = ctx.weac
    phi = angle(ctx)
    val = {}

    def get(k):
        if k not in val:
            if k[0] == "B":
                n = 2 if k[1] == "2" else 1
                nu = ctx.real("nu" + k, (0.1, 0.4), "nonneg")
                ctx.assume(2 * nu < 1)
                val[k] = (layers(ctx, n, k), dict(C0=ctx.real("C0" + k, (3, 10)), C1=ctx.real("C1" + k, (3.5, 5)), nu=nu))
            elif k[0] == "F":
                nu = ctx.real("nuw" + k, (0.05, 0.4), "nonneg")
                ctx.assume(2 * nu < 1)
                val[k] = dict(t=ctx.real("t" + k, (5, 60)), E=ctx.real("E" + k, (0.05, 2)), nu=nu)
            elif k[0] == "P":
                val[k] = ctx.real("p" + k, (0, 2e-3), "nonneg")
        return val[k]
    m = w.Layered("pst-", layers=get("B1")[0])
    cur = {"B": "B1*", "F": None, "P": None}
    for op in ops:
        up = not op.endswith("-")
        k = op.rstrip("-")
        if k[0] == "B":
            m.set_beam_properties(get(k)[0], update=up, **get(k)[1])
            cur["B"] = k
        elif k[0] == "F":
            m.set_foundation_properties(update=up, **get(k))
            cur["F"] = k
        elif k[0] == "P":
            m.set_surface_load(get(k))
            cur["P"] = k
        elif k == "Q":
            m.get_load_vector(phi)
            m.set_stiffness_ratio(ctx.real("ratio", (10, 1000)))
            m.substitute_stiffness(ctx.real("Lq", (400, 3000)), "rested", "rot")
            s = m.calc_segments(L=ctx.real("L", (2500, 6000)), a=0, phi=phi)
            m.assemble_and_solve(phi=phi, **s["nocrack"])
        elif k == "U":
            m.calc_fundamental_system()
    with ctx.fresh():
        r = ctx.weac.Layered("pst-")
        if cur["F"]:
            r.set_foundation_properties(**get(cur["F"]))
        if cur["B"] == "B1*":
            r.set_beam_properties(get("B1")[0], update=True)
        else:
            r.set_beam_properties(get(cur["B"])[0], update=True, **get(cur["B"])[1])
        if cur["P"]:
            r.set_surface_load(get(cur["P"]))
    behaviour(ctx, m, r, phi)


def case(ctx, tag):
    L = ctx.real("L" + tag, (2500, 6000))
    a = ctx.real("a" + tag, (200, 1500))
    ctx.assume(a < L)
    return dict(L=L, a=a, cf=ctx.real("cf" + tag, (0.3, 0.9)), phi=angle(ctx, "phi" + tag), ratio=ctx.real("ratio" + tag, (10, 1000)))


def segments(ctx, system, touchdown, m_first=False):
    """Segments, contact state and equations after an earlier case equal those of a new model."""
    def build():
        m, _ = model(ctx, 1, system=system, touchdown=touchdown, param=False)
        slab_attributes(ctx, m)
        if ctx.mode == "conc":
            m.calc_eigensystem()
        if touchdown:
            stub_springs(ctx, m)
            if ctx.mode == "sym":
                stub_roots(ctx, m)
        return m
    m = build()
    with ctx.fresh():
        r = build()
    one, two = case(ctx, "1"), case(ctx, "2")
    m.calc_segments(**one)
    a = m.calc_segments(**two)
    b = r.calc_segments(**two)
    ctx.same("segments", a, b)
    ctx.same("contact state", {k: getattr(m, k) for k in ("mode", "td", "phi")}, {k: getattr(r, k) for k in ("mode", "td", "phi")})
    ctx.same("touchdown geometry", {k: getattr(m, k) for k in ("tc", "L", "a", "ratio")}, {k: getattr(r, k) for k in ("tc", "L", "a", "ratio")})
    phi = two["phi"]
    Ca = m.assemble_and_solve(phi=phi, **a["crack"])
    Cb = r.assemble_and_solve(phi=phi, **b["crack"])
    for i in (0, 1):
        x = a["crack"]["li"][i] / 2
        za = m.z(x, Ca[:, [i]], a["crack"]["li"][i], phi, bed=a["crack"]["ki"][i])
        zb = r.z(x, Cb[:, [i]], a["crack"]["li"][i], phi, bed=a["crack"]["ki"][i])
        ctx.eq("solution of segment %d" % i, za, zb, tol=1e-7, scale=lambda: [1e-6])


def restage(ctx, system, what):
    """Contact state after one change of a model that has been used before."""
    def build(p=None, t=None):
        m, _ = model(ctx, 1, system=system, touchdown=True, param=False)
        slab_attributes(ctx, m)
        if t is not None:
            m.t = t
        if p is not None:
            m.set_surface_load(p)
        if ctx.mode == "conc":
            m.calc_eigensystem()
        stub_springs(ctx, m)
        if ctx.mode == "sym":
            stub_roots(ctx, m)
        return m
    L = ctx.real("L1", (2500, 12000))
    one = dict(L=L, a=ctx.real("a1", (200, 2400)), cf=ctx.real("cf1", (0.2, 0.9)), phi=angle(ctx, "phi1"), ratio=ctx.real("ratio1", (10, 1000)))
    ctx.assume(one["a"] < L)
    two = dict(one)
    change = {}
    if what in ("L", "a"):
        two[what] = ctx.real(what + "2", (2500, 12000) if what == "L" else (200, 2400))
    elif what == "phi":
        two[what] = angle(ctx, "phi2")
    elif what in ("cf", "ratio"):
        two[what] = ctx.real(what + "2", (0.2, 0.9) if what == "cf" else (10, 1000))
    elif what == "p":
        change["p"] = ctx.real("p2", (0, 2e-3), "nonneg")
    elif what == "t":
        change["t"] = ctx.real("t2", (5, 80))
    ctx.assume(two["a"] < two["L"])
    m = build()
    with ctx.fresh():
        r = build(**change)
    if ctx.mode == "conc":
        between(ctx, what, [(m, one), (r, two)])
    m.calc_segments(**one)
    if what == "p":
        m.set_surface_load(change["p"])
    elif what == "t":
        m.t = change["t"]
    a, b = m.calc_segments(**two), r.calc_segments(**two)
    ctx.same("segments", a, b)
    st = ("mode", "td", "phi", "tc", "L", "a", "ratio", "t", "p")
    ctx.same("contact state", {k: getattr(m, k) for k in st}, {k: getattr(r, k) for k in st})


def between(ctx, what, cases):
    """A crack length between the contact lengths before and after (they are
    what a stale value would show in)."""
    import copy as cp
    t = []
    for m, kw in cases:
        try:
            q = cp.deepcopy(m)
            q.set_touchdown_attributes(kw["L"], kw["a"], kw["cf"], kw["phi"], kw["ratio"])
            t.append([float(q.calc_a1()), float(q.calc_a2())])
        except Exception:
            return
    i = ctx.rnd.choice((0, 1))
    a = t[0][i] + (t[1][i] - t[0][i]) * ctx.rnd.uniform(0.1, 0.9)
    for _, kw in cases:
        if a < kw["L"] and what != "a":
            kw["a"] = a


def stub_roots(ctx, m):
    """Contact lengths: uninterpreted functions of what the polynomial reads."""
    from symx import sym as S
    memo = ctx.e.memo

    def f(name, extra):
        def g():
            k = (name,) + tuple(S.lift(v).r.key() for v in (m.L, m.tc, m.calc_qn(), m.A11, m.B11, m.D11, m.kA55) + extra())
            if k not in memo:
                memo[k] = ctx.e.fresh("%s_%d" % (name, sum(1 for x in memo if isinstance(x, tuple) and x[0] == name)), "pos")
            return memo[k]
        return g
    m.calc_a1 = f("ra1", lambda: ())
    m.calc_a2 = f("ra2", lambda: ())
    m.calc_lC = f("rlC", lambda: (m.a, m.ratio))


def twice(ctx, m, tag, fn, args=None):
    """The query leaves model and arguments alone and repeats its result."""
    before = snap(m)
    held = copy(args) if args is not None else None
    one = copy(fn())
    unchanged(ctx, m, before, tag + ": ")
    if args is not None:
        ctx.same(tag + ": arguments", copy(args), held)
    two = copy(fn())
    ctx.same(tag + ": repeated", two, one)


def spring(ctx, support, dof):
    m, _ = model(ctx, 1)
    m.set_touchdown_attributes(ctx.real("L", (2500, 6000)), ctx.real("a", (200, 900)), ctx.real("cf", (0.3, 0.9)), angle(ctx), ctx.real("ratio", (10, 1000)))
    l = ctx.real("l", (400, 4000))
    twice(ctx, m, "spring", lambda: [m.substitute_stiffness(l, support, dof)])


def springs(ctx, support, dof, change):
    """A spring asked for after others is that of an unused model."""
    def build(q):
        m, _ = model(ctx, 1, wl=False, load=False, param=False)
        m.set_foundation_properties(t=q["t"], E=ctx.real("Ew", (0.05, 2)), nu=ctx.num(0.25), update=True)
        m.set_stiffness_ratio(q["ratio"])
        return m
    one = {"l": ctx.real("l", (400, 4000)), "ratio": ctx.real("ratio", (10, 1000)), "t": ctx.real("t", (5, 60)),
           "support": support, "dof": dof}
    two = dict(one)
    if change in ("l", "ratio", "t"):
        two[change] = ctx.real(change + "2", {"l": (400, 4000), "ratio": (10, 1000), "t": (5, 60)}[change])
        if ctx.mode == "conc" and ctx.rnd.random() < 0.5:       # as close as makes a difference
            two[change] = one[change] * (1 + ctx.rnd.uniform(-1, 1) * 10 ** ctx.rnd.uniform(-4, -1))
    elif change == "support":
        two["support"] = "rested" if support == "supported" else "supported"
    elif change == "dof":
        two["dof"] = "rot" if dof == "trans" else "trans"
    m = build(one)
    m.substitute_stiffness(one["l"], support, dof)
    if change == "ratio":
        m.set_stiffness_ratio(two["ratio"])
    elif change == "t":
        m.set_foundation_properties(t=two["t"], E=ctx.real("Ew", (0.05, 2)), nu=ctx.num(0.25), update=True)
    got = m.substitute_stiffness(two["l"], two["support"], two["dof"])
    with ctx.fresh():
        r = build(two)
        want = r.substitute_stiffness(two["l"], two["support"], two["dof"])
    ctx.eq("spring", got, want, tol=1e-7, rough=True)

def solving(ctx, system, touchdown):
    """Segments, solution, rasterising and energy release rates."""
    if touchdown:
        m, _ = model(ctx, 1, system=system, touchdown=True, param=False)
    else:
        m = slab(ctx, system)
    phi = angle(ctx)
    L = ctx.real("L", (2500, 6000))
    a = ctx.real("a", (200, 1500))
    ctx.assume(a < L)
    kw = dict(L=L, a=a, m=ctx.real("m", (10, 120)), phi=phi, cf=ctx.real("cf", (0.3, 0.9)), ratio=ctx.real("ratio", (10, 1000)))
    if touchdown:
        a1, a2, lc = ctx.real("th_a1", (300, 600)), ctx.real("th_a2", (700, 1200)), ctx.real("th_lc", (300, 600))
        if ctx.mode == "sym":
            ctx.assume(a1 < a2)
            ctx.assume(lc < a)
            m.calc_a1, m.calc_a2, m.calc_lC = lambda: a1, lambda: a2, lambda: lc
    if system == "skiers":
        kw.update(li=ctx.array([L, a, L]), mi=ctx.array([kw["m"], ctx.num(0)]), ki=ctx.np.array([True, False, True]), k0=ctx.np.array([True, True, True]))
    twice(ctx, m, "segments", lambda: m.calc_segments(**kw), kw)
    s = m.calc_segments(**kw)
    for state in ("nocrack", "crack"):
        g = dict(s[state])
        twice(ctx, m, "solve " + state, lambda: m.assemble_and_solve(phi=phi, **g), g)
    C0 = m.assemble_and_solve(phi=phi, **s["nocrack"])
    C1 = m.assemble_and_solve(phi=phi, **s["crack"])
    g, b = dict(s["crack"]), dict(s["both"])
    twice(ctx, m, "differential rate", lambda: m.gdif(C1, phi, **g), {"C": C1, **g})
    if not touchdown:
        twice(ctx, m, "incremental rate", lambda: m.ginc(C0, C1, phi, **b), {"C0": C0, "C1": C1, **b})
    if system != "skier":
        # equal lengths, so that the split of the samples does not fork
        g["li"] = ctx.array([L] * len(g["li"]))
        twice(ctx, m, "raster", lambda: list(m.rasterize_solution(C=C1, phi=phi, num=2, **g)), {"C": C1, **g})


def fields(ctx):
    """Field quantities, stresses and outputs of an arbitrary state."""
    from .common import state
    m, ls = model(ctx, 1)
    phi = angle(ctx)
    Z = state(ctx, 2)
    x = ctx.array([ctx.real("x0", (0, 3000), "nonneg"), ctx.real("x1", (0, 3000), "nonneg")])
    xn = ctx.array([ctx.real("x0", (0, 3000), "nonneg"), float("nan")])
    dz = ls[0][1]
    for f in ("w", "dw_dx", "psi", "dpsi_dx", "N", "M", "V", "sig", "tau", "eps", "gamma", "Gi", "Gii"):
        twice(ctx, m, f, lambda: getattr(m, f)(Z), {"Z": Z})
    for f in ("u", "du_dx"):
        twice(ctx, m, f, lambda: getattr(m, f)(Z, z0=dz), {"Z": Z})
    for f in ("dz_dx", "dz_dxdx"):
        twice(ctx, m, f, lambda: getattr(m, f)(Z, phi), {"Z": Z})
    for f in ("Sxx", "Txz", "Szz"):
        twice(ctx, m, f, lambda: getattr(m, f)(Z, phi, dz=dz), {"Z": Z})
    twice(ctx, m, "weak-layer principal stress", lambda: m.principal_stress_weaklayer(Z), {"Z": Z})
    twice(ctx, m, "mesh", lambda: m.get_zmesh(dz=dz))
    twice(ctx, m, "ply coordinates", lambda: m.get_ply_coordinates())
    for f in ("get_slab_displacement", "get_slab_deflection", "get_slab_rotation"):
        twice(ctx, m, f, lambda: list(getattr(m, f)(x, Z)), {"x": x, "Z": Z})
    for f in ("get_weaklayer_shearstress", "get_weaklayer_normalstress"):
        for rm in (True, False):
            twice(ctx, m, f, lambda: list(getattr(m, f)(xn, Z, removeNaNs=rm)), {"x": xn, "Z": Z})
    m_ = ctx.real("m", (10, 120))
    for f, args in (("get_weight_load", (phi,)), ("get_surface_load", (phi,)), ("get_skier_load", (m_, phi)), ("get_load_vector", (phi,)),
                    ("calc_system_matrix", ()), ):
        twice(ctx, m, f, lambda: [getattr(m, f)(*args)] if f in ("calc_system_matrix", "get_load_vector") else list(getattr(m, f)(*args)))


def answers(ctx, m, a):
    """Everything one can ask for, for the arguments a."""
    phi, Z, dz = a["phi"], a["Z"], a["dz"]
    out = {"mesh": m.get_zmesh(dz=dz), "ply coordinates": m.get_ply_coordinates(), "load vector": m.get_load_vector(phi),
           "system matrix": m.calc_system_matrix(), "skier load": list(m.get_skier_load(a["m"], phi)),
           "wedge": list(ctx.mod("weac.tools").calc_vertical_bc_center_of_gravity(m.slab, phi))}
    for f in ("get_weight_load", "get_surface_load"):
        out[f] = list(getattr(m, f)(phi))
    for f in ("w", "psi", "N", "M", "V", "sig", "tau", "eps", "gamma", "Gi", "Gii"):
        out[f] = getattr(m, f)(Z)
    for f in ("u", "du_dx"):
        out[f] = getattr(m, f)(Z, z0=a["z0"])
    for f in ("dz_dx", "dz_dxdx"):
        out[f] = getattr(m, f)(Z, phi)
    for f in ("Sxx", "Txz", "Szz"):
        out[f] = getattr(m, f)(Z, phi, dz=dz)
    out["weak-layer principal stress"] = m.principal_stress_weaklayer(Z)
    for f in ("get_slab_displacement", "get_slab_rotation", "get_weaklayer_shearstress", "get_weaklayer_normalstress"):
        out[f] = list(getattr(m, f)(a["x"], Z))
    s = m.calc_segments(L=a["L"], a=a["a"], m=a["m"], phi=phi, cf=a["cf"], ratio=a["ratio"])
    C0, C1 = [m.assemble_and_solve(phi=phi, **s[k]) for k in ("nocrack", "crack")]
    out["constants"] = [C0, C1]
    out["differential rates"] = m.gdif(C1, phi, **s["crack"])
    out["incremental rates"] = m.ginc(C0, C1, phi, **s["both"])
    g = dict(s["crack"], li=ctx.array([a["L"]] * len(s["crack"]["li"])))
    out["raster"] = list(m.rasterize_solution(C=C1, phi=phi, num=len(g["li"]), **g))
    for k in ("L", "a", "tc", "mode", "td", "ratio", "phi"):
        out["contact " + k] = getattr(m, k)
    return out


def edited(ctx, what, system="pst-", anew=False):
    """A model used for one case, then one input changed (or another model
    built): all answers are those of a new model with that input, in a
    package nothing else has used."""
    from .common import state
    num = ctx.num
    h = [60, 100, 80] if what in ("density", "one density", "order", "thickness", "number") else [60, 100]
    sp = {"layers": [[ctx.real("rho%d" % i, (100, 400)), num(t)] for i, t in enumerate(h)],
          "beam": dict(C0=ctx.real("C0", (3, 10)), C1=num(4), nu=num(0.25)),
          "weak": dict(t=ctx.real("t", (5, 60)), E=ctx.real("E", (0.05, 2)), nu=num(0.25)), "p": ctx.real("p", (0, 2e-3), "nonneg")}
    a = {"phi": angle(ctx), "dz": num(40), "Z": state(ctx, 2), "z0": num(20), "m": ctx.real("m", (10, 120)), "L": num(3000), "a": num(400),
         "cf": num(0.5), "ratio": num(1000), "x": ctx.array([num(0), num(10)])}
    new = dict(sp)
    b = dict(a)
    rows = sp["layers"]
    other = [ctx.real("rhon%d" % i, (100, 400)) for i in range(3)] if len(h) == 3 else []
    if what == "density":
        new["layers"] = [[other[i], num(h[i])] for i in range(3)]
    elif what == "one density":
        new["layers"] = [rows[0], [other[1], num(h[1])], rows[2]]
    elif what == "order":
        new["layers"] = [rows[2], rows[1], rows[0]]
    elif what == "thickness":
        new["layers"] = [[rows[0][0], num(80)], [rows[1][0], num(60)], [rows[2][0], num(100)]]
    elif what == "number":
        new["layers"] = [rows[0], [rows[1][0], num(60)], [other[1], num(40)], rows[2]]
    elif what in ("C0", "C1", "nu"):
        new["beam"] = dict(sp["beam"], **{what: {"C0": lambda: ctx.real("C0n", (3, 10)), "C1": lambda: num(5), "nu": lambda: num(0.3)}[what]()})
    elif what in ("t", "E", "nuw"):
        new["weak"] = dict(sp["weak"], **{"t": lambda: {"t": ctx.real("tn", (5, 60))}, "E": lambda: {"E": ctx.real("En", (0.05, 2))},
                                          "nuw": lambda: {"nu": num(0.3)}}[what]())
    elif what == "p":
        new["p"] = ctx.real("pn", (0, 2e-3), "nonneg")
    elif what == "phi":
        b["phi"] = angle(ctx, "phin")
    elif what == "Z":
        b["Z"] = state(ctx, 2, "y")
    else:
        b[what] = {"dz": num(20), "z0": num(-30), "L": num(3500), "a": num(500), "cf": num(0.6), "ratio": num(500),
                   "x": ctx.array([num(5), num(20)]), "m": ctx.real("mn", (10, 120))}[what]

    def build(q):
        r = ctx.weac.Layered(system, layers=q["layers"])
        r.set_foundation_properties(**q["weak"])
        r.set_surface_load(q["p"])
        r.set_beam_properties(q["layers"], update=True, **q["beam"])
        return r
    m = build(sp)
    answers(ctx, m, a)
    if anew:
        m = build(new)
    elif what in ("t", "E", "nuw"):
        m.set_foundation_properties(update=True, **new["weak"])
    elif what == "p":
        m.set_surface_load(new["p"])
    elif what in ("density", "one density", "order", "thickness", "number", "C0", "C1", "nu"):
        m.set_beam_properties(new["layers"], update=True, **new["beam"])
    got = answers(ctx, m, b)
    with ctx.fresh():
        want = answers(ctx, build(new), b)
    for k in want:
        ctx.same(k, copy(got[k]), copy(want[k]))


def independent(ctx):
    """Two models share nothing; input lists stay the user's."""
    w = ctx.weac
    phi = angle(ctx)
    ls = layers(ctx, 2)
    held = [list(r) for r in ls]
    a, b = w.Layered("pst-", layers=ls), w.Layered("pst-", layers=ls)
    before = snap(b)
    a.set_beam_properties(layers(ctx, 1, "x"), update=True)
    a.set_foundation_properties(t=ctx.real("t", (5, 60)), E=ctx.real("E", (0.05, 2)), update=True)
    a.set_surface_load(ctx.real("p", (0, 2e-3), "nonneg"))
    unchanged(ctx, b, before, "other model: ")
    ctx.same("user's profile", ls, held)
    with ctx.fresh():
        c = ctx.weac.Layered("pst-", layers=ls)
    behaviour(ctx, c, b, phi)


def instances(tier):
    o = {"eig_patterns": ["PNpn"]}
    hist = [["B2"], ["F1"], ["P1"], ["B2", "F1", "P1"], ["P1", "F1", "B2"], ["B2-", "F1"], ["F1-", "B2"], ["B2", "B3"], ["F1", "F2"],
            ["P1", "P2"], ["B2-", "F1-", "P1", "U"], ["B2", "F1", "B3", "F2", "P1"], ["Q", "B2", "F1"], ["B2", "Q", "F1", "P1"], ["F1", "B2", "Q"]]
    out = [I("history-" + "".join(h).replace("-", "_"), "history", {"ops": h}, opts=o) for h in hist]
    for s in ("pst-", "-pst"):
        out.append(I("segments-%s-contact" % s, "segments", {"system": s, "touchdown": True}, opts=o, weight=3))
    for s in ("pst-", "-vpst", "skier"):
        out.append(I("segments-%s" % s, "segments", {"system": s, "touchdown": False}, opts=o, weight=2))
    for s in ("pst-", "-pst"):
        for what in ("L", "a", "phi", "cf", "ratio", "p", "t"):
            out.append(I("restage-%s-%s" % (s, what), "restage", {"system": s, "what": what}, opts=o))
    for s in ("supported", "rested"):
        for d in ("rot", "trans"):
            out.append(I("spring-%s-%s" % (s, d), "spring", {"support": s, "dof": d}, opts=dict(o, branch_timeout=300)))
            for what in ("l", "ratio", "t", "support", "dof") if (s == "rested") == (d == "rot") else ("l",):
                out.append(I("springs-%s-%s-%s" % (s, d, what), "springs", {"support": s, "dof": d, "change": what}, opts=dict(o, branch_timeout=300)))
    for s in ("pst-", "-pst", "vpst-", "-vpst", "skier", "skiers"):
        out.append(I("solve-%s" % s, "solving", {"system": s, "touchdown": False}, opts=o, weight=3))
    for s in ("pst-", "-pst"):
        out.append(I("solve-%s-contact" % s, "solving", {"system": s, "touchdown": True}, opts=o, weight=4))
    for k in ("density", "one density", "order", "thickness", "number", "C0", "C1", "nu", "t", "E", "nuw", "p", "phi", "Z", "dz", "z0", "m", "L", "a",
              "cf", "ratio", "x"):
        out.append(I("edited-%s" % k.replace(" ", "_"), "edited", {"what": k, "system": "skier" if k == "m" else "pst-"}, opts=o, weight=2))
    for k in ("density", "thickness", "C0", "t", "p", "phi", "L", "ratio"):
        out.append(I("anew-%s" % k, "edited", {"what": k, "system": "pst-", "anew": True}, opts=o, weight=2))
    out += [I("fields", "fields", {}, opts=o), I("independent", "independent", {}, opts=o)]
    return out
