# @ mixins.py AnalysisMixin
def rasterize_solution(self, C, phi, li, ki, num=250, **kwargs):
    """raster"""
    li = np.abs(li)
    keep = np.flatnonzero(li)
    C, ki, li = C[:, keep], np.asarray(ki)[keep], li[keep]
    n = len(li)
    nq = np.ceil(li / np.sum(li) * num).astype(int)
    nq[n - 1] = nq[n - 1] + 1
    xs, zs, sup = [], [], []
    x0 = 0
    for i in range(n):
        last = i == n - 1
        xi = np.linspace(0, li[i], nq[i], endpoint=last)
        xs.append(x0 + xi)
        zs.append(self.z(xi, C[:, i:i + 1], li[i], phi, ki[i]))
        flags = np.full(nq[i], bool(ki[i]))
        if i > 0:
            flags[0] = ki[i - 1] or ki[i]
        sup.append(flags)
        x0 = x0 + li[i]
    xq = np.concatenate(xs)
    zq = np.concatenate(zs, axis=1)
    xb = np.where(np.concatenate(sup), xq, np.nan)
    return xq, zq, xb


def ginc(self, C0, C1, phi, li, ki, k0, **kwargs):
    """ginc"""
    cracked = [j for j, (a, b) in enumerate(zip(k0, ki)) if a and not b]
    G1, G2, da = 0.0, 0.0, 0.0
    for j in cracked:
        l = li[j]
        da = da + l

        def fields(x, j=j, l=l):
            return (self.z(x, C0[:, [j]], l, phi, bed=True),
                    self.z(x, C1[:, [j]], l, phi, bed=False))

        def mode1(x):
            a, b = fields(x)
            return self.sig(a) * self.eps(b) * self.t

        def mode2(x):
            a, b = fields(x)
            return self.tau(a) * self.gamma(b) * self.t
        G1 += quad(mode1, 0, l, epsabs=self.tol, epsrel=self.tol)[0]
        G2 += quad(mode2, 0, l, epsabs=self.tol, epsrel=self.tol)[0]
    if not da > 0:
        return np.zeros(3)
    G1, G2 = G1 / (2 * da), G2 / (2 * da)
    return np.array([G1 + G2, G1, G2]).ravel()


def gdif(self, C, phi, li, ki, unit="kJ/m^2", **kwargs):
    """gdif"""
    tips = [j for j in range(len(li) - 1) if bool(ki[j]) is not bool(ki[j + 1])]
    total = np.zeros(3)
    for n, j in enumerate(tips):
        z = self.z(li[j], C[:, [j]], li[j], phi, bed=ki[j])
        G1, G2 = self.Gi(z, unit=unit)[0], self.Gii(z, unit=unit)[0]
        w = 0.5
        if len(tips) == 1:
            w = 1
        elif n == 0 and not ki[0]:
            w = 1
        elif n == len(tips) - 1 and not ki[-1]:
            w = 1
        total = total + w * np.array([G1 + G2, G1, G2])
    return total


def get_zmesh(self, dz=2):
    """mesh"""
    z = self.get_ply_coordinates()
    rows = []
    for i, layer in enumerate(self.slab):
        n = int(np.ceil((z[i + 1] - z[i]) / dz)) + 1
        for zz in np.linspace(z[i], z[i + 1], n):
            rows.append([zz, layer[2], layer[4], layer[0]])
    return np.array(rows)


def _stiff(self, zmesh):
    return zmesh[:, 1] / (1 - zmesh[:, 2] ** 2)


def Sxx(self, Z, phi, dz=2, unit="kPa"):
    """Sxx"""
    factor = {"kPa": 1e3, "MPa": 1}[unit]
    zmesh = self.get_zmesh(dz)
    zi, rho = zmesh[:, 0], zmesh[:, 3]
    strain = np.array([self.du_dx(Z, z0) for z0 in zi])
    Sxx = self._stiff(zmesh)[:, None] * strain
    qt = -1e-12 * rho * self.g * np.sin(np.radians(phi))
    step = np.diff(zi)
    step = np.append(step, step[-1])
    Sxx = Sxx + (qt * step)[:, np.newaxis]
    return factor * Sxx


def Txz(self, Z, phi, dz=2, unit="kPa"):
    """Txz"""
    factor = {"kPa": 1e3, "MPa": 1}[unit]
    zmesh = self.get_zmesh(dz)
    zi, rho = zmesh[:, 0], zmesh[:, 3]
    a, b = self.du0_dxdx(Z, phi), self.dpsi_dxdx(Z, phi)
    grad = self._stiff(zmesh)[:, None] * (a[None, :] + np.outer(zi, b))
    qt = -1e-12 * rho * self.g * np.sin(np.radians(phi))
    f = grad + qt[:, None]
    out = np.zeros_like(f)
    for i in range(1, len(zi)):
        out[i] = out[i - 1] + (zi[i] - zi[i - 1]) * (f[i] + f[i - 1]) / 2
    return factor * out


def Szz(self, Z, phi, dz=2, unit="kPa"):
    """Szz"""
    factor = {"kPa": 1e3, "MPa": 1}[unit]
    zmesh = self.get_zmesh(dz)
    zi, rho = zmesh[:, 0], zmesh[:, 3]
    a, b = self.du0_dxdxdx(Z, phi), self.dpsi_dxdxdx(Z, phi)
    curv = self._stiff(zmesh)[:, None] * (a + zi[:, None] * b)
    qn = 1e-12 * rho * self.g * np.cos(np.radians(phi))
    inner = cumulative_trapezoid(curv, zi, axis=0, initial=0)
    return factor * cumulative_trapezoid(inner - 0 * inner, zi, axis=0, initial=0) - factor * cumulative_trapezoid(qn, zi, initial=0).reshape(-1, 1)


# @ mixins.py SolutionMixin
def assemble_and_solve(self, phi, li, mi, ki):
    """solve"""
    if True not in [bool(k) for k in ki]:
        raise ValueError("Provide at least one supported segment.")
    if not (len(li) == len(ki) == len(mi) + 1):
        raise ValueError("lengths")
    if self.system not in ("pst-", "-pst", "vpst-", "-vpst", "rot", "trans"):
        if not (ki[0] and ki[-1]):
            raise ValueError("supported ends")
        if min(li[0], li[-1]) < 5e3:
            print("WARNING: Boundary segments are short.")
    if len(li) == 1:
        li, ki, mi = [li[0], 0], [ki[0], True], [0]
    n = len(li)
    A = np.zeros((6 * n, 6 * n))
    b = np.zeros(6 * n)
    for i, (l, k) in enumerate(zip(li, ki)):
        if i == 0:
            pos, rows = "l", slice(0, 9)
        elif i == n - 1:
            pos, rows = "r", slice(6 * i - 3, 6 * n)
        else:
            pos, rows = "m", slice(6 * i - 3, 6 * i + 9)
        A[rows, 6 * i:6 * i + 6] = self.eqs(self.zh(0, l, k), self.zh(l, l, k), k, pos)
        b[rows] -= self.eqs(self.zp(0, phi, k), self.zp(l, phi, k), k, pos)[:, 0]
    rhs = np.zeros(6 * n)
    for i in range(1, n):
        Fn, Ft = self.get_skier_load(mi[i - 1], phi)
        rhs[6 * i] = Ft
        rhs[6 * i + 1] = -Ft * self.h / 2
        rhs[6 * i + 2] = Fn
    rhs[:3], rhs[-3:] = self._ends(rhs, phi, li, ki)
    if self.system == "rot":
        rhs = np.zeros_like(rhs)
        rhs[1] = 1
    elif self.system == "trans":
        rhs = np.zeros_like(rhs)
        rhs[2] = 1
    C = np.linalg.solve(A, rhs + b)
    return C.reshape(n, 6).T


def _ends(self, rhs, phi, li, ki):
    left, right = rhs[:3].copy(), rhs[-3:].copy()
    if self.system in ("vpst-", "-vpst"):
        xs, zs, m = calc_vertical_bc_center_of_gravity(self.slab, phi)
        w = self.g * m
        c, s = np.cos(np.radians(phi)), np.sin(np.radians(phi))
        left = np.array([-w * s, -w * (xs * c + zs * s), w * c])
        return left, left
    if self.system in ("pst-", "-pst"):
        for right_end in (False, True):
            if ki[-1 if right_end else 0]:
                continue
            if self.mode == "B":
                v = np.array([0, 0, self.tc])
            elif self.mode == "C":
                N = self.calc_qt() * (self.a - self.td)
                v = np.array([N if right_end else -N, 0, self.tc])
            else:
                continue
            if right_end:
                right = v
            else:
                left = v
        return left, right
    if self.system != "rested":
        left = self.bc(self.zp(0, phi, bed=ki[0]))[:, 0]
        right = self.bc(self.zp(li[-1], phi, bed=ki[-1]))[:, 0]
    return left, right


def calc_segments(self, li=False, mi=False, ki=False, k0=False, L=1e4, a=0, m=0, phi=0, cf=0.5, ratio=1000, **kwargs):
    """segments"""
    self.calc_touchdown_system(L=L, a=a, cf=cf, phi=phi, ratio=ratio)
    match self.system:
        case "skiers":
            pass
        case "pst-" | "vpst-":
            o = self.td if self.system == "pst-" else a
            li, mi, ki, k0 = [L - a, o], [0], [True, False], [True] * 2
        case "-pst" | "-vpst":
            o = self.td if self.system == "-pst" else a
            li, mi, ki, k0 = [o, L - a], [0], [False, True], [True] * 2
        case "skier":
            b = 0.5 * (L - a)
            li, mi = [b, a / 2, a / 2, b], [0, m, 0]
            ki, k0 = [True, False, False, True], [True] * 4
        case _:
            raise ValueError(f"System {self.system} is not implemented.")
    li, mi, ki, k0 = map(np.array, (li, mi, ki, k0))
    base = dict(li=li, mi=mi)
    return {"nocrack": {**base, "ki": k0}, "crack": {**base, "ki": ki}, "both": {**base, "ki": ki, "k0": k0}}


def bc(self, z, k=False, pos="mid"):
    """bc"""
    if self.system in ("skier", "skiers"):
        return np.array([self.u(z, z0=0), self.w(z), self.psi(z)])
    if self.system not in ("pst-", "-pst", "vpst-", "-vpst", "rot", "trans"):
        raise ValueError("Boundary conditions not defined")
    N, M, third = self.N(z), self.M(z), self.V(z)
    if self.system in ("pst-", "-pst") and not k and self.mode in ("B", "C"):
        left = pos in ("l", "left")
        if left or pos in ("r", "right"):
            third = self.w(z)
            if self.mode == "C":
                kR = self.substitute_stiffness(self.a - self.td, "rested", "rot")
                M = M + (-kR if left else kR) * self.psi(z)
    return np.array([N, M, third])


def eqs(self, zl, zr, k=False, pos="mid"):
    """eqs"""
    def trans(z, s):
        return [s * self.u(z, z0=0), s * self.w(z), s * self.psi(z), s * self.N(z), s * self.M(z), s * self.V(z)]
    if pos in ("l", "left"):
        out = [*self.bc(zl, k, pos), *trans(zr, 1)]
    elif pos in ("m", "mid"):
        out = trans(zl, -1) + trans(zr, 1)
    elif pos in ("r", "right"):
        out = trans(zl, -1) + list(self.bc(zr, k, pos))
    else:
        raise ValueError("Invalid position argument")
    return np.array(out)
