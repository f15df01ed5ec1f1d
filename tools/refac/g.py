# @ eigensystem.py Eigensystem
def set_beam_properties(self, layers, C0=6.5, C1=4.4, nu=0.25, update=False):
    """beam"""
    layers, E = self._profile(layers, C0, C1)
    nu = np.repeat(nu, len(layers))
    self.h, self.zs = calc_center_of_gravity(layers)
    self.k = 5 / 6
    self.slab = np.hstack([layers, np.stack([E, E / (2 + 2 * nu), nu], axis=1)])
    if update:
        self.calc_fundamental_system()


def _profile(self, layers, C0, C1):
    """Layers and moduli."""
    if isinstance(layers, str):
        return load_dummy_profile(layers.split()[-1])
    layers = np.array(layers)
    return layers, bergfeld(layers[:, 0], C0=C0, C1=C1)


def calc_foundation_stiffness(self):
    """weak"""
    E, nu = self.weak["E"], self.weak["nu"]
    self.kt = E / (2 * (1 + nu)) / self.t
    self.kn = E / (1 - nu**2) / self.t


def get_ply_coordinates(self):
    """ply"""
    h = self.slab[:, 1]
    return np.insert(h.cumsum(), 0, 0) - self.h / 2


def calc_laminate_stiffness_matrix(self):
    """ABD"""
    z = self.get_ply_coordinates()
    plies = [(a, b, *row[2:5]) for a, b, row in zip(z[:-1], z[1:], self.slab)]
    self.A11 = sum(E / (1 - nu**2) * (b - a) for a, b, E, _, nu in plies)
    self.B11 = sum(E / (1 - nu**2) * (b**2 - a**2) / 2 for a, b, E, _, nu in plies)
    self.D11 = sum(E / (1 - nu**2) * (b**3 - a**3) / 3 for a, b, E, _, nu in plies)
    self.kA55 = sum(self.k * G * (b - a) for a, b, _, G, _ in plies)
    self.K0 = self.B11**2 - self.A11 * self.D11


def calc_system_matrix(self):
    """K"""
    kt, t, h = self.kt, self.t, self.h
    A11, B11, D11, kA55, K0 = self.A11, self.B11, self.D11, self.kA55, self.K0
    d = h + t
    K = np.zeros((6, 6))
    K[0, 1] = K[2, 3] = K[4, 5] = 1
    K[3, 2], K[3, 5] = self.kn / kA55, -1
    p = kt * (B11 * d - 2 * D11) / (4 * K0)
    r = kt * (2 * B11 - A11 * d) / (4 * K0)
    K[1, 0], K[1, 3], K[1, 4] = 2 * p, B11 * kA55 / K0 - t * p, B11 * kA55 / K0 + h * p
    K[5, 0], K[5, 3], K[5, 4] = 2 * r, -A11 * kA55 / K0 - t * r, -A11 * kA55 / K0 + h * r
    return K


def get_load_vector(self, phi):
    """q"""
    (qn, qt), (pn, pt) = self.get_weight_load(phi), self.get_surface_load(phi)
    moment = self.h * pt - 2 * qt * self.zs
    q = np.zeros((6, 1))
    q[1] = (self.B11 * moment + 2 * self.D11 * (qt + pt)) / (2 * self.K0)
    q[3] = -(qn + pn) / self.kA55
    q[5] = -(self.A11 * moment + 2 * self.B11 * (qt + pt)) / (2 * self.K0)
    return q


def calc_eigensystem(self):
    """eig"""
    values, vectors = np.linalg.eig(self.calc_system_matrix())
    real, cmplx = [], []
    for i, value in enumerate(values):
        if value.imag > 0:
            cmplx.append(i)
        elif value.imag == 0 and value.real != 0:
            real.append(i)
    self.ewR, self.evR = values[real].real, vectors[:, real].real
    self.ewC, self.evC = values[cmplx], vectors[:, cmplx]
    self.sR = np.array([-1.0 if w > 0 else 0.0 for w in self.ewR])
    self.sC = np.array([-1.0 if w.real > 0 else 0.0 for w in self.ewC])


def get_weight_load(self, phi):
    """weight"""
    q = 0
    for rho, h, *_ in self.slab:
        q += 1e-12 * rho * h * self.g
    return q * np.cos(np.deg2rad(phi)), -q * np.sin(np.deg2rad(phi))


def zh(self, x, l=0, bed=True):
    """zh"""
    if bed:
        waves = self.evC * np.exp(self.ewC.real * (x + l * self.sC) + 1j * self.ewC.imag * x)
        return np.concatenate([self.evR * np.exp(self.ewR * (x + l * self.sR)), waves.real, waves.imag], axis=1)
    return self._zh_free(x)


def _zh_free(self, x):
    """Free segment."""
    b = self.B11 / self.A11
    return np.transpose([[0, 0, 1, 0, 0, 0],
                         [0, 0, x, 1, -1, 0],
                         [0, 0, x**2, 2 * x, -2 * x, -2],
                         [3 * b * x**2, 6 * b * x, x**3, 3 * x**2, 6 * self.K0 / (self.A11 * self.kA55) - 3 * x**2, -6 * x],
                         [1, 0, 0, 0, 0, 0],
                         [x, 1, 0, 0, 0, 0]])


def z(self, x, C, l, phi, bed=True):
    """z"""
    def at(xi):
        return np.dot(self.zh(xi, l, bed), C) + self.zp(xi, phi, bed)
    if not isinstance(x, (list, tuple, np.ndarray)):
        return at(x)
    return np.hstack([at(xi) for xi in x])


# @ mixins.py
from contextlib import contextmanager


# @ mixins.py
_STRESS = {"kPa": 1e3, "MPa": 1}


# @ mixins.py FieldQuantitiesMixin
def psi(self, Z, unit="rad"):
    """psi"""
    match unit:
        case "deg" | "degree" | "degrees":
            psi = np.rad2deg(Z[4, :])
        case "rad" | "radian" | "radians":
            psi = Z[4, :]
    return psi


def sig(self, Z, unit="MPa"):
    """sig"""
    return self.kn * self.w(Z) * -_STRESS[unit]


def tau(self, Z, unit="MPa"):
    """tau"""
    shear = self.u(Z, z0=self.h / 2) - self.dw_dx(Z) * self.t / 2
    return _STRESS[unit] * self.kt * shear


def gamma(self, Z):
    """gamma"""
    u = self.u(Z, z0=self.h / 2)
    return (2 * u / self.t - self.dw_dx(Z)) / 2


# @ mixins.py SlabContactMixin
def substitute_stiffness(self, L, support="rested", dof="rot"):
    """Spring."""
    if dof == "rot" or dof == "trans":
        name = dof
    with self._temporary(name, self.ratio if support == "rested" else None):
        li, ki = np.array([L, 0.0]), np.array([True, True])
        C = self.assemble_and_solve(phi=0, li=li, mi=np.array([0]), ki=ki)
        z = self.rasterize_solution(C=C, phi=0, li=li, ki=ki, num=1)[1]
        if dof == "rot":
            u = self.psi(z)[0]
        else:
            u = self.w(z)[0] - self.w(self.zp(x=0, phi=0, bed=True))[0]
    if support == "rested":
        self.calc_eigensystem()
    return 1 / abs(u)


def calc_touchdown_mode(self):
    """mode"""
    self.mode = self._stage() if self.touchdown else "A"


def _stage(self):
    """Contact stage."""
    first, full = self.calc_a1(), self.calc_a2()
    if self.a > full and self.a > first:
        return "C"
    return "A" if self.a <= first else "B"


def calc_touchdown_length(self):
    """length"""
    lengths = {"A": self.calc_lA, "B": self.calc_lB, "C": self.calc_lC}
    if self.mode in lengths:
        self.td = lengths[self.mode]()


# @ mixins.py SolutionMixin
def calc_segments(self, li=False, mi=False, ki=False, k0=False, L=1e4, a=0, m=0, phi=0, cf=0.5, ratio=1000, **kwargs):
    """segments"""
    self.calc_touchdown_system(L=L, a=a, cf=cf, phi=phi, ratio=ratio)
    match self.system:
        case "skiers":
            rows = li, mi, ki, k0
        case "pst-":
            rows = [L - self.a, self.td], [0], [True, False], [True] * 2
        case "-pst":
            rows = [self.td, L - self.a], [0], [False, True], [True] * 2
        case "vpst-":
            rows = [L - a, a], [0], [True, False], [True] * 2
        case "-vpst":
            rows = [a, L - a], [0], [False, True], [True] * 2
        case "skier":
            lb, lf = (L - self.a) / 2, self.a / 2
            rows = [lb, lf, lf, lb], [0, m, 0], [True, False, False, True], [True] * 4
        case _:
            raise ValueError(f"System {self.system} is not implemented.")
    both = dict(zip(("li", "mi", "ki", "k0"), map(np.array, rows)))
    crack = {key: both[key] for key in ("li", "mi", "ki")}
    return {"nocrack": {**crack, "ki": both["k0"]}, "crack": crack, "both": both}


def assemble_and_solve(self, phi, li, mi, ki):
    """solve"""
    self._check(li, mi, ki)
    if len(li) == 1:
        li, ki, mi = [*li, 0], [*ki, True], [*mi, 0]
    n = len(li)
    A = np.zeros([n * 6, n * 6])
    b = self._right_hand_side(phi, li, mi, ki)
    row = 0
    for i, (l, k) in enumerate(zip(li, ki)):
        pos = "l" if i == 0 else "r" if i == n - 1 else "m"
        left = self.eqs(zl=self.zh(x=0, l=l, bed=k), zr=self.zh(x=l, l=l, bed=k), k=k, pos=pos)
        load = self.eqs(zl=self.zp(x=0, phi=phi, bed=k), zr=self.zp(x=l, phi=phi, bed=k), k=k, pos=pos)
        rows = slice(row, row + left.shape[0])
        A[rows, 6 * i:6 * i + 6] = left
        b[rows] = b[rows] - load
        row = rows.stop - 6
    return np.linalg.solve(A, b).reshape(n, 6).T


def _check(self, li, mi, ki):
    """Input."""
    if not any(ki):
        raise ValueError("Provide at least one supported segment.")
    if len(set((len(li), len(ki), len(mi) + 1))) > 1:
        raise ValueError("Make sure len(li)=N, len(ki)=N, and len(mi)=N-1.")
    if self.system in ("pst-", "-pst", "vpst-", "-vpst", "rot", "trans"):
        return
    if not (ki[0] and ki[-1]):
        raise ValueError("Provide supported boundary segments")
    if any(l < 5e3 for l in (li[0], li[-1])):
        print("WARNING: Boundary segments are short.")


def _right_hand_side(self, phi, li, mi, ki):
    """Loads and boundary values."""
    n = len(li)
    rhs = np.zeros([n * 6, 1])
    if self.system == "rot" or self.system == "trans":
        rhs[1 if self.system == "rot" else 2] = 1
        return rhs
    for i in range(1, n):
        Fn, Ft = self.get_skier_load(mi[i - 1], phi)
        at = 6 * i
        rhs[at, 0], rhs[at + 1, 0], rhs[at + 2, 0] = Ft, -Ft * self.h / 2, Fn
    match self.system:
        case "pst-" | "-pst":
            self._contact(rhs, ki)
        case "vpst-" | "-vpst":
            xs, zs, m = calc_vertical_bc_center_of_gravity(self.slab, phi)
            c, s = np.cos(np.deg2rad(phi)), np.sin(np.deg2rad(phi))
            rhs[:3] = rhs[-3:] = self.g * m * np.array([[-s], [-(xs * c + zs * s)], [c]])
        case _:
            rhs[:3] = self.bc(self.zp(x=0, phi=phi, bed=ki[0]))
            rhs[-3:] = self.bc(self.zp(x=li[-1], phi=phi, bed=ki[-1]))
    return rhs


def _contact(self, rhs, ki):
    """Free ends on the ground."""
    if self.mode not in ("B", "C"):
        return
    N = self.calc_qt() * (self.a - self.td) if self.mode == "C" else 0
    for at, k, sign in ((slice(None, 3), ki[0], -1), (slice(-3, None), ki[-1], 1)):
        if not k:
            rhs[at] = [[sign * N], [0], [self.tc]]


# @ mixins.py SlabContactMixin
@contextmanager
def _temporary(self, system, ratio):
    """Other system and weak layer for a while."""
    saved = self.system, self.kn, self.kt
    self.system = system
    if ratio is not None:
        self.kn, self.kt = ratio * self.kn, ratio * self.kt
        self.calc_eigensystem()
    try:
        yield
    finally:
        self.system, self.kn, self.kt = saved


# @ mixins.py AnalysisMixin
def rasterize_solution(self, C, phi, li, ki, num=250, **kwargs):
    """raster"""
    li = abs(li)
    keep = np.flatnonzero(li > 0)
    total, start, last = li.sum(), 0, keep[-1]
    xs, zs, bed = [], [], []
    previous = None
    for i in keep:
        n = int(np.ceil(li[i] / total * num)) + (i == last)
        xi = np.linspace(0, li[i], num=n, endpoint=bool(i == last))
        zs.append(self.z(xi, C[:, [i]], li[i], phi, ki[i]))
        flags = [bool(ki[i])] * n
        if previous is not None:
            flags[0] = bool(previous or ki[i])
        bed += flags
        xs.append(start + xi)
        start, previous = start + li[i], ki[i]
    xq = np.concatenate(xs)
    return xq, np.concatenate(zs, axis=1), np.where(bed, xq, np.nan)


def ginc(self, C0, C1, phi, li, ki, k0, **kwargs):
    """ginc"""
    modes = np.zeros(2)
    da = 0
    for j, (l, cracked, before) in enumerate(zip(li, ki, k0)):
        if cracked or not before:
            continue
        z0 = partial(self.z, C=C0[:, [j]], l=l, phi=phi, bed=True)
        z1 = partial(self.z, C=C1[:, [j]], l=l, phi=phi, bed=False)
        for mode, work in enumerate((self.int1, self.int2)):
            modes[mode] += quad(lambda x: work(x, z0, z1), 0, l, epsabs=self.tol, epsrel=self.tol)[0]
        da += l
    if any(k and not c for k, c in zip(k0, ki)):
        modes = modes / (2 * (da if da > 0 else np.nan))
    return np.array([modes.sum(), *modes])


def gdif(self, C, phi, li, ki, unit="kJ/m^2", **kwargs):
    """gdif"""
    tips = [j for j in range(len(li) - 1) if ki[j] != ki[j + 1]]
    G = np.zeros(2)
    for n, j in enumerate(tips):
        z = self.z(li[j], C[:, [j]], li[j], phi, bed=ki[j])
        share = 1
        if len(tips) > 1:
            if 0 < n < len(tips) - 1:
                share = 0.5
            elif (ki[0] if n == 0 else ki[-1]):
                share = 0.5
        G += share * np.hstack([self.Gi(z, unit=unit), self.Gii(z, unit=unit)])
    return np.array([G[0] + G[1], G[0], G[1]])


def get_zmesh(self, dz=2):
    """mesh"""
    z = self.get_ply_coordinates()
    rows = []
    for i, (rho, h, E, G, nu) in enumerate(self.slab):
        n = int(np.ceil((z[i + 1] - z[i]) / dz)) + 1
        for j in range(n):
            rows.append([z[i] + (z[i + 1] - z[i]) * j / (n - 1), E, nu, rho])
    return np.array(rows)


def Sxx(self, Z, phi, dz=2, unit="kPa"):
    """Sxx"""
    zi, E, nu, rho = self.get_zmesh(dz=dz).T
    step = np.diff(zi)
    step = np.append(step, step[-1])
    body = -1e-12 * rho * self.g * np.sin(np.deg2rad(phi)) * step
    bending = np.array([e / (1 - n**2) * self.du_dx(Z, z) for z, e, n in zip(zi, E, nu)])
    return _STRESS[unit] * (bending + body[:, np.newaxis])


def Txz(self, Z, phi, dz=2, unit="kPa"):
    """Txz"""
    zi, E, nu, rho = self.get_zmesh(dz=dz).T
    u, psi = self.du0_dxdx(Z, phi), self.dpsi_dxdx(Z, phi)
    change = (E / (1 - nu**2))[:, None] * (u[None, :] + np.outer(zi, psi))
    weight = -1e-12 * rho * self.g * np.sin(np.deg2rad(phi))
    return _STRESS[unit] * self._integrate(change + weight[:, None], zi)


def Szz(self, Z, phi, dz=2, unit="kPa"):
    """Szz"""
    zi, E, nu, rho = self.get_zmesh(dz=dz).T
    u, psi = self.du0_dxdxdx(Z, phi), self.dpsi_dxdxdx(Z, phi)
    change = (E / (1 - nu**2))[:, None] * (u[None, :] + np.outer(zi, psi))
    weight = 1e-12 * rho * self.g * np.cos(np.deg2rad(phi))
    return _STRESS[unit] * self._integrate(self._integrate(change, zi) - weight[:, None], zi)


def _integrate(self, f, z):
    """Trapezoids from the top."""
    out = np.zeros_like(f)
    for i in range(1, len(z)):
        out[i] = out[i - 1] + (f[i] + f[i - 1]) / 2 * (z[i] - z[i - 1])
    return out


def _principal(self, s, t, val):
    """Principal stress."""
    if val not in ("min", "max"):
        raise ValueError(f"Component {val} not defined.")
    radius = np.sqrt((s / 2)**2 + t**2)
    return radius if val == "max" else -radius


def principal_stress_slab(self, Z, phi, dz=2, unit="kPa", val="max", normalize=False):
    """slab"""
    args = dict(Z=Z, phi=phi, dz=dz, unit=unit)
    Sxx, Txz, Szz = self.Sxx(**args), self.Txz(**args), self.Szz(**args)
    Ps = (Sxx + Szz) / 2 + self._principal(Sxx - Szz, Txz, val)
    if not normalize:
        return Ps
    if val == "min":
        raise ValueError("Can only normlize tensile stresses.")
    return (Ps.T / tensile_strength_slab(self.get_zmesh(dz=dz)[:, 3], unit=unit)).T


def principal_stress_weaklayer(self, Z, sc=2.6, unit="kPa", val="min", normalize=False):
    """weak"""
    sig = self.sig(Z, unit=unit)
    ps = sig / 2 + self._principal(sig, self.tau(Z, unit=unit), val)
    if normalize and val == "max":
        raise ValueError("Can only normlize compressive stresses.")
    if normalize:
        strength = sc * {"kPa": 1, "MPa": 1e-3}[unit]
        ps = ps / strength
    return ps


# @ mixins.py OutputMixin
def internal_potential(self, C, phi, L, **segments):
    """internal"""
    li = np.asarray(segments["li"])
    length, bedded = li.sum(), li[segments["ki"]].sum()
    xq, zq, xb = self.rasterize_solution(C=C, phi=phi, **segments)
    weak = zq[:, ~np.isnan(xb)]
    N, M, V = self.N(zq), self.M(zq), self.V(zq)
    bend = M - self.B11 / self.A11 * N
    work = np.mean(N**2) / self.A11 + np.mean(bend**2) / (self.D11 - self.B11**2 / self.A11) + np.mean(V**2) / self.kA55
    spring = np.mean(self.sig(weak)**2) / self.kn + np.mean(self.tau(weak)**2) / self.kt
    Pi = length * work / 2 + bedded * spring / 2
    match self.system:
        case "pst-":
            Pi -= M[-1] * self.psi(zq)[-1] / 2
        case "-pst":
            Pi += M[0] * self.psi(zq)[0] / 2
        case _:
            print("Input error: Only pst-setup implemented at the moment.")
    return Pi


def get_weaklayer_shearstress(self, x, z, unit="MPa", removeNaNs=False):
    """tau"""
    return self._along(x, self.tau(z, unit=unit), removeNaNs)


def get_weaklayer_normalstress(self, x, z, unit="MPa", removeNaNs=False):
    """sig"""
    return self._along(x, self.sig(z, unit=unit), removeNaNs)


def _along(self, x, y, removeNaNs):
    """cm"""
    x = x / 10
    known = ~np.isnan(x)
    if removeNaNs:
        return x[known], y[known]
    return x, np.where(known, y, np.nan)


# @ tools.py
def calc_center_of_gravity(layers):
    """cog"""
    rho, h = 1e-12 * layers[:, 0], layers[:, 1]
    H = np.sum(h)
    weight = moment = top = 0
    for r, t in zip(rho, h):
        weight += r * t
        moment += r * t * (top + t / 2 - H / 2)
        top += t
    return H, moment / weight


def calc_vertical_bc_center_of_gravity(slab, phi):
    """wedge"""
    if phi == 0:
        return 0, 0, 0
    slope = np.tan(np.deg2rad(phi))
    H, top, w, m = sum(slab[:, 1]), 0, 0, 0
    for rho, h, *_ in slab:
        a, b = H - top, H - top - h
        area = h / 2 * (a + b) * slope
        # distance of the centroid of the trapezoid from its upper edge
        c = h / 3 * (a + 2 * b) / (a + b)
        w += 1e-12 * rho * area
        m += 1e-12 * rho * area * (top + c - H / 2)
        top += h
    zs = m / w
    return (H / 2 - zs) * slope / 2, zs, w
