# @ eigensystem.py Eigensystem
def set_beam_properties(self, layers, C0=6.5, C1=4.4, nu=0.25, update=False):
    """beam"""
    if isinstance(layers, str):
        rows, E = load_dummy_profile(layers.rsplit(None, 1)[-1])
    else:
        rows = np.array([list(row) for row in layers])
        E = bergfeld(rows[:, 0], C0=C0, C1=C1)
    poisson = np.full(rows.shape[0], nu, dtype=float)
    shear = 0.5 * E / (1 + poisson)
    self.slab = np.column_stack((rows, E, shear, poisson))
    self.h, self.zs = calc_center_of_gravity(rows)
    self.k = 5 / 6
    if update:
        self.calc_fundamental_system()


def get_ply_coordinates(self):
    """ply"""
    z = [-self.h / 2]
    i = 0
    while i < len(self.slab):
        z.append(z[-1] + self.slab[i][1])
        i += 1
    return np.array(z)


def calc_laminate_stiffness_matrix(self):
    """ABD"""
    z = self.get_ply_coordinates()
    _, _, E, G, nu = self.slab.T
    Q = E / (1 - nu * nu)
    lower, upper = z[1:], z[:-1]
    h = lower - upper
    mid = (lower + upper) / 2
    self.A11 = (Q * h).sum()
    self.B11 = np.dot(Q * h, mid)
    self.D11 = np.sum(Q * (h * mid**2 + h**3 / 12))
    self.kA55 = self.k * (G @ h)
    self.K0 = np.square(self.B11) - self.A11 * self.D11


def calc_eigensystem(self):
    """eig"""
    ew, ev = np.linalg.eig(self.calc_system_matrix())
    isreal = (ew.imag == 0) & (ew.real != 0)
    iscomplex = ew.imag > 0
    self.ewC, self.evC = ew[iscomplex], ev[:, iscomplex]
    self.ewR, self.evR = ew[isreal].real, ev[:, isreal].real
    self.sR, self.sC = np.where(self.ewR > 0, -1, 0), np.where(np.real(self.ewC) > 0, -1, 0)


def zh(self, x, l=0, bed=True):
    """zh"""
    if not bed:
        ratio, c = self.B11 / self.A11, self.K0 / (self.A11 * self.kA55)
        out = np.zeros((6, 6))
        out[0, 3:] = 3 * ratio * x**2, 1, x
        out[1, 3:] = 6 * ratio * x, 0, 1
        out[2, :4] = 1, x, x**2, x**3
        out[3, :4] = 0, 1, 2 * x, 3 * x**2
        out[4, :4] = 0, -1, -2 * x, -3 * x**2 + 6 * c
        out[5, :4] = 0, 0, -2, -6 * x
        return out
    grow = np.exp(self.ewR * (x + l * self.sR))
    ring = np.exp(self.ewC.real * (x + l * self.sC))
    cos, sin = np.cos(self.ewC.imag * x), np.sin(self.ewC.imag * x)
    return np.hstack([self.evR * grow[None, :], (self.evC.real * cos - self.evC.imag * sin) * ring,
                      (self.evC.imag * cos + self.evC.real * sin) * ring])


def z(self, x, C, l, phi, bed=True):
    """z"""
    points = x if isinstance(x, (list, tuple, np.ndarray)) else [x]
    return np.concatenate([np.matmul(self.zh(p, l, bed), C) + self.zp(p, phi, bed) for p in points], axis=1)


# @ mixins.py
from copy import copy as _copy


# @ mixins.py FieldQuantitiesMixin
def dpsi_dx(self, Z):
    """psi'"""
    *_, last = Z
    return last


def dpsi_dxdx(self, z, phi):
    """psi''"""
    K, q = self.calc_system_matrix(), self.get_load_vector(phi)
    return K[5].dot(z) + q[5]


def du0_dxdx(self, z, phi):
    """u''"""
    K, q = self.calc_system_matrix(), self.get_load_vector(phi)
    return K[1] @ z + q[1]


def dz_dxdx(self, z, phi):
    """z''"""
    K = self.calc_system_matrix()
    return K.dot(K.dot(z) + self.get_load_vector(phi))


def Gi(self, Ztip, unit="kJ/m^2"):
    """GI"""
    s = self.sig(Ztip)
    return {"J/m^2": 1e3, "kJ/m^2": 1, "N/mm": 1}[unit] / 2 * s * s / self.kn


# @ mixins.py SlabContactMixin
def substitute_stiffness(self, L, support="rested", dof="rot"):
    """Spring of a bedded segment, computed on a copy of the model."""
    if dof not in ("rot", "trans"):
        raise UnboundLocalError("dof")
    other = _copy(self)
    other.system = dof
    if support == "rested":
        other.kn, other.kt = self.kn * self.ratio, self.kt * self.ratio
        other.calc_eigensystem()
    li, ki = np.array([L, 0.0]), np.array([True, True])
    C = other.assemble_and_solve(phi=0, li=li, ki=ki, mi=np.array([0]))
    start = other.z(0, C[:, [0]], L, 0, bed=True)
    if dof == "rot":
        response = other.psi(start)
    else:
        response = other.w(start) - other.w(other.zp(x=0, phi=0, bed=True))
    return abs(1 / response[0])


def _root(self, f, upper):
    """Root of f in the open interval up to upper."""
    return brentq(f, upper / 1000, 999 / 1000 * upper)


def _springs(self, l, support="supported"):
    return [self.substitute_stiffness(l, support, dof) for dof in ("rot", "trans")]


def calc_a1(self):
    """a1"""
    bs = self.D11 - self.B11**2 / self.A11
    qn, tc, ss, L = self.calc_qn(), self.tc, self.kA55, self.L

    def first_contact(x):
        kR, kN = self._springs(L - x)
        terms = [x**4 / (8 * bs), x**3 / (2 * kR), x**2 / (2 * ss), x / kN]
        return sum(terms) - tc / qn
    return self._root(first_contact, L)


def calc_a2(self):
    """a2"""
    bs = self.D11 - self.B11**2 / self.A11
    qn, tc, ss, L = self.calc_qn(), self.tc, self.kA55, self.L

    def full_contact(x):
        kR, kN = self._springs(L - x)
        c = [ss**2 * kR * kN * qn,
             6 * ss**2 * bs * kN * qn,
             30 * bs * ss * kR * kN * qn,
             24 * bs * qn * (2 * ss**2 * kR + 3 * bs * ss * kN),
             72 * bs * (bs * qn * (ss**2 + kR * kN) - ss**2 * kR * kN * tc),
             144 * bs * ss * (bs * kR * qn - bs * ss * kN * tc),
             -144 * bs**2 * ss * kR * kN * tc]
        value = 0
        for ci in c:
            value = value * x + ci
        return value
    return self._root(full_contact, L)


def calc_lA(self):
    """lA"""
    return self.a


def calc_lB(self):
    """lB"""
    return self.calc_lA()


def calc_touchdown_length(self):
    """length by mode"""
    modes = "ABC"
    i = modes.find(self.mode)
    self.td = (self.calc_lA, self.calc_lB, self.calc_lC)[i]()


def calc_touchdown_system(self, L, a, cf, phi, ratio=1000):
    """touchdown"""
    self.set_touchdown_attributes(L=L, a=a, cf=cf, phi=phi, ratio=ratio)
    for step in (self.calc_touchdown_mode, self.calc_touchdown_length):
        step()


# @ mixins.py SolutionMixin
def assemble_and_solve(self, phi, li, mi, ki):
    """solve"""
    if not any(ki):
        raise ValueError("Provide at least one supported segment.")
    if not (len(li) == len(ki) == len(mi) + 1):
        raise ValueError("Make sure len(li)=N, len(ki)=N, and len(mi)=N-1.")
    if self.system in ("skier", "skiers"):
        if not (ki[0] and ki[-1]):
            raise ValueError("Provide supported boundary segments")
        if min(li[0], li[-1]) < 5e3:
            print("WARNING: Boundary segments are short.")
    if len(li) == 1:
        li, ki, mi = [li[0], 0], [ki[0], True], [0]
    n = len(li)
    K = np.zeros((6 * n, 6 * n))
    f = np.zeros(6 * n)
    first, last = slice(0, 3), slice(6 * n - 3, 6 * n)
    for i, (l, k) in enumerate(zip(li, ki)):
        cols = slice(6 * i, 6 * i + 6)
        pos = "l" if i == 0 else ("r" if i == n - 1 else "m")
        h = self.eqs(zl=self.zh(x=0, l=l, bed=k), zr=self.zh(x=l, l=l, bed=k), k=k, pos=pos)
        p = self.eqs(zl=self.zp(x=0, phi=phi, bed=k), zr=self.zp(x=l, phi=phi, bed=k), k=k, pos=pos)
        row = max(6 * i - 3, 0)
        for j in range(len(h)):
            K[row + j, cols] = h[j]
            f[row + j] -= p[j, 0]
    for i in range(1, n):
        Fn, Ft = self.get_skier_load(mi[i - 1], phi)
        f[6 * i] += Ft
        f[6 * i + 1] -= Ft * self.h / 2
        f[6 * i + 2] += Fn
    contact = self.system in ("pst-", "-pst")
    if self.system in ("vpst-", "-vpst"):
        xs, zs, m = calc_vertical_bc_center_of_gravity(self.slab, phi)
        angle = np.deg2rad(phi)
        W = self.g * m
        face = np.array([-np.sin(angle), -(xs * np.cos(angle) + zs * np.sin(angle)), np.cos(angle)]) * W
        f[first] += face
        f[last] += face
    elif self.system == "rot":
        f = f + np.eye(6 * n)[1]
        f[first] = f[first] - self.bc(self.zp(x=0, phi=phi, bed=ki[0]))[:, 0] * 0
    elif self.system == "trans":
        f = f + np.eye(6 * n)[2]
    elif not contact:
        f[first] += self.bc(self.zp(x=0, phi=phi, bed=ki[0]))[:, 0]
        f[last] += self.bc(self.zp(x=li[-1], phi=phi, bed=ki[-1]))[:, 0]
    elif self.mode in ("B", "C"):
        N = 0 if self.mode == "B" else self.calc_qt() * (self.a - self.td)
        if not ki[0]:
            f[first] += np.array([-N, 0, self.tc])
        if not ki[-1]:
            f[last] += np.array([N, 0, self.tc])
    if self.system in ("rot", "trans"):
        # loads at the nodes do not act on substitute systems
        for i in range(1, n):
            Fn, Ft = self.get_skier_load(mi[i - 1], phi)
            f[6 * i:6 * i + 3] -= np.array([Ft, -Ft * self.h / 2, Fn])
    return np.linalg.solve(K, f[:, None]).reshape(n, 6).T


# @ mixins.py AnalysisMixin
def rasterize_solution(self, C, phi, li, ki, num=250, **kwargs):
    """raster"""
    keep = np.flatnonzero(li)
    lengths = [abs(li[i]) for i in keep]
    total = sum(lengths)
    xs, zs, bs = [], [], []
    offset = 0.0
    for j, i in enumerate(keep):
        last = j + 1 == len(keep)
        n = int(np.ceil(lengths[j] / total * num)) + (1 if last else 0)
        local = np.linspace(0, lengths[j], num=n, endpoint=last)
        supported = np.full(n, bool(ki[i]))
        if not ki[i] and j > 0 and n and ki[keep[j - 1]]:
            supported[0] = True
        xs.append(offset + local)
        zs.append(self.z(local, C[:, i:i + 1], lengths[j], phi, ki[i]))
        bs.append(supported)
        offset = offset + lengths[j]
    x = np.concatenate(xs)
    return x, np.concatenate(zs, axis=1), np.where(np.concatenate(bs), x, np.nan)


def ginc(self, C0, C1, phi, li, ki, k0, **kwargs):
    """ginc"""
    new = [j for j in range(len(li)) if k0[j] and not ki[j]]
    da = sum(li[j] for j in new)
    if not new:
        return np.zeros(3)
    parts = []
    for work in (self.int1, self.int2):
        total = 0
        for j in new:
            l = li[j]
            total += quad(lambda x: work(x, lambda s: self.z(s, C0[:, [j]], l, phi, bed=True),
                                         lambda s: self.z(s, C1[:, [j]], l, phi, bed=False)),
                          0, l, epsabs=self.tol, epsrel=self.tol)[0]
        parts.append(np.squeeze(total) / (2 * da))
    return np.array([parts[0] + parts[1], *parts])


def gdif(self, C, phi, li, ki, unit="kJ/m^2", **kwargs):
    """gdif"""
    ki = np.asarray(ki)
    tips = np.flatnonzero(ki[1:] != ki[:-1])
    G = np.zeros((2, len(tips)))
    for col, j in enumerate(tips):
        z = self.z(li[j], C[:, [j]], li[j], phi, bed=ki[j])
        G[:, col] = self.Gi(z, unit=unit)[0], self.Gii(z, unit=unit)[0]
    weights = np.full(len(tips), 0.5 if len(tips) > 1 else 1.0)
    if len(tips) > 1:
        if not ki[0]:
            weights[0] = 1
        if not ki[-1]:
            weights[-1] = 1
    modes = (G * weights).sum(axis=1)
    return np.insert(modes, 0, modes.sum())


def get_zmesh(self, dz=2):
    """mesh"""
    z = self.get_ply_coordinates()
    columns = []
    for i, (rho, h, E, G, nu) in enumerate(self.slab):
        n = 1 + int(np.ceil((z[i + 1] - z[i]) / dz))
        zi = np.linspace(z[i], z[i + 1], n)
        columns.append(np.vstack([zi, np.full(n, E), np.full(n, nu), np.full(n, rho)]))
    return np.hstack(columns).T


def _fields(self, dz):
    mesh = self.get_zmesh(dz=dz)
    return mesh[:, 0], mesh[:, 1] / (1 - mesh[:, 2] ** 2), 1e-12 * mesh[:, 3] * self.g


def Sxx(self, Z, phi, dz=2, unit="kPa"):
    """sxx"""
    z, Q, weight = self._fields(dz)
    sxx = np.array([Qi * self.du_dx(Z, zi) for zi, Qi in zip(z, Q)])
    for i in range(len(z)):
        j = min(i, len(z) - 2)
        sxx[i] = sxx[i] - weight[i] * np.sin(np.deg2rad(phi)) * (z[j + 1] - z[j])
    return sxx * {"kPa": 1e3, "MPa": 1}[unit]


def Txz(self, Z, phi, dz=2, unit="kPa"):
    """txz"""
    z, Q, weight = self._fields(dz)
    u2, psi2 = self.du0_dxdx(Z, phi), self.dpsi_dxdx(Z, phi)
    grad = Q[:, None] * (u2[None, :] + z[:, None] * psi2[None, :]) - weight[:, None] * np.sin(np.deg2rad(phi))
    out = np.zeros_like(grad)
    for i in range(1, len(z)):
        out[i] = out[i - 1] + (grad[i] + grad[i - 1]) * (z[i] - z[i - 1]) / 2
    return {"kPa": 1e3, "MPa": 1}[unit] * out


def Szz(self, Z, phi, dz=2, unit="kPa"):
    """szz"""
    z, Q, weight = self._fields(dz)
    u3, psi3 = self.du0_dxdxdx(Z, phi), self.dpsi_dxdxdx(Z, phi)
    curv = np.outer(Q, u3) + np.outer(Q * z, psi3)
    inner = cumulative_trapezoid(curv, z, axis=0, initial=0)
    inner = inner - weight[:, None] * np.cos(np.deg2rad(phi))
    return {"kPa": 1e3, "MPa": 1}[unit] * cumulative_trapezoid(inner, z, axis=0, initial=0)


# @ mixins.py OutputMixin
def external_potential(self, C, phi, L, **segments):
    """external"""
    _, z, _ = self.rasterize_solution(C=C, phi=phi, **segments)
    at_end = {"pst-": -1, "-pst": 0}
    end = at_end[self.system]
    seen = sum(segments["li"][:2])
    rest = L - seen
    qn = self.calc_qn()
    qt, pt = self.get_weight_load(self.phi)[1], self.get_surface_load(self.phi)[1]
    work = qn * (seen * self.w(z).mean() + rest * self.tc)
    for load, z0 in ((qt, self.zs), (pt, -self.h / 2)):
        u = self.u(z, z0=z0)
        work = work + load * (seen * u.mean() + rest * u[end])
    return -work


def internal_potential(self, C, phi, L, **segments):
    """internal"""
    li, ki = np.asarray(segments["li"]), np.asarray(segments["ki"])
    xq, zq, xb = self.rasterize_solution(C=C, phi=phi, **segments)
    bedded = zq[:, np.isfinite(xb)]
    N, M, V = (f(zq) for f in (self.N, self.M, self.V))
    ecc = self.B11 / self.A11
    bending = self.D11 - self.B11 * ecc
    energy = np.mean(N**2) / self.A11 + np.mean((M - ecc * N) ** 2) / bending + np.mean(V**2) / self.kA55
    total = li.sum() * energy / 2
    weak = np.mean(self.sig(bedded) ** 2) / self.kn + np.mean(self.tau(bedded) ** 2) / self.kt
    total += li[ki].sum() * weak / 2
    if self.system == "pst-":
        total -= M[-1] * self.psi(zq)[-1] / 2
    elif self.system == "-pst":
        total += M[0] * self.psi(zq)[0] / 2
    return total


def total_potential(self, C, phi, L, **segments):
    """total"""
    return sum(f(C, phi, L, **segments) for f in (self.internal_potential, self.external_potential))


def get_slab_displacement(self, x, z, loc="mid", unit="mm"):
    """u"""
    half = self.h / 2
    return 0.1 * x, self.u(z, {"top": -half, "mid": 0, "bot": half}[loc], unit)


def get_weaklayer_normalstress(self, x, z, unit="MPa", removeNaNs=False):
    """sig"""
    bedded = ~np.isnan(x)
    sig = self.sig(z, unit=unit)
    if removeNaNs:
        return x[bedded] / 10, sig[bedded]
    return x / 10, np.where(bedded, sig, np.nan)


# @ tools.py
def calc_center_of_gravity(layers):
    """cg"""
    rho, h = layers[:, 0], layers[:, 1]
    H = np.sum(h)
    mass, moment, top = 0, 0, -H / 2
    for r, t in zip(rho, h):
        mass += r * t
        moment += r * t * (top + t / 2)
        top += t
    return H, moment / mass


def calc_vertical_bc_center_of_gravity(slab, phi):
    """wedge"""
    tan = np.tan(np.radians(phi))
    if phi == 0:
        return 0, 0, 0
    rho, h = 1e-12 * slab[:, 0], slab[:, 1]
    H = h.sum()
    lower = np.cumsum(h) - H / 2
    upper = lower - h
    wide, narrow = (H / 2 - upper) * tan, (H / 2 - lower) * tan
    area = (wide + narrow) / 2 * h
    first = upper * area + h**2 * (wide + 2 * narrow) / 6
    w = np.dot(rho, area)
    zs = np.dot(rho, first) / w
    return (H / 2 - zs) * tan / 2, zs, w


# @ plot.py
def set_plotstyles():
    """styles"""
    label = dict(backgroundcolor='w', horizontalalignment='center', verticalalignment='center')
    palette = """DCDCDC B5B5B5 898989 535353  5D85C3 005AA9 004E8A 243572  009CDA 0083CC 00689D 004E73
        50B695 009D81 008877 00715E  AFCC50 99C000 7FAB16 6A8B22  DDDF48 C9D400 B1BD00 99A604
        FFE05C FDCA00 D7AC00 AE8E00  F8BA3C F5A300 D28700 BE6F00  EE7A34 EC6500 CC4C03 A94913
        E9503E E6001A B90F22 961C26  C9308E A60084 951169 732054  804597 721085 611C73 4C226A"""
    codes = ['#' + c for c in palette.split()]
    return label, np.array([codes[i:i + 4] for i in range(0, len(codes), 4)])


def stress_criteria(x, stress, **segments):
    """criteria"""
    plot_data(name='crit', ax1label=r'Criteria', ax1data=[[x * 0.1, stress, r'$\sigma/\sigma_\mathrm{c}$']], **segments)


def fea_stress(instance, xb, zb, fea):
    """fea stress"""
    xf = fea[:, 0] / 10
    curves = [[xf, 1e3 * fea[::-1, 2], r'FEA $\sigma_2$'], [xf, 1e3 * fea[::-1, 3], r'FEA $\tau_{12}$']]
    curves += [[xb / 10, f(zb, unit='kPa'), label] for f, label in ((instance.tau, r'$\tau$'), (instance.sig, r'$\sigma$'))]
    plot_data(name='fea_stress', ax1label=r'Stress (kPa)', ax1data=curves, labelpos=-50)
