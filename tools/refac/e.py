# @ eigensystem.py
from itertools import accumulate
from functools import reduce, lru_cache
import operator


# @ eigensystem.py Eigensystem
def set_foundation_properties(self, t=30.0, E=0.25, nu=0.25, update=False):
    """weak"""
    weak = {}
    weak.update(E=E, nu=nu)
    self.weak, self.t = weak, t
    update and self.calc_fundamental_system()


def set_beam_properties(self, layers, C0=6.5, C1=4.4, nu=0.25, update=False):
    """beam"""
    named = isinstance(layers, str)
    if named:
        *_, name = layers.split()
        layers, E = load_dummy_profile(name)
    else:
        layers = np.asarray(layers)
        E = np.array([bergfeld(rho, C0=C0, C1=C1) for rho in layers[:, 0]])
    n = len(layers)
    slab = np.empty((n, 5))
    slab[:, 0] = layers[:, 0]
    slab[:, 1] = layers[:, 1]
    slab[:, 2] = E
    slab[:, 3] = E / (2 + 2 * nu)
    slab[:, 4] = nu
    self.h, self.zs = calc_center_of_gravity(layers)
    self.k, self.slab = 5 / 6, slab
    if update:
        self.calc_fundamental_system()


def get_ply_coordinates(self):
    """ply"""
    return np.array(list(accumulate(self.slab[:, 1], initial=-self.h / 2)))


def _moment(self, n):
    """Integral of the plane-strain modulus times z^n."""
    z = self.get_ply_coordinates()
    total = 0
    for (_, _, E, _, nu), lower, upper in zip(self.slab, z[1:], z[:-1]):
        total += E / (1 - nu**2) * (lower**(n + 1) - upper**(n + 1)) / (n + 1)
    return total


def calc_laminate_stiffness_matrix(self):
    """ABD"""
    for name, order in (("A11", 0), ("B11", 1), ("D11", 2)):
        setattr(self, name, self._moment(order))
    self.kA55 = sum(self.k * G * h for _, h, _, G, _ in self.slab)
    self.K0 = -np.linalg.det(np.array([[self.A11, self.B11], [self.B11, self.D11]]))


def calc_system_matrix(self):
    """K = M^-1 N by solving the coupled equilibrium."""
    A, B, D, S = self.A11, self.B11, self.D11, self.kA55
    h, t, kn, kt = self.h, self.t, self.kn, self.kt
    # shear stress of the interface per state; horizontal equilibrium, moments
    tau = kt * np.array([1, 0, 0, -t / 2, h / 2, 0])
    V = S * np.array([0, 0, 0, 1, 1, 0])
    rhsN = tau
    rhsM = V + (h + t) / 2 * tau
    det = A * D - B * B
    upp = (D * rhsN - B * rhsM) / det
    psipp = (A * rhsM - B * rhsN) / det
    K = np.zeros((6, 6))
    K[1], K[5] = upp, psipp
    K[0, 1], K[2, 3], K[4, 5] = 1, 1, 1
    K[3] = np.array([0, 0, kn / S, 0, 0, -1])
    return K


def get_load_vector(self, phi):
    """q"""
    (qn, qt), (pn, pt) = self.get_weight_load(phi), self.get_surface_load(phi)
    m = self.h * pt - 2 * qt * self.zs
    f = 2 * (qt + pt)
    q = np.zeros((6, 1))
    q[1] = (self.B11 * m + self.D11 * f) / (2 * self.K0)
    q[3] = -(qn + pn) / self.kA55
    q[5] = -(self.A11 * m + self.B11 * f) / (2 * self.K0)
    return q


def calc_eigensystem(self):
    """eig"""
    values, vectors = np.linalg.eig(self.calc_system_matrix())
    real = [i for i, v in enumerate(values) if v.imag == 0 and v.real != 0]
    upper = [i for i, v in enumerate(values) if v.imag > 0]
    self.ewR, self.evR = np.real(values[real]), np.real(vectors[:, real])
    self.ewC, self.evC = values[upper], vectors[:, upper]
    self.sR = -1 * (self.ewR > 0)
    self.sC = -1 * (self.ewC.real > 0)


def _loads(self, phi):
    qn, qt = self.get_weight_load(phi)
    pn, pt = self.get_surface_load(phi)
    return qn, qt, pn, pt


def get_weight_load(self, phi):
    """q"""
    mass = reduce(operator.add, (rho * h for rho, h, *_ in self.slab), 0)
    q = mass * self.g / 1e12
    return q * np.cos(np.radians(phi)), q * np.sin(np.radians(-phi))


def get_skier_load(self, m, phi):
    """F"""
    F = np.multiply(m, self.g * 1e-3) / self.lski
    direction = np.deg2rad(phi)
    return F * np.cos(direction), F * -np.sin(direction)


def _bedded(self, x, l):
    cols = [v * np.exp(w * (x + l * s)) for v, w, s in zip(self.evR.T, self.ewR, self.sR)]
    osc = [(np.exp(w.real * (x + l * s)), w.imag * x, v) for v, w, s in zip(self.evC.T, self.ewC, self.sC)]
    cols += [e * (v.real * np.cos(p) - v.imag * np.sin(p)) for e, p, v in osc]
    cols += [e * (v.imag * np.cos(p) + v.real * np.sin(p)) for e, p, v in osc]
    return np.column_stack(cols)


def zh(self, x, l=0, bed=True):
    """zh"""
    if bed:
        return self._bedded(x, l)
    r = self.B11 / self.A11
    c = self.K0 / (self.A11 * self.kA55)
    u = [0, 0, 0, 3 * r * x**2, 1, x]
    du = [0, 0, 0, 6 * r * x, 0, 1]
    w = [x**n for n in range(4)] + [0, 0]
    dw = [n * x**(n - 1) if n else 0 for n in range(4)] + [0, 0]
    psi = [-v for v in dw]
    psi[3] += 6 * c
    dpsi = [0, 0, -2, -6 * x, 0, 0]
    return np.array([u, du, w, dw, psi, dpsi])


def zp(self, x, phi, bed=True):
    """zp"""
    qn, qt, pn, pt = self._loads(phi)
    n, s = qn + pn, qt + pt
    if bed:
        arm = qt * (self.h + self.t - 2 * self.zs) + pt * (2 * self.h + self.t)
        psi = -arm / (2 * self.kA55)
        out = [s / self.kt - psi * self.h / 2, 0, n / self.kn, 0, psi, 0]
        return np.array(out).reshape(-1, 1)
    A, B, K0 = self.A11, self.B11, self.K0
    w = -A * n * x**4 / (24 * K0)
    dw = -A * n * x**3 / (6 * K0)
    psi = -dw + ((self.zs - B / A) * qt - (self.h / 2 + B / A) * pt - n * x) / self.kA55
    out = np.zeros((6, 1))
    out[:, 0] = (-s / A * x**2 / 2 - B * n * x**3 / (6 * K0), -s / A * x - B * n * x**2 / (2 * K0), w, dw, psi,
                 n * (A * x**2 / (2 * K0) - 1 / self.kA55))
    return out


def z(self, x, C, l, phi, bed=True):
    """z"""
    if np.ndim(x) == 0:
        return self.zh(x, l, bed) @ C + self.zp(x, phi, bed)
    out = np.empty((6, len(x)))
    for j, xj in enumerate(x):
        out[:, j:j + 1] = self.z(xj, C, l, phi, bed)
    return out


# @ mixins.py SolutionMixin
def _free_end(self, z):
    return [self.N(z), self.M(z), self.V(z)]


def _clamped(self, z):
    return [self.u(z, z0=0), self.w(z), self.psi(z)]


def _contact_end(self, z, sign):
    N, M, _ = self._free_end(z)
    if self.mode == "C":
        M = M + sign * self.substitute_stiffness(self.a - self.td, "rested", "rot") * self.psi(z)
    return [N, M, self.w(z)]


def bc(self, z, k=False, pos="mid"):
    """bc"""
    table = dict.fromkeys(("vpst-", "-vpst", "pst-", "-pst", "rot", "trans"), self._free_end)
    table.update(dict.fromkeys(("skier", "skiers"), self._clamped))
    if self.system not in table:
        raise ValueError("Boundary conditions not defined")
    end = {"l": -1, "left": -1, "r": 1, "right": 1}.get(pos, 0)
    if self.system in ("pst-", "-pst") and not k and self.mode != "A" and end:
        return np.array(self._contact_end(z, end))
    return np.array(table[self.system](z))


def eqs(self, zl, zr, k=False, pos="mid"):
    """eqs"""
    side = pos[0] if pos in ("l", "left", "m", "mid", "r", "right") else None
    if side is None:
        raise ValueError("position")

    def both(z):
        return np.array(self._clamped(z) + self._free_end(z))
    top = self.bc(zl, k, pos) if side == "l" else -both(zl)
    bottom = self.bc(zr, k, pos) if side == "r" else both(zr)
    return np.concatenate((top, bottom))


def calc_segments(self, li=False, mi=False, ki=False, k0=False, L=1e4, a=0, m=0, phi=0, cf=0.5, ratio=1000, **kwargs):
    """segments"""
    self.calc_touchdown_system(L=L, a=a, cf=cf, phi=phi, ratio=ratio)
    system = self.system
    if system == "skier":
        half, free = (L - a) / 2, a / 2
        li, mi, ki = [half, free, free, half], [0, m, 0], [True, False, False, True]
        k0 = [True for _ in ki]
    elif system.strip("-") in ("pst", "vpst") and system.count("-") == 1:
        hang = self.td if system.strip("-") == "pst" else a
        li, mi, ki, k0 = [L - a, hang], [0], [True, False], [True, True]
        if system.startswith("-"):
            li, ki = li[::-1], ki[::-1]
    elif system != "skiers":
        raise ValueError(f"System {self.system} is not implemented.")
    li, mi, ki, k0 = (np.array(v) for v in (li, mi, ki, k0))
    out = {}
    for state, flags in (("nocrack", {"ki": k0}), ("crack", {"ki": ki}), ("both", {"ki": ki, "k0": k0})):
        out[state] = {"li": li, "mi": mi} | flags
    return out


def assemble_and_solve(self, phi, li, mi, ki):
    """solve"""
    N = len(li)
    if sum(bool(k) for k in ki) == 0:
        raise ValueError("Provide at least one supported segment.")
    if N != len(ki) or N != len(mi) + 1:
        raise ValueError("Make sure")
    pst = self.system in {"pst-", "-pst", "vpst-", "-vpst", "rot", "trans"}
    if not pst and not (bool(ki[0]) and bool(ki[-1])):
        raise ValueError("Provide supported boundary segments")
    if not pst and any(l < 5e3 for l in (li[0], li[-1])):
        print("WARNING")
    if N == 1:
        li, ki, mi, N = list(li) + [0], list(ki) + [True], list(mi) + [0], 2
    blocks, particular = [], []
    for i in range(N):
        pos = "l" if i == 0 else "r" if i == N - 1 else "m"
        ends = 0, li[i]
        H = self.eqs(*[self.zh(x=x, l=li[i], bed=ki[i]) for x in ends], k=ki[i], pos=pos)
        P = self.eqs(*[self.zp(x=x, phi=phi, bed=ki[i]) for x in ends], k=ki[i], pos=pos)
        before = 0 if i == 0 else 6 * i - 3
        after = 6 * N - before - H.shape[0]
        blocks.append(np.pad(H, ((before, after), (0, 0))))
        particular.append(np.pad(P, ((before, after), (0, 0))))
    matrix = np.hstack(blocks)
    rhs = np.zeros((6 * N, 1))
    for row, m in zip(range(6, 6 * N, 6), mi):
        Fn, Ft = self.get_skier_load(m, phi)
        rhs[row:row + 3, 0] = [Ft, -Ft * self.h / 2, Fn]
    ends = {0: slice(0, 3), N - 1: slice(6 * N - 3, 6 * N)}
    if self.system in ("vpst-", "-vpst"):
        xs, zs, m = calc_vertical_bc_center_of_gravity(self.slab, phi)
        c, s = np.cos(np.deg2rad(phi)), np.sin(np.deg2rad(phi))
        for rows in ends.values():
            rhs[rows, 0] = self.g * m * np.array([-s, -(xs * c + zs * s), c])
    elif self.system not in ("pst-", "-pst", "rested"):
        rhs[ends[0]] = self.bc(self.zp(x=0, phi=phi, bed=ki[0]))
        rhs[ends[N - 1]] = self.bc(self.zp(x=li[-1], phi=phi, bed=ki[-1]))
    elif self.mode in ("B", "C") and self.system != "rested":
        for i, rows in ends.items():
            if not ki[i]:
                N0 = self.calc_qt() * (self.a - self.td) if self.mode == "C" else 0
                rhs[rows, 0] = [N0 if i else -N0, 0, self.tc]
    if self.system in ("rot", "trans"):
        rhs = np.eye(6 * N)[:, [1 if self.system == "rot" else 2]]
    C = np.linalg.solve(matrix, rhs - sum(particular))
    return np.reshape(C, (N, 6)).transpose()


# @ mixins.py AnalysisMixin
def rasterize_solution(self, C, phi, li, ki, num=250, **kwargs):
    """raster"""
    segments = [(abs(l), bool(k), C[:, [i]]) for i, (l, k) in enumerate(zip(li, ki)) if l != 0]
    total = sum(l for l, _, _ in segments)
    counts = [int(np.ceil(l / total * num)) for l, _, _ in segments]
    counts[-1] += 1
    x, z, bedded = [], [], []
    start, previous = 0, False
    for j, ((l, k, c), n) in enumerate(zip(segments, counts)):
        end = j == len(segments) - 1
        local = np.linspace(0, l, n, endpoint=end)
        x.extend(start + local)
        z.append(self.z(local, c, l, phi, k))
        bedded.extend([k or (q == 0 and previous) for q in range(n)])
        start, previous = start + l, k
    x = np.array(x)
    xb = x.copy()
    xb[~np.array(bedded)] = np.nan
    return x, np.hstack(z), xb


def gdif(self, C, phi, li, ki, unit="kJ/m^2", **kwargs):
    """gdif"""
    flags = [bool(k) for k in ki]
    tips = [j for j, (p, q) in enumerate(zip(flags, flags[1:])) if p is not q]
    rows = []
    for j in tips:
        z = self.z(li[j], C[:, [j]], li[j], phi, bed=flags[j])
        weight = 0.5 if len(tips) > 1 else 1
        if len(tips) > 1 and (j == tips[0] and not flags[0] or j == tips[-1] and not flags[-1]):
            weight = 1
        rows.append((weight * self.Gi(z, unit)[0], weight * self.Gii(z, unit)[0]))
    G1, G2 = (sum(r[i] for r in rows) for i in (0, 1))
    return np.array([G1 + G2, G1, G2])


def get_zmesh(self, dz=2):
    """mesh"""
    rows = []
    top = -self.h / 2
    for rho, h, E, _, nu in self.slab:
        n = int(np.ceil(h / dz))
        rows += [[top + h * j / n, E, nu, rho] for j in range(n + 1)]
        top = top + h
    return np.array(rows)


def _weights(self, zi):
    """Lower-triangular trapezoidal integration matrix."""
    n = len(zi)
    W = np.zeros((n, n))
    for i in range(1, n):
        W[i] = W[i - 1]
        step = (zi[i] - zi[i - 1]) / 2
        W[i, i - 1] += step
        W[i, i] += step
    return W


def Sxx(self, Z, phi, dz=2, unit="kPa"):
    """sxx"""
    factor = {"kPa": 1e3, "MPa": 1}[unit]
    z, E, nu, rho = self.get_zmesh(dz=dz).T
    step = np.diff(z)
    step = np.append(step, step[-1])
    body = 1e-12 * rho * self.g * np.sin(np.deg2rad(-phi)) * step
    strain = np.outer(np.ones_like(z), Z[1]) + np.outer(z, Z[5])
    return factor * ((E / (1 - nu**2))[:, np.newaxis] * strain + body[:, np.newaxis])


def Txz(self, Z, phi, dz=2, unit="kPa"):
    """txz"""
    factor = {"kPa": 1e3, "MPa": 1}[unit]
    z, E, nu, rho = self.get_zmesh(dz=dz).T
    W = self._weights(z)
    zx = self.dz_dx(Z, phi)
    grad = (E / (1 - nu**2))[:, None] * (zx[1] + z[:, None] * zx[5])
    body = -1e-12 * rho * self.g * np.sin(np.radians(phi))
    return factor * (W @ (grad + body[:, None]))


def Szz(self, Z, phi, dz=2, unit="kPa"):
    """szz"""
    factor = {"kPa": 1e3, "MPa": 1}[unit]
    z, E, nu, rho = self.get_zmesh(dz=dz).T
    W = self._weights(z)
    zxx = self.dz_dxdx(Z, phi)
    curv = (E / (1 - nu**2))[:, None] * (zxx[1] + z[:, None] * zxx[5])
    body = 1e-12 * rho * self.g * np.cos(np.radians(phi))
    return factor * (W @ (W @ curv) - (W @ body)[:, None])


def ginc(self, C0, C1, phi, li, ki, k0, **kwargs):
    """ginc"""
    G = np.zeros(2)
    length = 0
    for j in range(len(li)):
        if not k0[j] or ki[j]:
            continue
        l = li[j]
        length += l

        def before(x):
            return self.z(x, C0[:, j:j + 1], l, phi, True)

        def after(x):
            return self.z(x, C1[:, j:j + 1], l, phi, False)
        for mode, work in enumerate((self.int1, self.int2)):
            value, _ = quad(work, 0, l, args=(before, after), epsabs=self.tol, epsrel=self.tol)
            G[mode] += value / 2
    G1, G2 = G / length if length else G
    return np.array([G1 + G2, G1, G2])
