# @ eigensystem.py Eigensystem
def _split(self, F, phi):
    phi = np.radians(phi)
    return F * np.cos(phi), -(F * np.sin(phi))


def get_weight_load(self, phi):
    """Line loads."""
    rho, h = self.slab[:, 0], self.slab[:, 1]
    q = 1e-12 * self.g * np.dot(rho, h)
    return self._split(q, phi)


def get_surface_load(self, phi):
    """Surface."""
    return self._split(self.p, phi)


def get_skier_load(self, m, phi):
    """Skier."""
    m = np.asarray(m)
    return self._split(m / 1000 * self.g / self.lski, phi)


def calc_laminate_stiffness_matrix(self):
    """ABD"""
    z = self.get_ply_coordinates()
    E, G, nu = self.slab.T[2:5]
    Q = E / (1 - nu**2)
    self.A11 = np.sum(Q * np.diff(z))
    self.B11 = np.sum(Q * np.diff(z**2)) / 2
    self.D11 = np.sum(Q * np.diff(z**3)) / 3
    self.kA55 = self.k * (G @ np.diff(z))
    self.K0 = self.B11 * self.B11 - self.A11 * self.D11


def get_ply_coordinates(self):
    """Ply."""
    z = [-self.h / 2]
    for t in self.slab[:, 1]:
        z.append(z[-1] + t)
    return np.array(z)


def calc_foundation_stiffness(self):
    """kn kt"""
    E, nu = self.weak['E'], self.weak['nu']
    self.kn = E / self.t / (1 - nu * nu)
    self.kt = (0.5 * E / (1 + nu)) / self.t


def calc_system_matrix(self):
    """K"""
    A, B, D, S = self.A11, self.B11, self.D11, self.kA55
    kn, kt, h, t = self.kn, self.kt, self.h, self.t
    K0 = self.K0
    arm = h + t
    K = np.zeros((6, 6))
    K[0, 1] = K[2, 3] = K[4, 5] = 1
    K[3, 5] = -1
    K[3, 2] = kn / S
    K[1, 0] = kt * (B * arm - 2 * D) / (2 * K0)
    K[5, 0] = kt * (2 * B - A * arm) / (2 * K0)
    K[1, 3] = (4 * B * S - kt * t * (B * arm - 2 * D)) / (4 * K0)
    K[1, 4] = (h * kt * (B * arm - 2 * D) + 4 * B * S) / (4 * K0)
    K[5, 3] = -(kt * t * (2 * B - A * arm) + 4 * A * S) / (4 * K0)
    K[5, 4] = (kt * h * (2 * B - A * arm) - 4 * A * S) / (4 * K0)
    return K


def get_load_vector(self, phi):
    """q"""
    qn, qt = self.get_weight_load(phi)
    pn, pt = self.get_surface_load(phi)
    n, t = qn + pn, qt + pt
    m = self.h * pt - 2 * qt * self.zs
    q = np.zeros((6, 1))
    q[1] = (self.B11 * m + 2 * self.D11 * t) / (2 * self.K0)
    q[3] = -n / self.kA55
    q[5] = -(self.A11 * m + 2 * self.B11 * t) / (2 * self.K0)
    return q


def calc_eigensystem(self):
    """Eigen"""
    w, v = np.linalg.eig(self.calc_system_matrix())
    isreal = np.logical_and(np.imag(w) == 0, np.real(w) != 0)
    iscmplx = np.imag(w) > 0
    self.ewC, self.evC = w[iscmplx], v[:, iscmplx]
    self.ewR, self.evR = np.real(w[isreal]), np.real(v[:, isreal])
    self.sR = np.where(self.ewR > 0, -1.0, 0.0)
    self.sC = np.where(self.ewC.real > 0, -1.0, 0.0)


def _free(self, x):
    r = self.B11 / self.A11
    zh = np.zeros((6, 6))
    zh[0, 3:] = [3 * r * x**2, 1, x]
    zh[1, 3:] = [6 * r * x, 0, 1]
    zh[2, :4] = [1, x, x**2, x**3]
    zh[3, :4] = [0, 1, 2 * x, 3 * x**2]
    zh[4, :4] = [0, -1, -2 * x, 6 * self.K0 / (self.A11 * self.kA55) - 3 * x**2]
    zh[5, 2:4] = [-2, -6 * x]
    return zh


def zh(self, x, l=0, bed=True):
    """zh"""
    if not bed:
        return self._free(x)
    lr, li = self.ewC.real, self.ewC.imag
    vr, vi = self.evC.real, self.evC.imag
    decay = np.exp(lr * (x + l * self.sC))
    c, s = np.cos(li * x), np.sin(li * x)
    return np.hstack((
        self.evR * np.exp(self.ewR * (x + l * self.sR)),
        decay * (vr * c - vi * s),
        decay * (vi * c + vr * s),
    ))


def zp(self, x, phi, bed=True):
    """zp"""
    qn, qt = self.get_weight_load(phi)
    pn, pt = self.get_surface_load(phi)
    q, tt = qn + pn, qt + pt
    h, t, zs, S = self.h, self.t, self.zs, self.kA55
    zp = np.zeros((6, 1))
    if bed:
        rot = (qt * (h + t - 2 * zs) + pt * (2 * h + t)) / (2 * S)
        zp[[0, 2, 4], 0] = tt / self.kt + h / 2 * rot, q / self.kn, -rot
        return zp
    A, B, K0 = self.A11, self.B11, self.K0
    zp[0] = (-3 * tt / A - B * q * x / K0) / 6 * x**2
    zp[1] = (-2 * tt / A - B * q * x / K0) / 2 * x
    zp[2] = -A * q * x**4 / (24 * K0)
    zp[3] = -A * q * x**3 / (6 * K0)
    zp[4] = -zp[3] + ((zs - B / A) * qt - (h / 2 + B / A) * pt - q * x) / S
    zp[5] = q * (A * x**2 / (2 * K0) - 1 / S)
    return zp


def z(self, x, C, l, phi, bed=True):
    """z"""
    def at(xi):
        return self.zh(xi, l, bed) @ C + self.zp(xi, phi, bed)
    if np.ndim(x) == 0:
        return at(x)
    return np.hstack([at(xi) for xi in x])


def set_beam_properties(self, layers, C0=6.5, C1=4.4, nu=0.25, update=False):
    """beam"""
    if isinstance(layers, str):
        name = layers.split()[-1]
        layers, E = load_dummy_profile(name)
    else:
        layers = np.asarray(layers)
        rho, _ = layers.T
        E = bergfeld(rho, C0=C0, C1=C1)
    n = len(layers)
    nu = np.full(n, nu)
    G = E / 2 / (1 + nu)
    self.k = 5 / 6
    self.h, self.zs = calc_center_of_gravity(layers)
    self.slab = np.column_stack([layers, E, G, nu])
    if update:
        self.calc_fundamental_system()
