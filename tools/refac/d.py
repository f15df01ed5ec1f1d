# @ mixins.py
from functools import partial
LENGTH = {"m": 1e-3, "cm": 1e-1, "mm": 1, "um": 1e3}
STRESS = {"kPa": 1e3, "MPa": 1}
ENERGY = dict.fromkeys(("kJ/m^2", "N/mm"), 1.0) | {"J/m^2": 1000.0}


# @ mixins.py FieldQuantitiesMixin
def w(self, Z, unit="mm"):
    """w"""
    _, _, deflection, _, _, _ = Z
    return deflection * LENGTH[unit]


def dw_dx(self, Z):
    return Z[3]


def psi(self, Z, unit="rad"):
    """psi"""
    factor = 1
    if unit in ("deg", "degree", "degrees"):
        factor = 180 / np.pi
    elif unit not in ("rad", "radian", "radians"):
        raise UnboundLocalError(unit)
    return factor * Z[4, :]


def u(self, Z, z0, unit="mm"):
    """u"""
    scale = LENGTH[unit]
    return scale * Z[0, :] + scale * z0 * Z[4, :]


def du_dx(self, Z, z0):
    return np.array([1, z0]) @ Z[[1, 5], :]


def _section(self, Z):
    ABD = np.array([[self.A11, self.B11], [self.B11, self.D11]])
    return ABD @ np.vstack([Z[1], Z[5]])


def N(self, Z):
    return self._section(Z)[0]


def M(self, Z):
    return self._section(Z)[1]


def V(self, Z):
    shear = self.dw_dx(Z) + self.psi(Z)
    return shear * self.kA55


def sig(self, Z, unit="MPa"):
    return STRESS[unit] * self.kn * self.t * self.eps(Z)


def tau(self, Z, unit="MPa"):
    return STRESS[unit] * self.kt * self.t * self.gamma(Z)


def eps(self, Z):
    return np.negative(Z[2, :]) / self.t


def gamma(self, Z):
    interface = Z[0, :] + self.h / 2 * Z[4, :]
    return (interface - Z[3, :] * self.t / 2) / self.t


def _err(self, stress, stiffness, unit):
    return np.square(stress) * ENERGY[unit] / 2 / stiffness


def Gi(self, Ztip, unit="kJ/m^2"):
    return self._err(self.sig(Ztip), self.kn, unit)


def Gii(self, Ztip, unit="kJ/m^2"):
    return self._err(self.tau(Ztip), self.kt, unit)


def int1(self, x, z0, z1):
    return -self.sig(z0(x)) * self.w(z1(x))


def int2(self, x, z0, z1):
    before, after = z0(x), z1(x)
    return self.t * self.gamma(after) * self.tau(before)


def dz_dx(self, z, phi):
    return self.get_load_vector(phi) + self.calc_system_matrix() @ z


def dz_dxdx(self, z, phi):
    return self.calc_system_matrix() @ self.dz_dx(z, phi)


def du0_dxdx(self, z, phi):
    _, second, *_ = self.dz_dx(z, phi)
    return second


# @ mixins.py SlabContactMixin
def _load(self, i):
    total = 0
    for f in (self.get_weight_load, self.get_surface_load):
        total += f(self.phi)[i]
    return total


def calc_qn(self):
    return self._load(0)


def calc_qt(self):
    return self._load(1)


def set_tc(self, cf):
    self.tc = -self.calc_qn() / self.kn + self.t * cf


def _bending(self):
    return self.D11 - self.B11 * self.B11 / self.A11


def substitute_stiffness(self, L, support="rested", dof="rot"):
    """spring"""
    saved = self.system, self.kn, self.kt
    self.system = dof
    rested = support == "rested"
    try:
        if rested:
            self.kn, self.kt = self.kn * self.ratio, self.kt * self.ratio
            self.calc_system_matrix()
            self.calc_eigensystem()
        li, ki = np.array([L, 0.0]), np.array([True, True])
        C = self.assemble_and_solve(phi=0, li=li, mi=np.array([0]), ki=ki)
        end = self.rasterize_solution(C=C, phi=0, li=li, ki=ki, num=1)[1][:, 0]
        if dof == "rot":
            answer = end[4]
        else:
            answer = end[2] - self.zp(x=0, phi=0, bed=True)[2, 0]
    finally:
        self.system, self.kn, self.kt = saved
        if rested:
            self.calc_system_matrix()
            self.calc_eigensystem()
    return 1 / np.abs(answer)


def calc_a1(self):
    """a1"""
    EI, kGA = self._bending(), self.kA55

    def gap(a, stiffness=self.substitute_stiffness, rest=self.tc / self.calc_qn()):
        kR, kN = (stiffness(self.L - a, "supported", d) for d in ("rot", "trans"))
        return a * (1 / kN + a * (1 / (2 * kGA) + a * (1 / (2 * kR) + a / (8 * EI)))) - rest

    return brentq(gap, 1e-3 * self.L, 0.999 * self.L)


def calc_lC(self):
    """lC"""
    EI, kGA = self._bending(), self.kA55
    tc, qn, a = self.tc, self.calc_qn(), self.a
    left = partial(self.substitute_stiffness, self.L - a, "supported")
    kRl, kNl = left("rot"), left("trans")

    def f(x):
        kRr = self.substitute_stiffness(a - x, "rested", "rot")
        c = [kGA**2 * kRl * kNl * qn,
             6 * kGA * kNl * qn * (EI * kGA + kRl * kRr),
             30 * EI * kGA * kNl * qn * (kRl + kRr),
             24 * EI * qn * (2 * kGA**2 * kRl + 3 * EI * kGA * kNl + 3 * kRl * kRr * kNl),
             72 * EI * (EI * qn * (kGA**2 + kNl * (kRl + kRr)) + kGA * kRl * (2 * kRr * qn - kGA * kNl * tc)),
             144 * EI * kGA * (EI * qn * (kRl + kRr) - kNl * tc * (EI * kGA + kRl * kRr)),
             -144 * EI**2 * kGA * kNl * tc * (kRl + kRr)]
        return np.polyval(c, x)

    return brentq(f, 0.001 * a, 0.999 * a)


def calc_a2(self):
    """a2"""
    EI, kGA = self._bending(), self.kA55
    tc, qn = self.tc, self.calc_qn()

    def f(x):
        kR = self.substitute_stiffness(self.L - x, "supported", "rot")
        kN = self.substitute_stiffness(self.L - x, "supported", "trans")
        c = (kGA**2 * kR * kN * qn,
             6 * kGA**2 * EI * kN * qn,
             30 * EI * kGA * kR * kN * qn,
             24 * EI * qn * (2 * kGA**2 * kR + 3 * EI * kGA * kN),
             72 * EI * (EI * qn * (kGA**2 + kR * kN) - kGA**2 * kR * kN * tc),
             144 * EI * kGA * (EI * kR * qn - EI * kGA * kN * tc),
             -144 * EI**2 * kGA * kR * kN * tc)
        total = 0
        for q in c:
            total = total * x + q
        return total

    return brentq(f, self.L * 0.001, self.L * 0.999)


def calc_touchdown_mode(self):
    """mode"""
    self.mode = "A"
    if self.touchdown:
        thresholds = [self.calc_a1(), self.calc_a2()]
        passed = sum(self.a > limit for limit in thresholds)
        self.mode = "ABC"[passed]


def calc_touchdown_length(self):
    """td"""
    self.td = self.calc_lC() if self.mode == "C" else self.a


def set_touchdown_attributes(self, L, a, cf, phi, ratio):
    self.L, self.a, self.phi, self.ratio = L, a, phi, ratio
    self.set_tc(cf)


# @ mixins.py AnalysisMixin
def _principal(self, a, b, c, val):
    if val not in ("min", "max"):
        raise ValueError(f"Component {val} not defined.")
    centre, radius = 0.5 * (a + b), np.hypot(0.5 * (a - b), c)
    return centre + radius if val == "max" else centre - radius


def principal_stress_slab(self, Z, phi, dz=2, unit="kPa", val="max", normalize=False):
    """ps"""
    if normalize and val == "min":
        raise ValueError("Can only normlize tensile stresses.")
    kw = dict(Z=Z, phi=phi, dz=dz, unit=unit)
    Ps = self._principal(self.Sxx(**kw), self.Szz(**kw), self.Txz(**kw), val)
    if not normalize:
        return Ps
    strength = tensile_strength_slab(self.get_zmesh(dz=dz)[:, 3], unit=unit)
    return (Ps.T / strength).T


def principal_stress_weaklayer(self, Z, sc=2.6, unit="kPa", val="min", normalize=False):
    """psw"""
    if normalize and val == "max":
        raise ValueError("Can only normlize compressive stresses.")
    ps = self._principal(0, self.sig(Z, unit=unit), self.tau(Z, unit=unit), val)
    if normalize:
        ps = ps / (sc if unit == "kPa" else 1e-3 * sc)
    return ps


# @ mixins.py OutputMixin
def _weak(self, x, values, drop):
    bedded = ~np.isnan(x)
    if drop:
        return x[bedded] / 10, values[bedded]
    return x / 10, np.where(bedded, values, np.nan)


def get_weaklayer_shearstress(self, x, z, unit="MPa", removeNaNs=False):
    return self._weak(x, self.tau(z, unit=unit), removeNaNs)


def get_weaklayer_normalstress(self, x, z, unit="MPa", removeNaNs=False):
    return self._weak(x, self.sig(z, unit=unit), removeNaNs)


def get_slab_displacement(self, x, z, loc="mid", unit="mm"):
    """u"""
    level = ["top", "mid", "bot"].index(loc) - 1
    return 0.1 * x, self.u(z, level * self.h / 2, unit)


def get_slab_deflection(self, x, z, unit="mm"):
    return np.multiply(x, 0.1), self.w(z, unit)


def get_slab_rotation(self, x, z, unit="degrees"):
    return tuple([x / 10, self.psi(z, unit)])


# @ inverse.py Inverse
def __init__(self, system='pst-', layers=None, parameters=(6.0, 4.6, 0.25)):
    """init"""
    super().__init__(system=system)
    C0, C1, Eweak = parameters
    self.set_foundation_properties(E=Eweak, update=False)
    profile = layers if layers is not None and len(layers) else [[240, 200]]
    self.set_beam_properties(layers=profile, C0=C0, C1=C1, update=True)


# @ layered.py Layered
def __init__(self, system='pst-', layers=None, touchdown=False):
    """init"""
    super().__init__(system=system, touchdown=touchdown)
    if layers is not None and len(layers) > 0:
        self.set_beam_properties(layers)
        self.set_foundation_properties()
        self.calc_fundamental_system()
    else:
        self.set_beam_properties([[240, 200]])
        self.set_foundation_properties()
        self.calc_fundamental_system()
