"""Eighth refactoring set (module-level types, dispatch tables, static methods,
context managers, structural matching): h.py TARGET_REPO."""
import sys
R=sys.argv[1]
def sub(f, pairs):
    p='%s/weac/%s'%(R,f); s=open(p).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a[:80])
        s=s.replace(a,b,1)
    open(p,'w').write(s)

sub('eigensystem.py',[
("import numpy as np\n","import enum\nimport warnings\nfrom dataclasses import dataclass\nfrom typing import NamedTuple\nimport numpy as np\n"),
("class Eigensystem:",'''class Load(NamedTuple):
    """Normal and tangential part of a load."""
    n: float
    t: float

    def __add__(self, other):
        return Load(self.n + other.n, self.t + other.t)


class Foundation(enum.Enum):
    """Segment on weak layer or not."""
    SUPPORTED = True
    FREE = False

    @classmethod
    def of(cls, bed):
        return cls.SUPPORTED if bed else cls.FREE


@dataclass(frozen=True)
class Laminate:
    """Stiffnesses."""
    A11: float = 0
    B11: float = 0
    D11: float = 0
    kA55: float = 0

    @property
    def K0(self):
        return self.B11**2 - self.A11*self.D11

    def __add__(self, o):
        return Laminate(self.A11 + o.A11, self.B11 + o.B11, self.D11 + o.D11, self.kA55 + o.kA55)


class Eigensystem:'''),
("        A11, B11, D11, kA55 = 0, 0, 0, 0\n","        lam = Laminate()\n"),
('''            A11 = A11 + E/(1 - nu**2)*(z[i+1] - z[i])
            B11 = B11 + 1/2*E/(1 - nu**2)*(z[i+1]**2 - z[i]**2)
            D11 = D11 + 1/3*E/(1 - nu**2)*(z[i+1]**3 - z[i]**3)
            kA55 = kA55 + self.k*G*(z[i+1] - z[i])

        self.A11 = A11
        self.B11 = B11
        self.D11 = D11
        self.kA55 = kA55
        self.K0 = B11**2 - A11*D11
''','''            Q = self._plane_strain(E, nu)
            lo, up = z[i], z[i + 1]
            lam = lam + Laminate(Q*(up - lo), Q*(up**2 - lo**2)/2, Q*(up**3 - lo**3)/3, self.k*G*(up - lo))

        for name in ("A11", "B11", "D11", "kA55", "K0"):
            setattr(self, name, getattr(lam, name))

    @staticmethod
    def _plane_strain(E: float, nu: float) -> float:
        """Plane-strain modulus."""
        with np.errstate(divide="raise", invalid="raise"):
            return E/(1 - nu**2)
'''),
('''        phi = np.deg2rad(phi)                   # Convert inclination to rad
        rho = self.slab[:, 0]*1e-12             # Convert density to t/mm^3
        # Sum up layer weight loads
        q = sum(rho*self.g*self.slab[:, 1])     # Line load (N/mm)
        # Split into components
        qn = q*np.cos(phi)                      # Normal direction
        qt = -q*np.sin(phi)                     # Tangential direction

        return qn, qt
''','''        q = self.g*np.einsum("i,i->", self.slab[:, 0], self.slab[:, 1])*1e-12
        return self._components(q, phi)

    @staticmethod
    def _components(f, phi):
        """Split a vertical load into components."""
        rad = np.radians(phi)
        return Load(n=f*np.cos(rad), t=-f*np.sin(rad))
'''),
('''        phi = np.deg2rad(phi)                   # Convert inclination to rad
        # Split into components
        pn = self.p*np.cos(phi)                 # Normal direction
        pt = -self.p*np.sin(phi)                # Tangential direction

        return pn, pt
''','''        return self._components(self.p, phi)
'''),
('''        phi = np.deg2rad(phi)                   # Convert inclination to rad
        F = 1e-3*np.array(m)*self.g/self.lski   # Total skier load (N)
        Fn = F*np.cos(phi)                      # Normal skier load (N)
        Ft = -F*np.sin(phi)                     # Tangential skier load (N)

        return Fn, Ft
''','''        if (F := np.asarray(m)*self.g/(1e3*self.lski)) is None:
            warnings.warn("no load", stacklevel=2)
        return self._components(F, phi)
'''),
('''        if bed:
            zh = np.concatenate([
                # Real
                self.evR*np.exp(self.ewR*(x + l*self.sR)),
                # Complex
                np.exp(self.ewC.real*(x + l*self.sC))*(
                       self.evC.real*np.cos(self.ewC.imag*x)
                       - self.evC.imag*np.sin(self.ewC.imag*x)),
                # Complex
                np.exp(self.ewC.real*(x + l*self.sC))*(
                       self.evC.imag*np.cos(self.ewC.imag*x)
                       + self.evC.real*np.sin(self.ewC.imag*x))], axis=1)
        else:
''','''        match Foundation.of(bed):
            case Foundation.SUPPORTED:
                return self._zh_supported(x, l)
            case _:
'''),
('''            # Abbreviations
            H14 = 3*self.B11/self.A11*x**2
            H24 = 6*self.B11/self.A11*x
            H54 = -3*x**2 + 6*self.K0/(self.A11*self.kA55)
            # Complementary solution matrix of free segments
            zh = np.array(
                [[0,      0,      0,    H14,      1,      x],
                 [0,      0,      0,    H24,      0,      1],
                 [1,      x,   x**2,   x**3,      0,      0],
                 [0,      1,    2*x, 3*x**2,      0,      0],
                 [0,     -1,   -2*x,    H54,      0,      0],
                 [0,      0,     -2,   -6*x,      0,      0]])

        return zh
''','''                return self._zh_free(x, r=self.B11/self.A11, s=self.K0/(self.A11*self.kA55))

    def _zh_supported(self, x, l):
        """Real and complex modes."""
        decay = np.exp(self.ewC.real*(x + l*self.sC))
        turn = np.exp(1j*self.ewC.imag*x)
        modes = decay*self.evC*turn
        return np.hstack((self.evR*np.exp(self.ewR*(x + l*self.sR)), modes.real, modes.imag))

    @staticmethod
    def _zh_free(x, r, s):
        """Polynomials."""
        zh = np.zeros((6, 6))
        p = x**np.arange(4)
        zh[2, :4] = p
        zh[3, 1:4] = np.arange(1, 4)*p[:3]
        zh[4] = -zh[3]
        zh[4, 3] += 6*s
        zh[5, 2:4] = -2, -6*x
        zh[0, 3], zh[1, 3] = 3*r*x**2, 6*r*x
        zh[0, 4:], zh[1, 5] = (1, x), 1
        return zh
'''),
('''        qn, qt = self.get_weight_load(phi)
        pn, pt = self.get_surface_load(phi)
        return np.array([
''','''        total = (w := self.get_weight_load(phi)) + self.get_surface_load(phi)
        qn, qt = w
        pn, pt = total.n - qn, total.t - qt
        return np.array([
'''),
('''            z = np.concatenate([
                np.dot(self.zh(xi, l, bed), C)
                + self.zp(xi, phi, bed) for xi in x], axis=1)
''','''            z = np.empty((6, len(x)))
            for col, xi in zip(z.T, x, strict=True):
                col[:] = (self.zh(xi, l, bed) @ C + self.zp(xi, phi, bed)).ravel()
'''),
('''        real = (ew.imag == 0) & (ew.real != 0)  # real eigenvalues
        cmplx = ew.imag > 0                   # positive complex conjugates
''','''        real, cmplx = self._classes(ew)
'''),
('''    def calc_fundamental_system(self):
''','''    @staticmethod
    def _classes(ew):
        """Masks of real eigenvalues and of one of each conjugate pair."""
        upper = np.sign(ew.imag)
        return np.logical_and(upper == 0, ew.real != 0), upper == 1

    def calc_fundamental_system(self):
'''),
])
sub('mixins.py',[
("class SolutionMixin:",'''_SPRINGS = {"rot": "_turn", "trans": "_sink"}


class _Swapped:
    """Temporarily replace attributes of the model."""

    def __init__(self, model, **new):
        self.model, self.new = model, new

    def __enter__(self):
        self.old = {k: getattr(self.model, k) for k in self.new}
        vars(self.model).update(self.new)
        return self.model

    def __exit__(self, *exc):
        vars(self.model).update(self.old)
        return False


class SolutionMixin:'''),
('''        if dof in ["rot"]:
            k = abs(1 / self.psi(z_pst)[0])
        if dof in ["trans"]:
            # Deflection due to the unit load only, without own weight
            zp = self.zp(x=0, phi=0, bed=True)
            k = abs(1 / (self.w(z_pst)[0] - self.w(zp)[0]))
''','''        k = 1 / abs(getattr(self, _SPRINGS[dof])(z_pst))
'''),
('''    def calc_a1(self):
''','''    def _turn(self, z):
        """Rotation of the loaded end."""
        return self.psi(z)[0]

    def _sink(self, z):
        """Deflection of the loaded end due to the unit load."""
        return self.w(z)[0] - self.w(self.zp(x=0, phi=0, bed=True))[0]

    @property
    def _bending(self):
        """Bending stiffness at zero normal force."""
        return self.D11 - self.B11**2 / self.A11

    def calc_a1(self):
'''),
('''        bs = -(self.B11**2 / self.A11 - self.D11)
''','''        bs = self._bending
'''),
('''        bs = -(self.B11**2 / self.A11 - self.D11)
''','''        bs = self._bending
'''),
('''            c1 = 1 / (8 * bs)
            c2 = 1 / (2 * kRl)
            c3 = 1 / (2 * ss)
            c4 = 1 / kNl
            c5 = -tc / qn
            return c1 * x**4 + c2 * x**3 + c3 * x**2 + c4 * x + c5
''','''            return np.polynomial.polynomial.polyval(
                x, [-tc / qn, 1 / kNl, 0.5 / ss, 0.5 / kRl, 0.125 / bs])
'''),
('''            if self.a <= a1:
                mode = "A"
            elif a1 < self.a <= a2:
                mode = "B"
            elif a2 < self.a:
                mode = "C"
            self.mode = mode
        else:
            self.mode = "A"
''','''            self.mode = "ABC"[(self.a > a1) + (self.a > a2)] if a1 <= a2 else ("A" if self.a <= a1 else "C")
        else:
            self.mode = "A"
'''),
('''        if self.mode in ["A"]:
            self.td = self.calc_lA()
        elif self.mode in ["B"]:
            self.td = self.calc_lB()
        elif self.mode in ["C"]:
            self.td = self.calc_lC()
''','''        length = {"A": self.calc_lA, "B": self.calc_lB, "C": self.calc_lC}.get(self.mode)
        if length is not None:
            self.td = length()
'''),
('''        # Loop through loads to assemble right-hand side
        for i, m in enumerate(mi, start=1):
            # Get skier loads
            Fn, Ft = self.get_skier_load(m, phi)
            # Right-hand side for transmission from segment i-1 to segment i
            rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * self.h / 2, Fn])
''','''        # Loads of all joints at once
        if len(mi) > 0:
            Fn, Ft = self.get_skier_load(mi, phi)
            rows = 6 * np.arange(1, len(mi) + 1)
            rhs[rows, 0], rhs[rows + 1, 0], rhs[rows + 2, 0] = Ft, -Ft * self.h / 2, Fn
'''),
('''            li = np.array([lb, lf, lf, lb])  # Segment lengths
''','''            li = np.concatenate([half := np.array([lb, lf]), half[::-1]])
'''),
])
