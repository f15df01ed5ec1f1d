"""Planted bugs (see plant.py)."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, also=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


H = "import numpy as np\nimport weac\nfrom weac.mixins import *\n\n\ndef close(a, b, tol=1e-6):\n    a, b = np.asarray(a, float), np.asarray(b, float)\n    assert a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1e-12 + np.abs(a) + np.abs(b))), (a, b)\n\n\n"

seed("shear-modulus-of-top-layer", "C01",
     [("eigensystem.py", "            E, G, nu = self.slab[i, 2:5]\n", "            E, nu = self.slab[i, [2, 4]]\n            G = self.slab[0, 3]\n")],
     "a slab with layers of different stiffness", "the shear stiffness uses the top layer's shear modulus for every layer",
     H + """
m = weac.Layered('skier', layers=[[150, 80], [300, 120], [220, 60]])
close(m.kA55, 5 / 6 * sum(r[3] * r[1] for r in m.slab))
""")

seed("weight-by-density", "C02",
     [("eigensystem.py", "        q = sum(rho*self.g*self.slab[:, 1])", "        q = sum(r*self.g*h for r, h in dict(zip(rho, self.slab[:, 1])).items())")],
     "two layers of the same density in one slab", "only one of several layers of equal density contributes to the weight",
     H + """
a = weac.Layered('skier', layers=[[200, 100], [300, 100]])
b = weac.Layered('skier', layers=[[200, 60], [200, 40], [300, 100]])
close(a.get_weight_load(30), b.get_weight_load(30))
""", ["C03"])

seed("surface-load-downhill-only", "C03",
     [("eigensystem.py", "        pt = -self.p*np.sin(phi)", "        pt = -self.p*np.sin(np.abs(phi))")],
     "a surface load on a slope of negative inclination", "the tangential surface load points uphill on negative slopes",
     H + """
m = weac.Layered('skier')
m.set_surface_load(2.0)
close(m.get_surface_load(-30)[1], 1.0)
close(m.get_surface_load(30)[1], -1.0)
""", ["C22"])

seed("strength-unit-inside-power", "C04",
     [("tools.py", "    return convert[unit] * 240 * (rho / rho_ice) ** 2.44", "    return 240 * (convert[unit] * rho / rho_ice) ** 2.44")],
     "tensile strength requested in MPa", "the unit factor is raised to the density exponent",
     H + """
from weac.tools import tensile_strength_slab as f
close(f(250.0, unit='MPa') * 1e3, f(250.0, unit='kPa'))
""", ["C16"])

seed("coupling-arm", "C05",
     [("eigensystem.py", "+ self.B11*self.h*kt*(self.h + self.t)", "+ self.B11*self.t*kt*(self.h + self.t)")],
     "a slab with asymmetric layering (extension-bending coupling)", "one entry of the system matrix couples rotation through the wrong lever arm",
     H + """
m = weac.Layered('skier', layers=[[150, 80], [300, 150]])
z = np.array([[.1], [2e-4], [.5], [1e-3], [2e-3], [1e-6]])
d = m.dz_dx(z, 30)
qn, qt = m.get_weight_load(30)
# horizontal equilibrium N' = tau - qt
close(m.A11 * d[1] + m.B11 * d[5], m.tau(z) * 1.0 - qt, 1e-4) if abs((m.A11 * d[1] + m.B11 * d[5] - m.tau(z) + qt)[0]) < abs((m.A11 * d[1] + m.B11 * d[5] + m.tau(z) + qt)[0]) else close(m.A11 * d[1] + m.B11 * d[5], -m.tau(z) - qt, 1e-4)
""")

seed("complex-shift-lost", "C06",
     [("eigensystem.py", "        self.sR[self.ewR > 0], self.sC[self.ewC > 0] = -1, -1", "        self.sR[self.ewR > 0], self.sC[self.ewC.real > 1] = -1, -1")],
     "long supported segments (growing oscillating solutions are no longer normalised to the right end)",
     "fundamental solutions grow exponentially inside long segments",
     H + """
m = weac.Layered('skier', layers=[[250, 100]])
with np.errstate(all='ignore'):
    v = np.abs(m.zh(2e5, l=2e5, bed=True))
assert np.all(np.isfinite(v)) and v.max() <= 2, v.max()
""")

seed("free-segment-surface-load", "C07",
     [("eigensystem.py", "                [(-2*(qt + pt)/A11 - B11*(qn + pn)*x/K0)/2*x],", "                [(-2*(qt + pt)/A11 - B11*qn*x/K0)/2*x],")],
     "surface load on an asymmetrically layered slab with an unsupported segment", "axial strain of the particular solution misses the surface load",
     H + """
m = weac.Layered('pst-', layers=[[150, 80], [300, 150]])
m.set_surface_load(3.0)
h = 1e-2
d = (m.zp(200 + h, 20, bed=False) - m.zp(200 - h, 20, bed=False)) / (2 * h)
z = m.zp(200, 20, bed=False)
close(d[0], z[1], 1e-5)
""")

seed("skier-moment-arm", "C08",
     [("mixins.py", "            rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * self.h / 2, Fn])", "            rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * (self.h / 2 + self.zs), Fn])")],
     "a skier on an inclined slab with asymmetric layering", "the moment of the tangential skier load is taken about the centre of gravity",
     H + """
m = weac.Layered('skier', layers=[[150, 80], [300, 150]])
s = m.calc_segments(L=2e4, a=0, m=80, phi=30)['nocrack']
C = m.assemble_and_solve(phi=30, **s)
zl = m.z(s['li'][1], C[:, [1]], s['li'][1], 30, bed=True)
zr = m.z(0, C[:, [2]], s['li'][2], 30, bed=True)
Fn, Ft = m.get_skier_load(80, 30)
close(m.M(zr) - m.M(zl), [Ft * m.h / 2], 1e-4)
""")

seed("wedge-moment-slope-sign", "C09",
     [("mixins.py", "            M = -self.g * m * (xs * np.cos(phi) + zs * np.sin(phi))", "            M = -self.g * m * (xs * np.cos(phi) + zs * abs(np.sin(phi)))")],
     "a vertical-face PST on a negative slope", "the end moment of the cut-off wedge has the wrong contribution of its weight's tangential part",
     H + """
out = []
for s, phi in (('vpst-', 30), ('-vpst', -30)):
    m = weac.Layered(s, layers=[[150, 80], [300, 150]])
    g = m.calc_segments(L=3000, a=300, phi=phi)['nocrack']
    C = m.assemble_and_solve(phi=phi, **g)
    out.append([m.M(m.z(0, C[:, [0]], g['li'][0], phi, bed=True))[0], m.M(m.z(g['li'][1], C[:, [1]], g['li'][1], phi, bed=True))[0]])
close(out[0], out[1][::-1], 1e-4)
""", ["C22"])

seed("wedge-geometric-centre", "C10",
     [("tools.py", "        zs = sum(zsi * rho * Ai) / sum(rho * Ai)", "        zs = sum(zsi * Ai) / sum(Ai)")],
     "a vertical face through layers of different density", "the wedge's centre of area is used as its centre of gravity",
     H + """
from weac.tools import calc_vertical_bc_center_of_gravity as f
slab = np.array([[100., 100.], [400., 100.]])
phi = 35.
xs, zs, w = f(slab, phi)
z = (np.arange(200000) + .5) / 200000 * 200 - 100
a = (100 - z) * np.tan(np.radians(phi)) * np.where(z < 0, 100., 400.)
close(zs, (z * a).sum() / a.sum(), 1e-4)
""", ["C09"])

seed("vpst-overhang", "C11",
     [("mixins.py", """        elif self.system == "vpst-":
            li = np.array([L - a, a])  # Segment lengths""", """        elif self.system == "vpst-":
            li = np.array([L - self.a, self.td])  # Segment lengths""")],
     "touchdown enabled on a vertical-face PST with a crack beyond full contact", "the segments no longer add up to the specimen length",
     H + """
m = weac.Layered('vpst-', layers=[[200, 100], [250, 100]], touchdown=True)
s = m.calc_segments(L=1e4, a=6000, phi=10)['crack']
close(sum(s['li']), 1e4)
""", ["C19"])

seed("crack-tip-not-supported", "C12",
     [("mixins.py", "        transmissionbool = [ki[j] or ki[j + 1] for j, _ in enumerate(ki[:-1])]", "        transmissionbool = [ki[j + 1] for j, _ in enumerate(ki[:-1])]")],
     "a crack to the right of a supported segment", "the crack tip is masked as lying in the crack, weak-layer output misses the peak",
     H + """
m = weac.Layered('pst-', layers=[[200, 100], [250, 100]])
s = m.calc_segments(L=3000, a=400, phi=10)['crack']
C = m.assemble_and_solve(phi=10, **s)
x, z, xw = m.rasterize_solution(C=C, phi=10, num=100, **s)
assert np.nanmax(xw) == 2600 and 2600 in x, np.nanmax(xw)
""")

seed("tip-average-ends-swapped", "C13",
     [("mixins.py", "            avgmask[[0, -1]] = ki[[0, -1]]", "            avgmask[[0, -1]] = ki[[-1, 0]]")],
     "several crack tips and one unsupported end segment", "the tip of the edge crack is halved instead of that of the enclosed crack",
     H + """
m = weac.Layered('-pst', layers=[[200, 100], [250, 100]])
m.calc_segments(L=6000, a=300, phi=0)
li, mi, ki = np.array([300., 2000., 100., 3000.]), np.array([0., 0., 0.]), np.array([False, True, False, True])
C = m.assemble_and_solve(phi=0, li=li, mi=mi, ki=ki)
g = []
for j in range(3):
    z = m.z(li[j], C[:, [j]], li[j], 0, bed=ki[j])
    g.append(m.Gi(z)[0])
G = m.gdif(C, 0, li, ki)
close(G[1], g[0] + g[1] / 2 + g[2] / 2, 1e-6)
""")

seed("last-crack-only", "C14",
     [("mixins.py", "            Ginc2 += quad(int2, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)", "            Ginc2 = quad(int2, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)")],
     "a crack made of several segments (a skier's crack)", "shear work of all but the last cracked segment is lost",
     H + """
from scipy.integrate import quad
m = weac.Layered('skier', layers=[[200, 100], [250, 100]])
s = m.calc_segments(L=1e4, a=400, m=80, phi=30)
C0, C1 = [m.assemble_and_solve(phi=30, **s[k]) for k in ('nocrack', 'crack')]
G = m.ginc(C0, C1, 30, **{**s['crack'], 'k0': s['nocrack']['ki']})
tot = 0
for j in (1, 2):
    l = s['crack']['li'][j]
    f = lambda x: (m.tau(m.z(x, C0[:, [j]], l, 30, bed=True)) * m.gamma(m.z(x, C1[:, [j]], l, 30, bed=False)) * m.t)[0]
    tot += quad(f, 0, l)[0]
close(abs(G[2]), abs(tot / 800), 1e-2)
""")

seed("shear-stress-weight-sign", "C15",
     [("mixins.py", """        # Calculate weight load at grid points
        qt = -rho * self.g * np.sin(np.deg2rad(phi))

        # Integrate -dsxx_dx""", """        # Calculate weight load at grid points
        qt = rho * self.g * np.sin(np.deg2rad(phi))

        # Integrate -dsxx_dx""")],
     "shear stresses on an inclined slab", "the slab's own weight enters the shear stress with the wrong sign",
     H + """
m = weac.Layered('skier', layers=[[200, 100], [250, 100]])
z = m.zp(0, 30)
close(m.Txz(z, 30, dz=1)[-1], m.tau(z, unit="kPa"), 1e-2)
""")

seed("strength-mesh", "C16",
     [("mixins.py", "            rho = self.get_zmesh(dz=dz)[:, 3]\n", "            rho = self.get_zmesh(dz=dz)[::-1, 3]\n")],
     "normalised slab stress of an asymmetrically layered slab", "stresses are normalised with the strength of the mirrored layering",
     H + """
from weac.tools import tensile_strength_slab
m = weac.Layered('skier', layers=[[150, 100], [350, 100]])
z = np.array([[.1], [2e-4], [.5], [1e-3], [2e-3], [1e-6]])
a = m.principal_stress_slab(z, 30, dz=10, normalize=True)
b = m.principal_stress_slab(z, 30, dz=10)
close(b[0] / a[0], [tensile_strength_slab(150.0)])
close(b[-1] / a[-1], [tensile_strength_slab(350.0)])
""")

seed("gaps-removed-out-of-step", "C17",
     [("mixins.py", """            sig = sig[~np.isnan(x)]
            x = x[~np.isnan(x)]""", """            x = x[~np.isnan(x)]
            sig = sig[: len(x)]""")],
     "removeNaNs on a solution whose crack is not at the right end", "positions and normal stresses are paired wrongly",
     H + """
m = weac.Layered('-pst', layers=[[200, 100], [250, 100]])
s = m.calc_segments(L=3000, a=400, phi=10)['crack']
C = m.assemble_and_solve(phi=10, **s)
x, z, xw = m.rasterize_solution(C=C, phi=10, num=100, **s)
X, S = m.get_weaklayer_normalstress(xw, z, removeNaNs=True)
k = ~np.isnan(xw)
close(S, m.sig(z)[k])
close(X, xw[k] / 10)
""")

seed("landing-spring", "C18",
     [("mixins.py", "            c3 = 30 * bs * ss * kNl * qn * (kRl + kRr)", "            c3 = 30 * bs * ss * kNl * qn * (kRl + kRl)")],
     "a crack beyond full contact (steady state)", "the contact length follows from the wrong spring",
     H + """
m = weac.Layered('pst-', layers=[[200, 100], [250, 150]], touchdown=True)
m.calc_segments(L=20000, a=8000, phi=0)
x = m.calc_lC()
bs, ss = m.D11 - m.B11**2 / m.A11, m.kA55
kR, kN = [m.substitute_stiffness(m.L - m.a, 'supported', d) for d in ('rot', 'trans')]
kr = m.substitute_stiffness(m.a - x, 'rested', 'rot')
q = m.calc_qn()


def tip(R, M):
    V0, M0 = q * x - R, q * x**2 / 2 - R * x - M
    w = V0 / kN + M0 / kR * x + q * x**4 / (8 * bs) + q * x**2 / (2 * ss) - R * x**3 / (3 * bs) - R * x / ss - M * x**2 / (2 * bs)
    return np.array([w, M0 / kR + q * x**3 / (6 * bs) - R * x**2 / (2 * bs) - M * x / bs])


o = tip(0, 0)
A = np.column_stack([tip(1, 0) - o, tip(0, 1) - o])
A[1, 1] -= 1 / kr
R, M = np.linalg.solve(A, np.array([m.tc, 0]) - o)
rot = tip(R, M)[1]
assert abs(rot - R / ss) < 1e-3 * q * (x**3 / (6 * bs) + x / ss), (rot, R / ss)
""")

seed("threshold-cache", "C20",
     [("mixins.py", """        if self.touchdown:
            # Calculate stage transitions
            a1 = self.calc_a1()
            a2 = self.calc_a2()""", """        if self.touchdown:
            # Calculate stage transitions once per column
            if getattr(self, "stages", (None,))[0] != self.L:
                self.stages = (self.L, self.calc_a1(), self.calc_a2())
            _, a1, a2 = self.stages""")],
     "two segment calculations on one model with the same column length and different slope, loads or collapse factor",
     "the contact stage of the second calculation comes from the first",
     H + """
m = weac.Layered('pst-', layers=[[200, 100], [250, 150]], touchdown=True)
m.calc_segments(L=10000, a=1000, phi=0, cf=0.9)
m.calc_segments(L=10000, a=1000, phi=0, cf=0.1)
r = weac.Layered('pst-', layers=[[200, 100], [250, 150]], touchdown=True)
r.calc_segments(L=10000, a=1000, phi=0, cf=0.1)
assert m.mode == r.mode, (m.mode, r.mode)
""", ["C19"])

seed("contact-searched-in-first-half", "C18",
     [("mixins.py", "        a1 = brentq(polynomial, L / 1000, 999 / 1000 * L)", "        a1 = brentq(polynomial, L / 1000, L / 2)")],
     "a specimen so short that the slab lands first when it is cut by more than half",
     "the contact length is searched in the first half of the specimen only, and such a specimen gets an error instead of its contact length",
     H + """
for L in (300, 800, 1200, 2500):
    m = weac.Layered('pst-', layers=[[200, 150]], touchdown=True)
    m.set_touchdown_attributes(L, 100, 0.5, 0, 1000)
    a = m.calc_a1()
    assert 0 < a < L, (L, a)
""")

seed("stage-boundary", "C19",
     [("mixins.py", "            elif a1 < self.a <= a2:", "            elif a1 < self.a < a2 - 1:")],
     "touchdown with a crack length within 1 mm below full contact, after another stage was computed",
     "no stage is assigned just below full contact",
     H + """
m = weac.Layered('pst-', layers=[[200, 100], [250, 150]], touchdown=True)
m.calc_segments(L=10000, a=500, phi=0)
a2 = m.calc_a2()
m.calc_segments(L=10000, a=a2 - 0.5, phi=0)
assert m.mode == 'B', m.mode
""")

seed("touchdown-distance-exponent", "C21",
     [("tools.py", "    touchdown.set_beam_properties(layers=layers, C0=C0, C1=C1, update=True)", "    touchdown.set_beam_properties(layers=layers, C0=C0, update=True)")],
     "touchdown_distance with an exponent C1 other than the default", "the helper ignores the requested parametrisation",
     H + """
from weac.tools import touchdown_distance
a = touchdown_distance(layers=[[200, 100], [250, 150]], C0=6.0, C1=5.0, t=20)
m = weac.Layered('pst-', touchdown=True)
m.set_foundation_properties(E=0.25, t=20)
m.set_beam_properties([[200, 100], [250, 150]], C0=6.0, C1=5.0, update=True)
m.calc_segments(L=1e5, a=0, phi=0)
close(a[0], m.calc_a1(), 1e-6)
""")

seed("left-contact-spring", "C22",
     [("mixins.py", "                    bc = np.array([self.N(z), self.M(z) - kR * self.psi(z), self.w(z)])", "                    bc = np.array([self.N(z), self.M(z) + kR * self.psi(z), self.w(z)])")],
     "a left-cut PST in steady contact", "the rotational contact spring at a left end drives instead of resisting",
     H + """
out = []
for s in ('pst-', '-pst'):
    m = weac.Layered(s, layers=[[200, 100], [250, 150]], touchdown=True)
    g = m.calc_segments(L=10000, a=4000, phi=0)['crack']
    assert m.mode == 'C', m.mode
    C = m.assemble_and_solve(phi=0, **g)
    out.append(m.gdif(C, 0, **g)[0])
close(out[0], out[1], 1e-5)
""", ["C19"])

seed("mesh-coarser-than-asked", "C23",
     [("mixins.py", "        nlayer = np.ceil((z[1:] - z[:-1]) / dz).astype(np.int32) + 1", "        nlayer = np.maximum(np.floor((z[1:] - z[:-1]) / dz), 1).astype(np.int32) + 1")],
     "a layer thickness that is no multiple of the mesh size", "elements become larger than the requested size",
     H + """
m = weac.Layered('skier', layers=[[200, 70], [250, 130]])
z = m.get_zmesh(dz=40)[:, 0]
assert np.diff(z).max() <= 40, np.diff(z).max()
""")

seed("one-free-end", "C24",
     [("mixins.py", "            if not all([ki[0], ki[-1]]):", "            if not any([ki[0], ki[-1]]):")],
     "a skier assembly with one unsupported end segment", "an impossible infinite end is accepted and answered",
     H + """
m = weac.Layered('skiers', layers=[[200, 70], [250, 130]])
try:
    m.assemble_and_solve(phi=10, li=np.array([6000., 400., 6000.]), mi=np.array([80., 0.]), ki=np.array([True, True, False]))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""")

REC = """
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import weac.plot as wp
axes = []
close_ = plt.close
plt.close = lambda *a, **k: axes.append(plt.gca()) or close_(*a, **k)
"""

seed("modes-swapped", "C25",
     [("plot.py", "        [da/10, 1e3*G[2, :], label + r'$_\\mathrm{I\\!I}$'],", "        [da/10, 1e3*(G[0, :] - G[1, :] if kind == 'inc' else G[1, :]), label + r'$_\\mathrm{I\\!I}$'],")],
     "the energy-release-rate plot of differential rates (kind other than 'inc')", "the mode II curve shows mode I",
     H + REC + """
G = np.arange(150, dtype=float).reshape(3, 50)
G[0] = G[1] + G[2]
wp.err_modes(np.arange(50.), G, kind='dif')
y = [l.get_ydata() for l in axes[-1].lines]
assert any(len(v) == 50 and np.allclose(v, 1e3 * G[2]) for v in y)
""")

seed("whole-kilograms", "C26",
     [("eigensystem.py", "        F = 1e-3*np.array(m)*self.g/self.lski", "        F = 1e-3*np.rint(m)*self.g/self.lski")],
     "a skier weight that is not a whole number of kilograms", "skier loads are rounded to whole kilograms",
     H + """
m = weac.Layered('skier')
close(m.get_skier_load(62.4, 0)[0], 62.4 * 9.81 / 1000, 1e-9)
""", ["C03", "C08"])

seed("weight-on-mid-plane", "C27",
     [("mixins.py", "        us = self.u(zq, z0=self.zs)\n        # Compute displacements where surface loads are applied\n        up = self.u(zq, z0=-self.h / 2)\n        # Get weight loads\n        qn = self.calc_qn()\n        qt = self.get_weight_load(self.phi)[1]\n        pt = self.get_surface_load(self.phi)[1]\n        # use +/- and us[0]/us[-1] according to system and phi\n        # compute total external potential\n",
       "        us = self.u(zq, z0=0)\n        # Compute displacements where surface loads are applied\n        up = self.u(zq, z0=-self.h / 2)\n        # Get weight loads\n        qn = self.calc_qn()\n        qt = self.get_weight_load(self.phi)[1]\n        pt = self.get_surface_load(self.phi)[1]\n        # use +/- and us[0]/us[-1] according to system and phi\n        # compute total external potential\n")],
     "a slab whose centre of gravity is off the mid-plane, on a slope", "the work of the slab's tangential weight is computed at the mid-plane",
     H + """
m = weac.Layered('pst-', layers=[[120, 150], [350, 150]])
s = m.calc_segments(L=3000, a=0, phi=35)['crack']
s = m.calc_segments(L=3000, a=300, phi=35)['crack']
C = m.assemble_and_solve(phi=35, **s)
x, z, xb = m.rasterize_solution(C=C, phi=35, **s)
qn, qt = m.get_weight_load(35)
close(m.external_potential(C, 35, 3000, **s), -3000 * (qn * np.mean(m.w(z)) + qt * np.mean(m.u(z, z0=m.zs))), 1e-9)
""")

seed("slivers-dropped", "C12",
     [("mixins.py", "        isnonzero = li > 0\n", "        isnonzero = li >= 1\n")],
     "a segment shorter than 1 mm", "the raster misses such segments: positions shift and the cut boundary is not sampled",
     H + """
m = weac.Layered('skiers')
li, ki, mi = np.array([6000., 0.5, 6000.]), np.array([True, False, True]), np.array([80, 0])
C = m.assemble_and_solve(phi=30, li=li, ki=ki, mi=mi)
x, z, xb = m.rasterize_solution(C=C, phi=30, li=li, ki=ki, mi=mi)
close(x[-1], li.sum(), 1e-12)
assert np.any(np.isclose(x, 6000.5, atol=1e-9, rtol=0))
""")

seed("mesh-cache", "C20",
     [("mixins.py", "        # Get ply (layer) coordinates\n        z = self.get_ply_coordinates()\n        # Compute number of grid points per layer\n",
       "        # Reuse the mesh of the same slab\n        key = (dz, self.h, len(self.slab))\n        if getattr(self, \"_zmesh\", (None,))[0] == key:\n            return self._zmesh[1]\n        # Get ply (layer) coordinates\n        z = self.get_ply_coordinates()\n        # Compute number of grid points per layer\n"),
      ("mixins.py", "        return np.column_stack([zi, si])\n", "        self._zmesh = (key, np.column_stack([zi, si]))\n        return self._zmesh[1]\n")],
     "new layers of the same number and total thickness (a density edit) after stresses were computed", "stresses use the mesh and moduli of the old layers",
     H + """
m = weac.Layered('pst-', layers=[[200, 100], [300, 100]])
z = np.array([[.1], [2e-4], [.5], [1e-3], [2e-3], [1e-6]])
m.Sxx(z, 30)
m.set_beam_properties([[300, 100], [200, 100]], update=True)
close(m.Sxx(z, 30), weac.Layered('pst-', layers=[[300, 100], [200, 100]]).Sxx(z, 30))
""")

seed("slow-waves-taken-for-real", "C06",
     [("eigensystem.py", "        real = (ew.imag == 0) & (ew.real != 0)  # real eigenvalues\n        cmplx = ew.imag > 0                   # positive complex conjugates\n",
       "        real = (np.abs(ew.imag) < 1e-3) & (ew.real != 0)  # real eigenvalues\n        cmplx = ew.imag >= 1e-3               # positive complex conjugates\n")],
     "a stiff thick slab on a soft weak layer (long wave length)", "complex eigenpairs of small imaginary part are used as real ones: the fields violate the equations",
     H + """
m = weac.Layered('skier', layers=[[350, 1500]])
m.set_foundation_properties(t=100, E=0.02, update=True)
K = m.calc_system_matrix()
assert m.ewR.size + 2 * m.ewC.size == 6
for w, v in zip(m.ewR, m.evR.T):
    assert np.all(abs(K @ v - w * v) <= 1e-6 * (abs(w * v) + 1e-3 * abs(w) * abs(v).max())), w
""")

seed("one-load-too-few", "C24",
     [("mixins.py", "        if len(li) != len(ki) or len(li) - 1 != len(mi):\n", "        if len(li) != len(ki) or len(li) - 1 < len(mi):\n")],
     "fewer skier loads than segment boundaries", "the missing loads are silently taken as zero",
     H + """
m = weac.Layered('skiers')
try:
    m.assemble_and_solve(phi=30, li=np.array([6000., 500, 6000]), mi=np.array([80]), ki=np.array([True, True, True]))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""")

seed("loads-shared-between-models", "C20",
     [("eigensystem.py", "    def zp(self, x, phi, bed=True):\n", "    _loads = {}\n\n    def zp(self, x, phi, bed=True):\n"),
      ("eigensystem.py", "        # Get weight and surface loads\n        qn, qt = self.get_weight_load(phi)\n        pn, pt = self.get_surface_load(phi)\n\n        # Set foundation stiffnesses\n",
       "        # Get weight and surface loads\n        if phi not in self._loads:\n            self._loads[phi] = self.get_weight_load(phi)\n        qn, qt = self._loads[phi]\n        pn, pt = self.get_surface_load(phi)\n\n        # Set foundation stiffnesses\n")],
     "two models with different slabs evaluated at the same slope in one session", "the second model's fields use the weight of the first one's slab",
     H + """
a = weac.Layered('skier', layers=[[200, 200]])
b = weac.Layered('skier', layers=[[400, 300]])
a.zp(0, 30)
qn, _ = b.get_weight_load(30)
close(b.w(b.zp(0, 30))[0], qn / b.kn)
""")

seed("spring-cache-by-whole-millimetres", "C20",
     [("mixins.py", "        # adjust system to substitute system\n",
       "        # springs already computed for this slab and weak layer\n        key = (round(L), support, dof, self.kn, self.kt, self.ratio, self.D11, self.A11, self.B11)\n        cache = self.__dict__.setdefault(\"_springs\", {})\n        if key in cache:\n            return cache[key]\n        # adjust system to substitute system\n"),
      ("mixins.py", "        # Reset to previous system and eigensystem\n        self.system = tempsys\n", "        cache[key] = k\n        # Reset to previous system and eigensystem\n        self.system = tempsys\n")],
     "two substitute springs of nearly equal, short lengths asked for in turn", "the spring of the first length is returned for the second",
     H + """
m = weac.Layered('pst-', layers=[[200, 200]])
m.set_stiffness_ratio(100)
m.substitute_stiffness(299.6, 'supported', 'rot')
n = weac.Layered('pst-', layers=[[200, 200]])
n.set_stiffness_ratio(100)
close(m.substitute_stiffness(300.4, 'supported', 'rot'), n.substitute_stiffness(300.4, 'supported', 'rot'), 1e-9)
""")

seed("weight-cache-by-tenth-of-a-degree", "C20",
     [("eigensystem.py", "        # Convert units\n        phi = np.deg2rad(phi)                   # Convert inclination to rad\n        rho = self.slab[:, 0]*1e-12             # Convert density to t/mm^3\n",
       "        key = (round(phi, 1), id(self.slab))\n        if getattr(self, \"_wl\", (None,))[0] == key:\n            return self._wl[1]\n        # Convert units\n        phi = np.deg2rad(phi)                   # Convert inclination to rad\n        rho = self.slab[:, 0]*1e-12             # Convert density to t/mm^3\n"),
      ("eigensystem.py", "        qt = -q*np.sin(phi)                     # Tangential direction\n\n        return qn, qt\n\n    def get_surface", "        qt = -q*np.sin(phi)                     # Tangential direction\n        self._wl = (key, (qn, qt))\n        return qn, qt\n\n    def get_surface")],
     "a model asked at two slopes less than a tenth of a degree apart", "the loads of the first slope are used for the second",
     H + """
m = weac.Layered('skier', layers=[[200, 200]])
m.get_weight_load(30.0)
close(m.get_weight_load(30.04), weac.Layered('skier', layers=[[200, 200]]).get_weight_load(30.04), 1e-9)
""")
