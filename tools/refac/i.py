import sys
import os
exec(open(os.path.dirname(os.path.abspath(__file__)) + '/h.py').read().split("sub('eigensystem.py'")[0])
sub('mixins.py',[
("class AnalysisMixin:",'''_FACTOR = MappingProxyType({"kPa": 1e3, "MPa": 1.0})
Field = collections.namedtuple("Field", "z E nu rho")


def _running(y, z):
    """Running integral over the thickness."""
    y = np.asarray(y)
    dz = np.diff(z).reshape((-1,) + (1,) * (y.ndim - 1))
    out = np.zeros(y.shape)
    out[1:] = np.add.accumulate((y[1:] + y[:-1]) / 2 * dz, axis=0)
    return out


def _tips(ki):
    """Indices of joints between a supported and a free segment."""
    pairs = itertools.pairwise(ki)
    return [j for j, (left, right) in enumerate(pairs) if bool(left) is not bool(right)]


class AnalysisMixin:'''),
("import numpy as np\n","import collections\nimport itertools\nfrom types import MappingProxyType\nimport numpy as np\n"),
('''        # Compute axial normal stress Sxx at grid points in MPa
        for i, (z, E, nu, _) in enumerate(zmesh):
            Sxx[i, :] = E / (1 - nu**2) * self.du_dx(Z, z)

        # Calculate weight load at grid points and superimpose on stress field
        qt = -rho * self.g * np.sin(np.deg2rad(phi))
        for i, qi in enumerate(qt[:-1]):
            Sxx[i, :] += qi * (zi[i + 1] - zi[i])
        Sxx[-1, :] += qt[-1] * (zi[-1] - zi[-2])

        # Return axial normal stress in specified unit
        return convert[unit] * Sxx
''','''        f = Field(*zmesh.T)
        Sxx[:] = np.multiply.outer(f.E / (1 - f.nu**2), np.ones(m)) * np.array([self.du_dx(Z, z) for z in f.z])
        step = np.append(np.diff(zi), zi[-1] - zi[-2])
        Sxx -= (rho * self.g * np.sin(np.radians(phi)) * step)[:, np.newaxis]
        return _FACTOR[unit] * Sxx
'''),
('''        # Calculate first derivative of sxx at z-grid points
        for i, (z, E, nu, _) in enumerate(zmesh):
            dsxx_dx[i, :] = E / (1 - nu**2) * (du0_dxdx + z * dpsi_dxdx)
''','''        Q = zmesh[:, 1] / (1 - zmesh[:, 2] ** 2)
        dsxx_dx = np.einsum("i,j->ij", Q, np.ravel(du0_dxdx)) + np.einsum("i,j->ij", Q * zi, np.ravel(dpsi_dxdx))
'''),
('''        Txz = cumulative_trapezoid(dsxx_dx, zi, axis=0, initial=0)
        Txz += cumulative_trapezoid(qt, zi, initial=0)[:, None]
''','''        Txz = _running(dsxx_dx + qt.reshape(-1, 1), zi)
'''),
('''        integrand = cumulative_trapezoid(dsxx_dxdx, zi, axis=0, initial=0)
        Szz = cumulative_trapezoid(integrand, zi, axis=0, initial=0)
        Szz += cumulative_trapezoid(-qn, zi, initial=0)[:, None]
''','''        Szz = _running(_running(dsxx_dxdx, zi) - qn[:, None], zi)
'''),
('''        Ps = (Sxx + Szz) / 2 + m[val] * np.sqrt((Sxx - Szz) ** 2 + 4 * Txz**2) / 2
''','''        mean, radius = (Sxx + Szz) / 2, np.hypot((Sxx - Szz) / 2, Txz)
        Ps = {"max": np.add, "min": np.subtract}[val](mean, radius)
'''),
('''        ps = sig / 2 + m[val] * np.sqrt(sig**2 + 4 * tau**2) / 2
''','''        ps = 0.5 * (sig + m[val] * np.linalg.norm(np.stack([sig, 2 * tau]), axis=0))
'''),
('''        iscracktip = [ki[j] != ki[j + 1] for j in range(ntr)]

        # Transition indices of crack tips and total number of crack tips
        ict = itr[iscracktip]
''','''        ict = itr[_tips(ki)]
'''),
('''        for j, idx in enumerate(ict):
            # Solution at crack tip
            z = self.z(li[idx], C[:, [idx]], li[idx], phi, bed=ki[idx])
            # Mode I and II differential energy release rates
            Gdif[1:, j] = np.concatenate(
                (self.Gi(z, unit=unit), self.Gii(z, unit=unit))
            )

        # Sum mode I and II contributions
        Gdif[0, :] = Gdif[1, :] + Gdif[2, :]

        # Adjust contributions for center cracks
        if nct > 1:
            avgmask = np.full(nct, True)  # Initialize mask
            avgmask[[0, -1]] = ki[[0, -1]]  # Do not weight edge cracks
            Gdif[:, avgmask] *= 0.5  # Weigth with half crack length

        # Return total differential energy release rate of all crack tips
        return Gdif.sum(axis=1)
''','''        for j, idx in enumerate(ict):
            z = self.z(li[idx], C[:, [idx]], li[idx], phi, bed=ki[idx])
            (Gdif[1, j],), (Gdif[2, j],) = self.Gi(z, unit=unit), self.Gii(z, unit=unit)

        share = np.ones(nct)
        if nct > 1:
            inner = slice(1, -1)
            share[inner] = 0.5
            share[0] = 0.5 if ki[0] else 1
            share[-1] = 0.5 if ki[-1] else 1
        one, two = (share * Gdif[1:]).sum(axis=-1)
        return np.array([one + two, one, two])
'''),
('''        for j, l in enumerate(li):
            # Uncracked (0) and cracked (1) solutions at integration points
            z0 = partial(self.z, C=C0[:, [j]], l=l, phi=phi, bed=True)
            z1 = partial(self.z, C=C1[:, [j]], l=l, phi=phi, bed=False)

            # Mode I (1) and II (2) integrands at integration points
            int1 = partial(self.int1, z0=z0, z1=z1)
            int2 = partial(self.int2, z0=z0, z1=z1)

            # Segement contributions to total crack opening integral
            Ginc1 += quad(int1, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)
            Ginc2 += quad(int2, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)

        return np.array([Ginc1 + Ginc2, Ginc1, Ginc2]).flatten()
''','''        def works():
            for c0, c1, l in zip(C0.T, C1.T, li):
                def before(x, c=c0[:, None], l=l):
                    return self.z(x, C=c, l=l, phi=phi, bed=True)

                def after(x, c=c1[:, None], l=l):
                    return self.z(x, C=c, l=l, phi=phi, bed=False)

                yield tuple(
                    quad(f, 0, l, args=(before, after), epsabs=self.tol, epsrel=self.tol)[0]
                    for f in (self.int1, self.int2))

        for work1, work2 in works():
            Ginc1, Ginc2 = Ginc1 + work1, Ginc2 + work2

        return np.divide([Ginc1 + Ginc2, Ginc1, Ginc2], 2 * da if len(li) else 1)
'''),
('''        # Make sure cracktips are included
        transmissionbool = [ki[j] or ki[j + 1] for j, _ in enumerate(ki[:-1])]
        for i, truefalse in enumerate(transmissionbool, start=1):
            issupported[nqc[i]] = truefalse

        # Assemble vector of coordinates on foundation
        xb = np.full(nq.sum(), np.nan)
        xb[issupported] = xq[issupported]
''','''        # Make sure cracktips are included
        issupported[nqc[1:-1]] = np.logical_or(ki[:-1], ki[1:])

        # Assemble vector of coordinates on foundation
        xb = np.where(issupported, xq, np.nan)
'''),
('''        if removeNaNs:
            # Remove coordinate-stress pairs where no weak layer is present
            tau = tau[~np.isnan(x)]
            x = x[~np.isnan(x)]
        else:
            # Set stress NaN where no weak layer is present
            tau[np.isnan(x)] = np.nan
''','''        gap = np.isnan(x)
        if removeNaNs:
            x, tau = (np.compress(~gap, v) for v in (x, tau))
        else:
            tau = np.select([gap], [np.nan], default=tau)
'''),
('''        if removeNaNs:
            # Remove coordinate-stress pairs where no weak layer is present
            sig = sig[~np.isnan(x)]
            x = x[~np.isnan(x)]
        else:
            # Set stress NaN where no weak layer is present
            sig[np.isnan(x)] = np.nan
''','''        gap = x != x
        if removeNaNs:
            keep = np.flatnonzero(~gap)
            x, sig = x.take(keep), sig.take(keep)
        else:
            np.putmask(sig, gap, np.nan)
'''),
('''        z0 = {"top": -self.h / 2, "mid": 0, "bot": self.h / 2}
        # Displacement (unit)
        u = self.u(z, z0=z0[loc], unit=unit)
''','''        u = self.u(z, z0=("top", "mid", "bot").index(loc) * self.h / 2 - self.h / 2, unit=unit)
'''),
('''            L / 2 / n / self.A11 * np.sum([Ni**2 for Ni in N])
''','''            L / 2 / n / self.A11 * np.dot(N, N)
'''),
('''            + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
            + Lweak / self.kn / 2 / nweak * np.sum([si**2 for si in sigweak])
            + Lweak / self.kt / 2 / nweak * np.sum([ti**2 for ti in tauweak])
''','''            + L / 2 / self.kA55 * np.mean(np.square(V))
            + Lweak / 2 * (np.mean(sigweak**2) / self.kn + np.mean(tauweak**2) / self.kt)
'''),
])
