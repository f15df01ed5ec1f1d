From 5b24c7f5472a71fd00a11003d0715635cc2adb48 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 01/16] fix: compute collapse height from the slope of the
 current segment call

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b83f9dc..112ebda 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -776,8 +776,8 @@ class SlabContactMixin:
         """Set class attributes for touchdown consideration"""
         self.set_columnlength(L)
         self.set_cracklength(a)
-        self.set_tc(cf)
         self.set_phi(phi)
+        self.set_tc(cf)
         self.set_stiffness_ratio(ratio)
 
     def calc_touchdown_mode(self):
-- 
2.43.0


From c605d892934495bdaa74fa7f44f8a67243ddbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 02/16] fix: free-segment particular integral balances surface
 load of layered slabs

---
 weac/eigensystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index e94a682..62293fd 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -579,7 +579,8 @@ class Eigensystem:
                 [-A11*(qn + pn)*x**4/(24*K0)],
                 [-A11*(qn + pn)*x**3/(6*K0)],
                 [A11*(qn + pn)*x**3/(6*K0)
-                 + ((zs - B11/A11)*qt - h*pt/2 - (qn + pn)*x)/kA55],
+                 + ((zs - B11/A11)*qt - (h/2 + B11/A11)*pt
+                    - (qn + pn)*x)/kA55],
                 [(qn + pn)*(A11*x**2/(2*K0) - 1/kA55)]])
 
         return zp
-- 
2.43.0


From e1529a725b4c145ea1f4acc69167f2850af0cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 03/16] fix: weak-layer shear strain has the sign of the shear
 stress

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 112ebda..b58faff 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -267,7 +267,7 @@ class FieldQuantitiesMixin:
         float
             Weak-layer shear strain gamma.
         """
-        return self.dw_dx(Z) / 2 - self.u(Z, z0=self.h / 2) / self.t
+        return self.u(Z, z0=self.h / 2) / self.t - self.dw_dx(Z) / 2
 
     def Gi(self, Ztip, unit="kJ/m^2"):
         """
-- 
2.43.0


From 9806cc71c48d97b2b4871167dd2d35ea5f8af4ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 04/16] fix: translational substitute spring excludes
 deflection under own weight

---
 weac/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b58faff..cf1bf35 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -622,7 +622,9 @@ class SlabContactMixin:
         if dof in ["rot"]:
             k = abs(1 / self.psi(z_pst)[0])
         if dof in ["trans"]:
-            k = abs(1 / self.w(z_pst)[0])
+            # Deflection due to the unit load only, without own weight
+            zp = self.zp(x=0, phi=0, bed=True)
+            k = abs(1 / (self.w(z_pst)[0] - self.w(zp)[0]))
 
         # Reset to previous system and eigensystem
         self.system = tempsys
-- 
2.43.0


From 6970a1369e7597d48dd41b19c357d4ed890de5fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 05/16] fix: horizontal center of gravity of vertical-face
 wedges

---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 1092959..7ef33f4 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -158,7 +158,7 @@ def calc_vertical_bc_center_of_gravity(slab, phi):
         # Center of gravity in vertical direction
         zs = sum(zsi * rho * Ai) / sum(rho * Ai)
         # Center of gravity in horizontal direction
-        xs = (H / 2 - zs) * np.tan(phi / 2)
+        xs = (H / 2 - zs) * np.tan(phi) / 2
         # Weight of added or cut off slab segments (t)
         w = sum(Ai * rho)
 
-- 
2.43.0


From 5399691571c99fe5d273e4d0567e5c274dfb11b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 06/16] fix: normalized weak-layer principal stress is
 independent of the stress unit

---
 weac/mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index cf1bf35..373d2b7 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1763,9 +1763,10 @@ class AnalysisMixin:
         if normalize and val == "max":
             raise ValueError("Can only normlize compressive stresses.")
 
-        # Normalize compressive stresses to compressive strength
+        # Normalize compressive stresses to compressive strength (given in kPa)
         if normalize and val == "min":
-            return ps / sc
+            convert = {"kPa": 1, "MPa": 1e-3}
+            return ps / (convert[unit] * sc)
 
         # Return absolute principal stresses
         return ps
-- 
2.43.0


From 42a0b698cad5ff239325573143b4da74f1bd8e5d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 07/16] fix: touchdown conditions do not replace the end forces
 of vertical-face PSTs

---
 weac/mixins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 373d2b7..172a54f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1215,18 +1215,21 @@ class SolutionMixin:
             rhs[:3] = np.vstack([N, M, V])  # left end
             rhs[-3:] = np.vstack([N, M, V])  # right end
 
+        # Touchdown conditions replace free ends of slope-normal PSTs only
+        contact = self.system in ["pst-", "-pst"]
+
         # Loop through segments to set touchdown conditions at rhs
         for i in range(nS):
             # Length, foundation and position of segment i
             l, k, pos = li[i], ki[i], pi[i]
             # Set displacement BC in stage B
-            if not k and bool(self.mode in ["B"]):
+            if contact and not k and bool(self.mode in ["B"]):
                 if i == 0:
                     rhs[:3] = np.vstack([0, 0, self.tc])
                 if i == (nS - 1):
                     rhs[-3:] = np.vstack([0, 0, self.tc])
             # Set normal force and displacement BC for stage C
-            if not k and bool(self.mode in ["C"]):
+            if contact and not k and bool(self.mode in ["C"]):
                 N = self.calc_qt() * (self.a - self.td)
                 if i == 0:
                     rhs[:3] = np.vstack([-N, 0, self.tc])
-- 
2.43.0


From eb14019de3c05d957d9dd7d9f9fc4650c6ac6a75 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 08/16] fix: inverse model can calculate segments

---
 weac/inverse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 3542c3c..40ccd5f 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -3,14 +3,15 @@
 
 # Project imports
 from weac.mixins import FieldQuantitiesMixin
+from weac.mixins import SlabContactMixin
 from weac.mixins import SolutionMixin
 from weac.mixins import AnalysisMixin
 from weac.mixins import OutputMixin
 from weac.eigensystem import Eigensystem
 
 
-class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
-              OutputMixin, Eigensystem):
+class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
+              AnalysisMixin, OutputMixin, Eigensystem):
     """
     Fit the elastic properties of the layers of a snowpack.
 
-- 
2.43.0


From b83ecc4534c754b7cbb769cb6b5d92675e5fa16e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 09/16] fix: accept profiles given as arrays and default
 profile of all entry points

---
 weac/inverse.py | 5 ++++-
 weac/layered.py | 4 +++-
 weac/tools.py   | 7 ++-----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 40ccd5f..6d3fae5 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -36,7 +36,8 @@ class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         system : str, optional
             Type of system to analyse. Default is 'pst-'.
         layers : list, optional
-            List of layer densities and thicknesses. Default is None.
+            List of layer densities and thicknesses. Default is
+            [[240, 200], ].
         parameters : tuple, optional
             Fitting parameters C0, C1, and Eweak. Multiplicative constant
             of Young modulus parametrization, exponent constant of Young
@@ -50,6 +51,8 @@ class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         C0, C1, Eweak = parameters
 
         # Set material properties and set up model
+        if layers is None or len(layers) == 0:
+            layers = [[240, 200], ]
         self.set_beam_properties(layers=layers, C0=C0, C1=C1)
         self.set_foundation_properties(E=Eweak)
         self.calc_fundamental_system()
diff --git a/weac/layered.py b/weac/layered.py
index 9f4076f..7d2839b 100755
--- a/weac/layered.py
+++ b/weac/layered.py
@@ -44,6 +44,8 @@ class Layered(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         super().__init__(system=system, touchdown=touchdown)
 
         # Set material properties and set up model
-        self.set_beam_properties(layers if layers else [[240, 200], ])
+        if layers is None or len(layers) == 0:
+            layers = [[240, 200], ]
+        self.set_beam_properties(layers)
         self.set_foundation_properties()
         self.calc_fundamental_system()
diff --git a/weac/tools.py b/weac/tools.py
index 7ef33f4..8609dc5 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -299,13 +299,10 @@ def touchdown_distance(
         Steady-state touchdown distance (mm).
     """
     # Check if layering is defined
-    layers = (
-        layers
-        if layers
-        else [
+    if layers is None or len(layers) == 0:
+        layers = [
             [240, 200],
         ]
-    )
 
     # Initialize model with user input
     touchdown = weac.Layered(system="pst-", touchdown=True)
-- 
2.43.0


From 663b8e454bc31cdf047d86e0bc1487d305c5ecfd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 10/16] fix: single-segment models accept arrays and keep the
 caller's lists

---
 weac/mixins.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 172a54f..8ac914f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1152,9 +1152,7 @@ class SolutionMixin:
 
         # Add dummy segment if only one segment provided
         if nS == 1:
-            li.append(0)
-            ki.append(True)
-            mi.append(0)
+            li, ki, mi = [*li, 0], [*ki, True], [*mi, 0]
             nS = 2
 
         # Assemble position vector
-- 
2.43.0


From f3662e2af7db985d2e4e09efee94125bd85f2294 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 11/16] fix: plots without segment lists

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 7c753d3..e7e9e3f 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -406,7 +406,7 @@ def plot_data(
         name, ax1data, ax1label,
         ax2data=None, ax2label=None,
         labelpos=None, vlines=True,
-        li=False, mi=False, ki=False,
+        li=(), mi=(), ki=(),
         xlabel=r'Horizontal position $x$ (cm)'):
     """Plot data. Base function."""
     # Figure setup
-- 
2.43.0


From 424ed7f69abac2929a259f43bb15adff87e95b43 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 12/16] fix: weak-layer energy of the internal potential from
 its stresses on the supported length

---
 weac/mixins.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 8ac914f..13862c3 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1866,13 +1866,15 @@ class OutputMixin:
         zweak = zq[:, ~np.isnan(xb)]
         xweak = xb[~np.isnan(xb)]
 
-        # Compute weak layer displacements
-        wweak = self.w(zweak)
-        uweak = self.u(zweak, z0=self.h / 2)
+        # Compute weak layer stresses
+        sigweak = self.sig(zweak)
+        tauweak = self.tau(zweak)
 
         # Compute stored energy of the slab (monte-carlo integration)
         n = len(xq)
         nweak = len(xweak)
+        # Only the supported length stores energy in the weak layer
+        Lweak = np.sum(segments["li"][segments["ki"]])
         # energy share from moment, shear force, wl normal and tangential springs
         Pi_int = (
             L / 2 / n / self.A11 * np.sum([Ni**2 for Ni in N])
@@ -1882,8 +1884,8 @@ class OutputMixin:
             / (self.D11 - self.B11**2 / self.A11)
             * np.sum([Mi**2 for Mi in M])
             + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
-            + L * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
-            + L * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
+            + Lweak / self.kn / 2 / nweak * np.sum([si**2 for si in sigweak])
+            + Lweak / self.kt / 2 / nweak * np.sum([ti**2 for ti in tauweak])
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-- 
2.43.0


From 744697fc35a72f1ac86f35cb802c99aaeba4bf96 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 13/16] fix: bending-extension coupling in the internal
 potential

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 13862c3..806abc8 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1882,7 +1882,7 @@ class OutputMixin:
             / 2
             / n
             / (self.D11 - self.B11**2 / self.A11)
-            * np.sum([Mi**2 for Mi in M])
+            * np.sum([(Mi - self.B11 / self.A11 * Ni) ** 2 for Mi, Ni in zip(M, N)])
             + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
             + Lweak / self.kn / 2 / nweak * np.sum([si**2 for si in sigweak])
             + Lweak / self.kt / 2 / nweak * np.sum([ti**2 for ti in tauweak])
-- 
2.43.0


From b6e46b95975698a0c90b5caf99e83342d5ab4a68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 14/16] fix: slab energy of the internal potential on the
 solved length only

---
 weac/mixins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 806abc8..c3ca9a9 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1856,6 +1856,9 @@ class OutputMixin:
         Pi_int : float
             Total internal potential (Nmm).
         """
+        # Length of the solution, which ends at the touchdown point
+        L = np.sum(segments["li"])
+
         # Rasterize solution
         xq, zq, xb = self.rasterize_solution(C=C, phi=phi, **segments)
 
-- 
2.43.0


From ead0fc0328f7bd5adf3b4580903366233c1a73b2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 15/16] fix: energy of the substitute rotation spring in the
 internal potential

---
 weac/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index c3ca9a9..01e50fe 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1892,9 +1892,9 @@ class OutputMixin:
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-            Pi_int += 1 / 2 * M[-1] * (self.psi(zq)[-1]) ** 2
+            Pi_int -= 1 / 2 * M[-1] * self.psi(zq)[-1]
         elif self.system in ["-pst"]:
-            Pi_int += 1 / 2 * M[0] * (self.psi(zq)[0]) ** 2
+            Pi_int += 1 / 2 * M[0] * self.psi(zq)[0]
         else:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0


From 543155bd465f94bcad0862eb8172f311d26a9f62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 16/16] fix: work of the tangential surface load at the top of
 the slab in the external potential

---
 weac/mixins.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 01e50fe..996e4b6 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1810,9 +1810,12 @@ class OutputMixin:
         # Compute displacements where weight loads are applied
         w0 = self.w(zq)
         us = self.u(zq, z0=self.zs)
+        # Compute displacements where surface loads are applied
+        up = self.u(zq, z0=-self.h / 2)
         # Get weight loads
         qn = self.calc_qn()
-        qt = self.calc_qt()
+        qt = self.get_weight_load(self.phi)[1]
+        pt = self.get_surface_load(self.phi)[1]
         # use +/- and us[0]/us[-1] according to system and phi
         # compute total external potential
         Pi_ext = (
@@ -1821,13 +1824,17 @@ class OutputMixin:
         )
         # Ensure
         if self.system in ["pst-"]:
-            ub = us[-1]
+            ub, upb = us[-1], up[-1]
         elif self.system in ["-pst"]:
-            ub = us[0]
+            ub, upb = us[0], up[0]
         Pi_ext += (
             -qt * (segments["li"][0] + segments["li"][1]) * np.average(us)
             - qt * (L - (segments["li"][0] + segments["li"][1])) * ub
         )
+        Pi_ext += (
+            -pt * (segments["li"][0] + segments["li"][1]) * np.average(up)
+            - pt * (L - (segments["li"][0] + segments["li"][1])) * upb
+        )
         if self.system not in ["pst-", "-pst"]:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0

