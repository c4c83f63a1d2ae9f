From 8618e95748e9b14a963e56a3f50f927988dcbfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 01/88] fix: use matrix products in ComboMap.deriv so dense
 derivatives compose

---
 simpeg/maps/_base.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 9369f1f..f7a0ed7 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -522,14 +522,11 @@ class ComboMap(IdentityMap):
             \frac{\partial \mathbf{f_1}}{\partial \mathbf{m}}
         """
 
-        if v is not None:
-            deriv = v
-        else:
-            deriv = 1
-
+        deriv = v
         mi = m
         for map_i in reversed(self.maps):
-            deriv = map_i.deriv(mi) * deriv
+            deriv_i = map_i.deriv(mi)
+            deriv = deriv_i if deriv is None else deriv_i @ deriv
             mi = map_i * mi
         return deriv
 
-- 
2.43.0


From a0372d270ed9ed063668132d84b79d9bc966fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 02/88] fix: SumMap.deriv must not modify the vector it is
 given

---
 simpeg/maps/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index f7a0ed7..62250f6 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -853,7 +853,7 @@ class SumMap(ComboMap):
             if ii == 0:
                 sumDeriv = deriv
             else:
-                sumDeriv += deriv
+                sumDeriv = sumDeriv + deriv
 
         return sumDeriv
 
-- 
2.43.0


From 56c4b20e583702c677f736333e7dee9f5ab83fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 03/88] fix: SphericalSystem keeps its own copy of the cached
 model

---
 simpeg/maps/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/maps/_base.py b/simpeg/maps/_base.py
index 62250f6..e7bfafd 100644
--- a/simpeg/maps/_base.py
+++ b/simpeg/maps/_base.py
@@ -923,12 +923,12 @@ class SphericalSystem(IdentityMap):
 
     def sphericalDeriv(self, model):
         if getattr(self, "model", None) is None:
-            self.model = model
+            self.model = model.copy()
 
         if getattr(self, "_sphericalDeriv", None) is None or not all(
             self.model == model
         ):
-            self.model = model
+            self.model = model.copy()
 
             # Do a double projection to make sure the parameters are bounded
             m_xyz = mat_utils.spherical2cartesian(model.reshape((-1, 3), order="F"))
-- 
2.43.0


From f5ea16e7c5a5099578c5462a3ab2a63fcbb46c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 04/88] fix: SurjectVertical1D.deriv on 1D meshes

---
 simpeg/maps/_surjection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/maps/_surjection.py b/simpeg/maps/_surjection.py
index edcfa1f..bafd85b 100644
--- a/simpeg/maps/_surjection.py
+++ b/simpeg/maps/_surjection.py
@@ -210,7 +210,7 @@ class SurjectVertical1D(IdentityMap):
             input argument *v* is not ``None``, the method returns the derivative times
             the vector *v*.
         """
-        repNum = np.prod(self.mesh.vnC[: self.mesh.dim - 1])
+        repNum = int(np.prod(self.mesh.vnC[: self.mesh.dim - 1]))
         repVec = sp.csr_matrix(
             (np.ones(repNum), (range(repNum), np.zeros(repNum))), shape=(repNum, 1)
         )
-- 
2.43.0


From 41e3624f035f6ef9a0968af55fa91992946ac926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:57 +0000
Subject: [PATCH 05/88] fix: ParametricPolyMap.deriv orders 3D coefficients
 like the transform

---
 simpeg/maps/_parametric.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 4837b7c..6f3e21f 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -646,27 +646,33 @@ class ParametricPolyMap(IdentityMap):
             if self.normal == "x":
                 f = (
                     polynomial.polyval2d(
-                        Y, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        Y,
+                        Z,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - X
                 )
-                V = polynomial.polyvander2d(Y, Z, self.order)
+                V = polynomial.polyvander2d(Z, Y, self.order[::-1])
             elif self.normal == "y":
                 f = (
                     polynomial.polyval2d(
-                        X, Z, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        X,
+                        Z,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - Y
                 )
-                V = polynomial.polyvander2d(X, Z, self.order)
+                V = polynomial.polyvander2d(Z, X, self.order[::-1])
             elif self.normal == "z":
                 f = (
                     polynomial.polyval2d(
-                        X, Y, c.reshape((self.order[0] + 1, self.order[1] + 1))
+                        X,
+                        Y,
+                        c.reshape((self.order[0] + 1, self.order[1] + 1), order="F"),
                     )
                     - Z
                 )
-                V = polynomial.polyvander2d(X, Y, self.order)
+                V = polynomial.polyvander2d(Y, X, self.order[::-1])
             else:
                 raise (Exception("Input for normal = X or Y or Z"))
 
-- 
2.43.0


From ae7543351eafa8cbba981415f0e6e772953c9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:57 +0000
Subject: [PATCH 06/88] fix: ParametricSplineMap.deriv for x normals and the
 top boundary, at the given model

---
 simpeg/maps/_parametric.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/simpeg/maps/_parametric.py b/simpeg/maps/_parametric.py
index 6f3e21f..2e49ff8 100644
--- a/simpeg/maps/_parametric.py
+++ b/simpeg/maps/_parametric.py
@@ -956,6 +956,7 @@ class ParametricSplineMap(IdentityMap):
         if self.mesh.dim == 2:
             X = self.mesh.cell_centers[:, 0]
             Y = self.mesh.cell_centers[:, 1]
+            self.spl = UnivariateSpline(self.pts, c, k=self.order, s=0)
 
             if self.normal == "x":
                 f = self.spl(Y) - X
@@ -968,6 +969,11 @@ class ParametricSplineMap(IdentityMap):
             X = self.mesh.cell_centers[:, 0]
             Y = self.mesh.cell_centers[:, 1]
             Z = self.mesh.cell_centers[:, 2]
+            npts = np.size(self.pts)
+            self.spl = {
+                "splb": UnivariateSpline(self.pts, c[:npts], k=self.order, s=0),
+                "splt": UnivariateSpline(self.pts, c[npts:], k=self.order, s=0),
+            }
 
             if self.normal == "x":
                 zb = self.ptsv[0]
@@ -990,10 +996,11 @@ class ParametricSplineMap(IdentityMap):
 
         if self.mesh.dim == 2:
             g3 = np.zeros((self.mesh.nC, self.npts))
-            if self.normal == "y":
+            if self.normal in ("x", "y"):
+                coord = Y if self.normal == "x" else X
                 # Here we use perturbation to compute sensitivity
                 # TODO: bit more generalization of this ...
-                # Modfications for X and Z directions ...
+                # Modfications for Z direction ...
                 for i in range(np.size(self.pts)):
                     ctemp = c[i]
                     ind = np.argmin(abs(self.mesh.cell_centers_y - ctemp))
@@ -1004,7 +1011,7 @@ class ParametricSplineMap(IdentityMap):
                     cb[i] = ctemp - dy
                     spla = UnivariateSpline(self.pts, ca, k=self.order, s=0)
                     splb = UnivariateSpline(self.pts, cb, k=self.order, s=0)
-                    fderiv = (spla(X) - splb(X)) / (2 * dy)
+                    fderiv = (spla(coord) - splb(coord)) / (2 * dy)
                     g3[:, i] = (
                         sdiag(alpha * (sig2 - sig1) / (1.0 + (alpha * f) ** 2) / np.pi)
                         * fderiv
@@ -1048,16 +1055,16 @@ class ParametricSplineMap(IdentityMap):
                             self.pts, ca[self.npts :], k=self.order, s=0
                         )
                         spltb = UnivariateSpline(
-                            self.pts, ca[self.npts :], k=self.order, s=0
+                            self.pts, cb[self.npts :], k=self.order, s=0
                         )
                         flinesa = (
-                            (self.spl["splt"](Y) - splta(Y)) * (Z - zb) / (zt - zb)
-                            + splta(Y)
+                            (splta(Y) - self.spl["splb"](Y)) * (Z - zb) / (zt - zb)
+                            + self.spl["splb"](Y)
                             - X
                         )
                         flinesb = (
-                            (self.spl["splt"](Y) - spltb(Y)) * (Z - zb) / (zt - zb)
-                            + spltb(Y)
+                            (spltb(Y) - self.spl["splb"](Y)) * (Z - zb) / (zt - zb)
+                            + self.spl["splb"](Y)
                             - X
                         )
                     fderiv = (flinesa - flinesb) / (2 * dy)
-- 
2.43.0


From 65474bfd3f06891beccb760098cbf48293d12230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:47 +0000
Subject: [PATCH 07/88] fix: TDEM Jvec includes the fields at the last time
 node

---
 simpeg/electromagnetics/time_domain/simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index efd986e..dacfec8 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -266,6 +266,14 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 if tInd != len(self.time_steps + 1):
                     dun_dm_v[:, i] = Adiaginv * (JRHS - Asubdiag * dun_dm_v[:, i])
 
+        # the fields at the last time node
+        for i, src in enumerate(self.survey.source_list):
+            for projField in set([rx.projField for rx in src.receiver_list]):
+                df_dmFun = getattr(f, "_%sDeriv" % projField, None)
+                df_dm_v[src, "{}Deriv".format(projField), self.nT] = df_dmFun(
+                    self.nT, src, dun_dm_v[:, i], v
+                )
+
         Jv = []
         for src in self.survey.source_list:
             for rx in src.receiver_list:
-- 
2.43.0


From 73467cb845320a22ede5083f9384521586b77a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:01 +0000
Subject: [PATCH 08/88] fix: line current source term in the last layer of
 cells of a tensor mesh

---
 simpeg/electromagnetics/utils/current_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/utils/current_utils.py b/simpeg/electromagnetics/utils/current_utils.py
index 698c7a4..02bc1db 100644
--- a/simpeg/electromagnetics/utils/current_utils.py
+++ b/simpeg/electromagnetics/utils/current_utils.py
@@ -183,9 +183,9 @@ def _poly_line_source_tens(mesh, locs):
         ax = px[ip]
         ay = py[ip]
         az = pz[ip]
-        ix = _findlast(np.logical_and(ax >= x[: nx - 1], ax <= x[1:nx]))
-        iy = _findlast(np.logical_and(ay >= y[: ny - 1], ay <= y[1:ny]))
-        iz = _findlast(np.logical_and(az >= z[: nz - 1], az <= z[1:nz]))
+        ix = _findlast(np.logical_and(ax >= x[:nx], ax <= x[1:]))
+        iy = _findlast(np.logical_and(ay >= y[:ny], ay <= y[1:]))
+        iz = _findlast(np.logical_and(az >= z[:nz], az <= z[1:]))
 
         if (ix < 0) or (iy < 0) or (iz < 0):
             msg = "Polygon vertex (%.1f, %.1f, %.1f) is outside the mesh"
@@ -238,9 +238,9 @@ def _poly_line_source_tens(mesh, locs):
 
             # locate cell id
 
-            ix = _findlast(np.logical_and(cx >= x[: nx - 1], cx <= x[1:nx]))
-            iy = _findlast(np.logical_and(cy >= y[: ny - 1], cy <= y[1:ny]))
-            iz = _findlast(np.logical_and(cz >= z[: nz - 1], cz <= z[1:nz]))
+            ix = _findlast(np.logical_and(cx >= x[:nx], cx <= x[1:]))
+            iy = _findlast(np.logical_and(cy >= y[:ny], cy <= y[1:]))
+            iz = _findlast(np.logical_and(cz >= z[:nz], cz <= z[1:]))
 
             # local coordinates
             hxloc = hx[ix]
-- 
2.43.0


From 4021d90db1ef1937708bac5311745a14f12929f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 09/88] fix: TDEM Jtvec includes the model dependence of the
 initial fields

---
 simpeg/electromagnetics/time_domain/simulation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index dacfec8..f3eb5d0 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -443,6 +443,14 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
 
         # Treat the initial condition
 
+        # the initial fields may also depend on the model
+        Asubdiag = self.getAsubdiag(0)
+        for isrc, src in enumerate(self.survey.source_list):
+            df_du0T_v = mkvc(
+                df_duT_v[src, "{}Deriv".format(self._fieldType), 0]
+            ) - Asubdiag.T * mkvc(ATinv_df_duT_v[isrc, :])
+            JTv = JTv + self.getInitialFieldsDeriv(src, df_du0T_v, adjoint=True, f=f)
+
         # del df_duT_v, ATinv_df_duT_v, A, Asubdiag
         if AdiagTinv is not None:
             AdiagTinv.clean()
@@ -570,11 +578,7 @@ class BaseTDEMSimulation(BaseTimeSimulation, BaseEMSimulation):
                 ifieldsDeriv += np.zeros(self.mesh.n_edges)
 
         elif adjoint is True:
-            if self._fieldType in ["b", "j"]:
-                ifieldsDeriv += np.zeros(self.mesh.n_faces)
-            elif self._fieldType in ["e", "h"]:
-                ifieldsDeriv[0] += np.zeros(self.mesh.n_edges)
-            ifieldsDeriv[1] += np.zeros_like(self.model)  # take care of a  Zero() case
+            ifieldsDeriv += np.zeros_like(self.model)
 
         return ifieldsDeriv
 
-- 
2.43.0


From cd49ad0f0ba1ae31c76d4934002fbcaab25c63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 10/88] fix: TDEM e-formulation Jtvec uses the first time step
 for galvanic initial fields

---
 simpeg/electromagnetics/time_domain/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index f3eb5d0..907736a 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -1344,6 +1344,7 @@ class Simulation3DElectricField(BaseTDEMSimulation):
         # Treating initial condition when a galvanic source is included
         tInd = -1
         Grad = self.mesh.nodal_gradient
+        Asubdiag = self.getAsubdiag(0)
 
         for isrc, src in enumerate(self.survey.source_list):
             if src.srcType == "galvanic":
-- 
2.43.0


From 4e14bafb4ee66b7601045711d057e24d76bfd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:23 +0000
Subject: [PATCH 11/88] fix: LineCurrent.bInitialDeriv in the EB formulation

---
 simpeg/electromagnetics/time_domain/sources.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index c0d7473..cd36a53 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -2176,11 +2176,12 @@ class LineCurrent(BaseTDEMSrc):
         if self.waveform.has_initial_fields is False:
             return Zero()
 
+        C = simulation.mesh.edge_curl
+        if simulation._formulation == "HJ":
+            C = C.T
         if adjoint is True:
-            return self._aInitialDeriv(
-                simulation, simulation.mesh.edge_curl * v, adjoint=True
-            )
-        return simulation.mesh.edge_curl.T * self._aInitialDeriv(simulation, v)
+            return self._aInitialDeriv(simulation, C.T * v, adjoint=True)
+        return C * self._aInitialDeriv(simulation, v)
 
     def s_m(self, simulation, time):
         """Returns :class:`Zero` for ``LineCurrent``"""
-- 
2.43.0


From 92515758d05d2758075490bc2c69452d061c98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:25 +0000
Subject: [PATCH 12/88] fix: TDEM dipole/loop source follows its waveform after
 the initial time

---
 simpeg/electromagnetics/time_domain/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index cd36a53..1f0a262 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -1536,7 +1536,7 @@ class MagDipole(BaseTDEMSrc):
 
             if (
                 self.waveform.has_initial_fields is True
-                and time < simulation.time_steps[1]
+                and time < simulation.times[1]
             ):
                 return C.T * (MfMui * b)
             else:
@@ -1547,7 +1547,7 @@ class MagDipole(BaseTDEMSrc):
 
             if (
                 self.waveform.has_initial_fields is True
-                and time < simulation.time_steps[1]
+                and time < simulation.times[1]
             ):
                 return C * h
             else:
-- 
2.43.0


From 549cd954b0aebdfb592b256c43ee3f7399f66458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:25 +0000
Subject: [PATCH 13/88] fix: TDEM j-formulation right-hand side uses its own
 time step and time

---
 simpeg/electromagnetics/time_domain/simulation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/time_domain/simulation.py b/simpeg/electromagnetics/time_domain/simulation.py
index 907736a..08676e8 100644
--- a/simpeg/electromagnetics/time_domain/simulation.py
+++ b/simpeg/electromagnetics/time_domain/simulation.py
@@ -2559,12 +2559,9 @@ class Simulation3DCurrentDensity(BaseTDEMSimulation):
         (n_faces, n_sources) numpy.ndarray
             The right-hand sides.
         """
-        if tInd == len(self.time_steps):
-            tInd = tInd - 1
-
         C = self.mesh.edge_curl
         MeMuI = self.MeMuI
-        dt = self.time_steps[tInd]
+        dt = self.time_steps[tInd - 1]
         s_m, s_e = self.getSourceTerm(tInd)
         _, s_en1 = self.getSourceTerm(tInd - 1)
 
-- 
2.43.0


From 1e97fadedb023dcf65fe3869aecd3ea3d2733afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:40 +0000
Subject: [PATCH 14/88] fix: FDEM right-hand side derivatives use the given
 source only

---
 simpeg/electromagnetics/frequency_domain/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 179a32c..72a98c8 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -886,7 +886,7 @@ class Simulation3DElectricField(BaseFDEMSimulation):
 
         C = self.mesh.edge_curl
         MfMui = self.MfMui
-        s_m, s_e = self.getSourceTerm(freq)
+        s_m, s_e = src.eval(self)
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
         MfMuiDeriv = self.MfMuiDeriv(s_m)
 
@@ -1764,7 +1764,7 @@ class Simulation3DCurrentDensity(BaseFDEMSimulation):
         MeMuI = self.MeMuI
         MeMuIDeriv = self.MeMuIDeriv
         s_mDeriv, s_eDeriv = src.evalDeriv(self, adjoint=adjoint)
-        s_m, _ = self.getSourceTerm(freq)
+        s_m, _ = src.eval(self)
 
         if adjoint:
             if self._makeASymmetric:
-- 
2.43.0


From c74a4e5538e576fbd554ce1d4c55556ead734c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:40 +0000
Subject: [PATCH 15/88] fix: FDEM getJ for receivers whose fields depend
 directly on the model

---
 simpeg/electromagnetics/frequency_domain/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 72a98c8..c0b56e0 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -382,8 +382,8 @@ class BaseFDEMSimulation(BaseEMSimulation):
 
                         if not isinstance(dRHS_dmT, Zero):
                             du_dmT += dRHS_dmT
-                        if not isinstance(df_dmT[0], Zero):
-                            du_dmT += np.hstack(df_dmT)
+                        if not isinstance(df_dmT, Zero):
+                            du_dmT += df_dmT
 
                         block = np.array(du_dmT, dtype=complex).real.T
 
-- 
2.43.0


From f14a6482cd16c939d3e211b863313fbacf0dad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:26 +0000
Subject: [PATCH 16/88] fix: drop cached model-dependent quantities for every
 change of the model

---
 simpeg/props.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index ee9ac01..1b0d834 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -460,7 +460,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
             if not (
                 isinstance(previous_value, np.ndarray)
                 and isinstance(value, np.ndarray)
-                and np.allclose(previous_value, value)
+                and np.array_equal(previous_value, value)
             ):
                 # cached properties to delete
                 for prop in self._delete_on_model_update:
@@ -469,7 +469,9 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
 
                 updated = True
 
-        self._model = value
+        # keep our own copy, so changes made in place to the caller's array are
+        # seen as an update the next time it is assigned.
+        self._model = value.copy() if isinstance(value, np.ndarray) else value
         # Most of the time this return value is completely ignored
         # However if you need to know if the model was updated in
         # and child class, you can always access the method:
@@ -478,7 +480,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
 
     @model.deleter
     def model(self):
-        self._model = (None,)
+        self._model = None
         # cached properties to delete
         for prop in self._delete_on_model_update:
             if hasattr(self, prop):
-- 
2.43.0


From 291121caa53abee8ebb4ca9762d63e9946349eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:26 +0000
Subject: [PATCH 17/88] fix: DC cell-centred current density derivative with
 respect to the model

---
 simpeg/electromagnetics/static/resistivity/fields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/fields.py b/simpeg/electromagnetics/static/resistivity/fields.py
index 0ef0813..c0ef82e 100644
--- a/simpeg/electromagnetics/static/resistivity/fields.py
+++ b/simpeg/electromagnetics/static/resistivity/fields.py
@@ -141,9 +141,9 @@ class Fields3DCellCentered(FieldsDC):
         return self._MfRhoI * (self._Grad * v)
 
     def _jDeriv_m(self, src, v, adjoint=False):
-        if adjoint:
-            return self._Grad.T * self._MfRhoIDeriv(v, adjoint=True)
-        return self._MfRhoIDeriv(self._Grad * v)
+        return self._MfRhoIDeriv(
+            self._Grad * self[src, "phiSolution"], v, adjoint=adjoint
+        )
 
     def _e(self, phiSolution, source_list):
         r"""
-- 
2.43.0


From 864dc14af65109ae281651082044965f2a85abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:26 +0000
Subject: [PATCH 18/88] fix: getJtJdiag follows the model and the data weights
 it is given

---
 simpeg/electromagnetics/base_1d.py            | 36 ++++++++-----------
 .../frequency_domain/simulation.py            | 17 ++++-----
 .../natural_source/simulation_1d.py           | 28 +++++++--------
 .../static/induced_polarization/simulation.py | 15 ++++----
 .../static/resistivity/simulation.py          | 20 +++++------
 5 files changed, 48 insertions(+), 68 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 41ae772..ffc2862 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -637,24 +637,18 @@ class BaseEM1DSimulation(BaseSimulation):
         return delta
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            Js = self._getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
-            out = 0.0
-            if self.hMap is not None:
-                J = Js["dh"] @ self.hDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.sigmaMap is not None:
-                J = Js["ds"] @ self.sigmaDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.muMap is not None:
-                J = Js["dmu"] @ self.muDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            if self.thicknessesMap is not None:
-                J = Js["dthick"] @ self.thicknessesDeriv
-                out = out + np.einsum("i,ij,ij->j", W, J, J)
-            self._gtgdiag = out
-        return self._gtgdiag
+        Js = self._getJ(m, f=f)
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal() ** 2
+        J = 0.0
+        if self.hMap is not None:
+            J = J + Js["dh"] @ self.hDeriv
+        if self.sigmaMap is not None:
+            J = J + Js["ds"] @ self.sigmaDeriv
+        if self.muMap is not None:
+            J = J + Js["dmu"] @ self.muDeriv
+        if self.thicknessesMap is not None:
+            J = J + Js["dthick"] @ self.thicknessesDeriv
+        return np.einsum("i,ij,ij->j", W, J, J)
diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index c0b56e0..006fb47 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -424,19 +424,14 @@ class BaseFDEMSimulation(BaseEMSimulation):
         """
         self.model = m
 
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
+        J = self.getJ(m, f=f)
 
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
-
-            diag = np.einsum("i,ij,ij->j", W, J, J)
-
-            self._gtgdiag = diag
+        if W is None:
+            W = np.ones(J.shape[0])
+        else:
+            W = W.diagonal() ** 2
 
-        return self._gtgdiag
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     # @profile
     def getSourceTerm(self, freq):
diff --git a/simpeg/electromagnetics/natural_source/simulation_1d.py b/simpeg/electromagnetics/natural_source/simulation_1d.py
index ef03577..0e2931c 100644
--- a/simpeg/electromagnetics/natural_source/simulation_1d.py
+++ b/simpeg/electromagnetics/natural_source/simulation_1d.py
@@ -315,22 +315,18 @@ class Simulation1DRecursive(BaseSimulation):
         return self._Jmatrix
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            Js = self.getJ(m, f=f)
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal() ** 2
-
-            gtgdiag = 0
-            if self.sigmaMap is not None:
-                J = Js["sigma"] @ self.sigmaDeriv
-                gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-            if self.thicknessesMap is not None:
-                J = Js["thick"] @ self.thicknessesDeriv
-                gtgdiag += np.einsum("i,ij,ij->j", W, J, J)
-            self._gtgdiag = gtgdiag
-        return self._gtgdiag
+        Js = self.getJ(m, f=f)
+        if W is None:
+            W = np.ones(self.survey.nD)
+        else:
+            W = W.diagonal() ** 2
+
+        J = 0
+        if self.sigmaMap is not None:
+            J = J + Js["sigma"] @ self.sigmaDeriv
+        if self.thicknessesMap is not None:
+            J = J + Js["thick"] @ self.thicknessesDeriv
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     def Jvec(self, m, v, f=None):
         J = self.getJ(m, f=None)
diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 30c7dae..e36b418 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -113,16 +113,13 @@ class BaseIPSimulation(BasePDESimulation):
         return self._pred
 
     def getJtJdiag(self, m, W=None, f=None):
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
-            if W is None:
-                W = self._scale**2
-            else:
-                W = (self._scale * W.diagonal()) ** 2
+        J = self.getJ(m, f=f)
+        if W is None:
+            W = self._scale**2
+        else:
+            W = (self._scale * W.diagonal()) ** 2
 
-            self._gtgdiag = np.einsum("i,ij,ij->j", W, J, J)
-
-        return self._gtgdiag
+        return np.einsum("i,ij,ij->j", W, J, J)
 
     def Jvec(self, m, v, f=None):
         return self._scale * super().Jvec(m, v, f)
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index c84939a..5e429fc 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -138,20 +138,18 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         """
         Return the diagonal of JtJ
         """
-        if getattr(self, "_gtgdiag", None) is None:
-            J = self.getJ(m, f=f)
+        J = self.getJ(m, f=f)
 
-            if W is None:
-                W = np.ones(J.shape[0])
-            else:
-                W = W.diagonal() ** 2
+        if W is None:
+            W = np.ones(J.shape[0])
+        else:
+            W = W.diagonal() ** 2
 
-            diag = np.zeros(J.shape[1])
-            for i in range(J.shape[0]):
-                diag += (W[i]) * (J[i] * J[i])
+        diag = np.zeros(J.shape[1])
+        for i in range(J.shape[0]):
+            diag += (W[i]) * (J[i] * J[i])
 
-            self._gtgdiag = diag
-        return self._gtgdiag
+        return diag
 
     def Jvec(self, m, v, f=None):
         """
-- 
2.43.0


From 1c6a169b01bc98eb21513f0025ea981a4613b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:26 +0000
Subject: [PATCH 19/88] fix: DC source electrodes that share a cell add up

---
 simpeg/electromagnetics/static/resistivity/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/sources.py b/simpeg/electromagnetics/static/resistivity/sources.py
index ee46681..c371da7 100644
--- a/simpeg/electromagnetics/static/resistivity/sources.py
+++ b/simpeg/electromagnetics/static/resistivity/sources.py
@@ -77,7 +77,7 @@ class BaseSrc(survey.BaseSrc):
         if sim._formulation == "HJ":
             inds = sim.mesh.closest_points_index(self.location, grid_loc="CC")
             q = np.zeros(sim.mesh.nC)
-            q[inds] = self.current
+            np.add.at(q, inds, self.current)
         elif sim._formulation == "EB":
             loc = self.location
             cur = self.current
-- 
2.43.0


From 9b81fb5871c391f890f3873da63a9b62be8afb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:26 +0000
Subject: [PATCH 20/88] fix: DC receivers keep one projection per projected
 grid

---
 .../electromagnetics/static/resistivity/receivers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/receivers.py b/simpeg/electromagnetics/static/resistivity/receivers.py
index f380f50..fe41f77 100644
--- a/simpeg/electromagnetics/static/resistivity/receivers.py
+++ b/simpeg/electromagnetics/static/resistivity/receivers.py
@@ -408,15 +408,15 @@ class Dipole(BaseRx):
             P, the interpolation matrix
 
         """
-        if mesh in self._Ps:
-            return self._Ps[mesh]
+        if (mesh, projected_grid) in self._Ps:
+            return self._Ps[mesh, projected_grid]
 
         P0 = mesh.get_interpolation_matrix(self.locations[0], projected_grid)
         P1 = mesh.get_interpolation_matrix(self.locations[1], projected_grid)
         P = P0 - P1
 
         if self.storeProjections:
-            self._Ps[mesh] = P
+            self._Ps[mesh, projected_grid] = P
 
         if transpose:
             P = P.toarray().T
@@ -487,12 +487,12 @@ class Pole(BaseRx):
             P, the interpolation matrix
 
         """
-        if mesh in self._Ps:
-            return self._Ps[mesh]
+        if (mesh, projected_grid) in self._Ps:
+            return self._Ps[mesh, projected_grid]
 
         P = mesh.get_interpolation_matrix(self.locations, projected_grid)
 
         if self.storeProjections:
-            self._Ps[mesh] = P
+            self._Ps[mesh, projected_grid] = P
 
         return P
-- 
2.43.0


From 645e11a1a2d5e6a0fc47513ea93068dbdc78deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:56 +0000
Subject: [PATCH 21/88] fix: 2D nodal DC boundary derivative follows the model

---
 .../electromagnetics/static/resistivity/simulation_2d.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 16b591f..3075e8f 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -801,5 +801,13 @@ class Simulation2DNodal(BaseDCSimulation2D):
             AvgCC2Fb = sdiag(alpha * (P_bf @ self.mesh.face_areas)) @ AvgCC2Fb
             self._AvgBC[ky] = AvgN2Fb.T @ AvgCC2Fb
 
+    @property
+    def _clear_on_sigma_update(self):
+        """
+        These matrices are deleted if there is an update to the conductivity
+        model
+        """
+        return super()._clear_on_sigma_update + ["_MBC_sigma"]
+
 
 Simulation2DCellCentred = Simulation2DCellCentered  # UK and US
-- 
2.43.0


From 6769d9fc0bd49b22439cb47db7ae81a02d4e7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:19 +0000
Subject: [PATCH 22/88] fix: 3D DC source terms follow the survey

---
 .../static/resistivity/simulation.py          | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 5e429fc..a1498dc 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -267,24 +267,22 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         :return: q (nC or nN, nSrc)
         """
 
-        if getattr(self, "_q", None) is None:
-            if self._mini_survey is not None:
-                Srcs = self._mini_survey.source_list
-            else:
-                Srcs = self.survey.source_list
+        if self._mini_survey is not None:
+            Srcs = self._mini_survey.source_list
+        else:
+            Srcs = self.survey.source_list
 
-            if self._formulation == "EB":
-                n = self.mesh.nN
+        if self._formulation == "EB":
+            n = self.mesh.nN
 
-            elif self._formulation == "HJ":
-                n = self.mesh.nC
+        elif self._formulation == "HJ":
+            n = self.mesh.nC
 
-            q = np.zeros((n, len(Srcs)), order="F")
+        q = np.zeros((n, len(Srcs)), order="F")
 
-            for i, source in enumerate(Srcs):
-                q[:, i] = source.eval(self)
-            self._q = q
-        return self._q
+        for i, source in enumerate(Srcs):
+            q[:, i] = source.eval(self)
+        return q
 
     @property
     def _delete_on_model_update(self):
-- 
2.43.0


From 26515cbc7ab573e17192ff935b6c5cb3ee6c898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:39 +0000
Subject: [PATCH 23/88] fix: miniaturized DC simulations account for source
 currents and apparent resistivities

---
 .../static/resistivity/simulation.py          |  4 ++-
 .../static/resistivity/simulation_2d.py       |  4 ++-
 .../static/resistivity/utils.py               | 25 +++++++++++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index a1498dc..4b7d8d1 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -13,7 +13,7 @@ from ....base import BaseElectricalPDESimulation
 from ....base.pde_simulation import _inner_mat_mul_op
 from .survey import Survey
 from .fields import Fields3DCellCentered, Fields3DNodal
-from .utils import _mini_pole_pole
+from .utils import _mini_data_factors, _mini_pole_pole
 from discretize.utils import make_boundary_bool
 
 
@@ -295,12 +295,14 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
             out[self._dipoles[0]] -= d_mini[self._invs[1]]  # AN
             out[self._dipoles[1]] -= d_mini[self._invs[2]]  # BM
             out[self._dipoles[0] & self._dipoles[1]] += d_mini[self._invs[3]]  # BN
+            out = (out.T * _mini_data_factors(self.survey)).T
         else:
             out = d_mini
         return out
 
     def _mini_survey_dataT(self, v):
         if self._mini_survey is not None:
+            v = v * _mini_data_factors(self.survey)
             out = np.zeros(self._mini_survey.nD)
             # Need to use ufunc.at because there could be repeated indices
             # That need to be properly handled.
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 3075e8f..e8f9267 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -19,7 +19,7 @@ from ....data import Data
 from .survey import Survey
 from .fields_2d import Fields2D, Fields2DCellCentered, Fields2DNodal
 from .fields import FieldsDC, Fields3DCellCentered, Fields3DNodal
-from .utils import _mini_pole_pole
+from .utils import _mini_data_factors, _mini_pole_pole
 from scipy.special import k0e, k1e, k0
 from discretize.utils import make_boundary_bool
 import discretize.base
@@ -460,12 +460,14 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
             out[self._dipoles[0]] -= d_mini[self._invs[1]]  # AN
             out[self._dipoles[1]] -= d_mini[self._invs[2]]  # BM
             out[self._dipoles[0] & self._dipoles[1]] += d_mini[self._invs[3]]  # BN
+            out = (out.T * _mini_data_factors(self.survey)).T
         else:
             out = d_mini
         return out
 
     def _mini_survey_dataT(self, v):
         if self._mini_survey is not None:
+            v = v * _mini_data_factors(self.survey)
             out = np.zeros(self._mini_survey.nD)
             # Need to use ufunc.at because there could be repeated indices
             # That need to be properly handled.
diff --git a/simpeg/electromagnetics/static/resistivity/utils.py b/simpeg/electromagnetics/static/resistivity/utils.py
index 3bdec53..10a9cb9 100644
--- a/simpeg/electromagnetics/static/resistivity/utils.py
+++ b/simpeg/electromagnetics/static/resistivity/utils.py
@@ -126,3 +126,28 @@ def _mini_pole_pole(survey, verbose=False):
     invs = [inv_AM, inv_AN, inv_BM, inv_BN]
     mini_survey = Survey(unique_sources)
     return dipoles, invs, mini_survey
+
+
+def _mini_data_factors(survey):
+    """
+    Factors from the potentials due to unit currents to the data of a survey.
+
+    The reduced survey built by ``_mini_pole_pole`` has sources with unit
+    current and potential receivers only.
+
+    Parameters
+    ----------
+    survey : simpeg.electromagnetics.static.resistivity.Survey
+
+    Returns
+    -------
+    (nD,) numpy.ndarray
+    """
+    factors = []
+    for src in survey.source_list:
+        for rx in src.receiver_list:
+            factor = np.full(rx.nD, src.current[0])
+            if rx.data_type == "apparent_resistivity":
+                factor = factor / rx.geometric_factor[src]
+            factors.append(factor)
+    return np.concatenate(factors)
-- 
2.43.0


From 17046492ec56f00af7a296a6ba757915a0e34923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:39 +0000
Subject: [PATCH 24/88] fix: 1D DC apparent resistivities for receivers with
 several locations

---
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index 85d72bd..7f3192f 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -279,7 +279,7 @@ class Simulation1DLayers(BaseSimulation):
                         if n_off is not None:
                             A[:, i] -= current * splines[i](np.log(n_off)) / n_off
                 if rx.data_type == "apparent_resistivity":
-                    A /= rx.geometric_factor[src]
+                    A /= rx.geometric_factor[src][:, None]
                 As.append(A @ A_dht / (2 * np.pi))
         self._coefficients_set = True
         self._As = np.vstack(As)
-- 
2.43.0


From 5164ab143d475c82572ab5d393ededaa5ac91631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:01 +0000
Subject: [PATCH 25/88] fix: HasModel.model returns the array it was given

---
 simpeg/props.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/simpeg/props.py b/simpeg/props.py
index 1b0d834..66da314 100644
--- a/simpeg/props.py
+++ b/simpeg/props.py
@@ -454,24 +454,26 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
                 raise err
 
         # trigger model update function.
-        previous_value = getattr(self, "_model", None)
+        # compare with a copy of the previous values, so changes made in place to
+        # the caller's array are seen as an update the next time it is assigned.
+        previous_value = getattr(self, "_model_values", None)
         updated = False
-        if previous_value is not value:
-            if not (
-                isinstance(previous_value, np.ndarray)
-                and isinstance(value, np.ndarray)
-                and np.array_equal(previous_value, value)
-            ):
-                # cached properties to delete
-                for prop in self._delete_on_model_update:
-                    if hasattr(self, prop):
-                        delattr(self, prop)
-
-                updated = True
-
-        # keep our own copy, so changes made in place to the caller's array are
-        # seen as an update the next time it is assigned.
-        self._model = value.copy() if isinstance(value, np.ndarray) else value
+        if isinstance(value, np.ndarray):
+            same = isinstance(previous_value, np.ndarray) and np.array_equal(
+                previous_value, value
+            )
+        else:
+            same = previous_value is value
+        if not same:
+            # cached properties to delete
+            for prop in self._delete_on_model_update:
+                if hasattr(self, prop):
+                    delattr(self, prop)
+
+            updated = True
+
+        self._model = value
+        self._model_values = value.copy() if isinstance(value, np.ndarray) else value
         # Most of the time this return value is completely ignored
         # However if you need to know if the model was updated in
         # and child class, you can always access the method:
@@ -481,6 +483,7 @@ class HasModel(BaseSimPEG, metaclass=PhysicalPropertyMetaclass):
     @model.deleter
     def model(self):
         self._model = None
+        self._model_values = None
         # cached properties to delete
         for prop in self._delete_on_model_update:
             if hasattr(self, prop):
-- 
2.43.0


From edbddbbfab2873de08864d73c62a0c19785d3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 26/88] fix: L2ObjectiveFunction derivatives use matrix
 products for dense derivatives

---
 simpeg/objective_function.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index 9188168..00c3a98 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -636,18 +636,19 @@ class L2ObjectiveFunction(BaseObjectiveFunction):
 
     def deriv(self, m):
         # Docstring inherited from BaseObjectiveFunction
-        return 2 * self.mapping.deriv(m).T * (self.W.T * (self.W * (self.mapping * m)))
+        return 2 * (
+            self.mapping.deriv(m).T @ (self.W.T @ (self.W @ (self.mapping * m)))
+        )
 
     def deriv2(self, m, v=None):
         # Docstring inherited from BaseObjectiveFunction
         if v is not None:
-            return (
-                2
-                * self.mapping.deriv(m).T
-                * (self.W.T * (self.W * (self.mapping.deriv(m) * v)))
+            return 2 * (
+                self.mapping.deriv(m).T
+                @ (self.W.T @ (self.W @ (self.mapping.deriv(m) @ v)))
             )
-        W = self.W * self.mapping.deriv(m)
-        return 2 * W.T * W
+        W = self.W @ self.mapping.deriv(m)
+        return 2 * (W.T @ W)
 
 
 def _validate_objective_functions(objective_functions):
-- 
2.43.0


From 032b3b2d6f7036745f9160b62de34457ce5e19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 27/88] fix: L2DataMisfit.deriv2 for weights that are not
 symmetric

---
 simpeg/data_misfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/data_misfit.py b/simpeg/data_misfit.py
index 740e803..c83d72b 100644
--- a/simpeg/data_misfit.py
+++ b/simpeg/data_misfit.py
@@ -339,5 +339,5 @@ class L2DataMisfit(BaseDataMisfit):
             f = self.simulation.fields(m)
 
         return 2 * self.simulation.Jtvec_approx(
-            m, self.W * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
+            m, self.W.T * (self.W * self.simulation.Jvec_approx(m, v, f=f)), f=f
         )
-- 
2.43.0


From 049efe94fe17457b31c98db84e922bfcb1e044ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 28/88] fix: data misfits keep the counter they are given

---
 simpeg/data_misfit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/data_misfit.py b/simpeg/data_misfit.py
index c83d72b..c5eccf7 100644
--- a/simpeg/data_misfit.py
+++ b/simpeg/data_misfit.py
@@ -104,6 +104,7 @@ class BaseDataMisfit(L2ObjectiveFunction):
     def counter(self, value):
         if value is not None:
             value = validate_type("counter", value, Counter, cast=False)
+        self._counter = value
 
     @property
     def nP(self):
-- 
2.43.0


From a0da08b722b2ebb2b0b84fb2a71bc3f46743fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 29/88] fix: keep the fields aligned with the misfit terms that
 have a simulation

---
 simpeg/inverse_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/inverse_problem.py b/simpeg/inverse_problem.py
index ec24a15..4286216 100644
--- a/simpeg/inverse_problem.py
+++ b/simpeg/inverse_problem.py
@@ -286,7 +286,7 @@ class BaseInvProblem:
                     if hasattr(objfct, "simulation"):
                         f += [objfct.simulation.fields(m)]
                     else:
-                        f += []
+                        f += [None]
 
         if deleteWarmstart:
             self.warmstart = []
-- 
2.43.0


From 213055c2fd010a88c3daf55d541c28ce71153aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 30/88] fix: LinearSimulation Jvec and Jtvec with dense mapping
 derivatives

---
 simpeg/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/simulation.py b/simpeg/simulation.py
index bbde7df..cc36f3f 100644
--- a/simpeg/simulation.py
+++ b/simpeg/simulation.py
@@ -746,12 +746,12 @@ class LinearSimulation(BaseSimulation):
     def Jvec(self, m, v, f=None):
         # Docstring inherited from BaseSimulation
         self.model = m
-        return self.G.dot(self.model_deriv * v)
+        return self.G.dot(self.model_deriv @ v)
 
     def Jtvec(self, m, v, f=None):
         # Docstring inherited from BaseSimulation
         self.model = m
-        return self.model_deriv.T * self.G.T.dot(v)
+        return self.model_deriv.T @ self.G.T.dot(v)
 
 
 class ExponentialSinusoidSimulation(LinearSimulation):
-- 
2.43.0


From b4ceded1f658d3545e26c1383bb3c96ae7d21bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 31/88] fix: BaseSrc.get_receiver_indices

---
 simpeg/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index e471ab1..1b8b513 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -340,7 +340,7 @@ class BaseSrc:
 
     @property
     def _rxOrder(self):
-        if getattr(self.__rxOrder, None) is None:
+        if self.__rxOrder is None:
             self.__rxOrder = {}
             [
                 self.__rxOrder.setdefault(rx.uid, ii)
-- 
2.43.0


From 8af038cec6c465ffaa6672a72686d87ab1e9eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 32/88] fix: data counts of a survey follow its source list

---
 simpeg/survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index 1b8b513..76bac48 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -452,6 +452,7 @@ class BaseSurvey:
         super().__setattr__(name, item)
         if name == "source_list":
             self.__sourceOrder = None
+            self._vnD = None
 
     @source_list.setter
     def source_list(self, new_list):
-- 
2.43.0


From 300ad97c23a9c5d835ea707bb6937c6e47af362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 33/88] fix: time receivers keep one projection per projected
 grid

---
 simpeg/survey.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index 76bac48..40284d5 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -266,15 +266,16 @@ class BaseTimeRx(BaseRx):
         Projection matrices are stored as a dictionary (mesh, timeMesh)
         if `storeProjections` is ``True``
         """
-        if (mesh, time_mesh) in self._Ps:
-            return self._Ps[(mesh, time_mesh)]
+        key = (mesh, time_mesh, projected_grid, projected_time_grid)
+        if key in self._Ps:
+            return self._Ps[key]
 
         Ps = self.getSpatialP(mesh, projected_grid)
         Pt = self.getTimeP(time_mesh, projected_time_grid)
         P = sp.kron(Pt, Ps)
 
         if self.storeProjections:
-            self._Ps[(mesh, time_mesh)] = P
+            self._Ps[key] = P
 
         return P
 
-- 
2.43.0


From d5b1369ecd14ff9e93c4bbee279b6203d4984f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:09 +0000
Subject: [PATCH 34/88] fix: stored receiver projections follow the receiver
 locations and times

---
 simpeg/survey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpeg/survey.py b/simpeg/survey.py
index 40284d5..8bbe5f6 100644
--- a/simpeg/survey.py
+++ b/simpeg/survey.py
@@ -70,6 +70,7 @@ class BaseRx:
         self._locations = validate_ndarray_with_shape(
             "locations", locs, shape=("*", "*"), dtype=float
         )
+        self._Ps = {}
 
     # @property
     # def projected_grid(self):
@@ -208,6 +209,7 @@ class BaseTimeRx(BaseRx):
         self._times = validate_ndarray_with_shape(
             "times", value, shape=("*",), dtype=float
         )
+        self._Ps = {}
 
     @property
     def nD(self):
-- 
2.43.0


From 11da9c65d275454cf8b59e6bf5a54a8028b5e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:15 +0000
Subject: [PATCH 35/88] fix: regularization derivatives with dense mapping
 derivatives

---
 simpeg/regularization/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index 54d939c..a3546df 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -426,7 +426,7 @@ class BaseRegularization(BaseObjectiveFunction):
             The Gradient of the regularization function evaluated for the model provided.
         """
         r = self.W * self.f_m(m)
-        return 2 * self.f_m_deriv(m).T * (self.W.T * r)
+        return 2 * (self.f_m_deriv(m).T @ (self.W.T @ r))
 
     @utils.timeIt
     def deriv2(self, m, v=None) -> csr_matrix:
@@ -459,9 +459,9 @@ class BaseRegularization(BaseObjectiveFunction):
         """
         f_m_deriv = self.f_m_deriv(m)
         if v is None:
-            return 2 * f_m_deriv.T * ((self.W.T * self.W) * f_m_deriv)
+            return 2 * (f_m_deriv.T @ (self.W.T @ self.W @ f_m_deriv))
 
-        return 2 * f_m_deriv.T * (self.W.T * (self.W * (f_m_deriv * v)))
+        return 2 * (f_m_deriv.T @ (self.W.T @ (self.W @ (f_m_deriv @ v))))
 
 
 class Smallness(BaseRegularization):
-- 
2.43.0


From f401c1ec01c6a195daff9720c1ff71a4ee7b2e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:15 +0000
Subject: [PATCH 36/88] fix: SmoothnessFullGradient.deriv with dense mapping
 derivatives

---
 simpeg/regularization/_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/_gradient.py b/simpeg/regularization/_gradient.py
index fbf3451..a6ffeb1 100644
--- a/simpeg/regularization/_gradient.py
+++ b/simpeg/regularization/_gradient.py
@@ -198,7 +198,7 @@ class SmoothnessFullGradient(BaseRegularization):
             else self.mapping * m
         )
         r = G @ dm
-        return 2 * (m_d.T * (G.T @ (M_f @ r)))
+        return 2 * (m_d.T @ (G.T @ (M_f @ r)))
 
     def deriv2(self, m, v=None):
         m_d = self.mapping.deriv(m)
-- 
2.43.0


From eebd6671d11bdc38be715909aa21aaf176800a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:16 +0000
Subject: [PATCH 37/88] fix: second-order smoothness of angle models

---
 simpeg/regularization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index a3546df..a74a364 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -1432,7 +1432,7 @@ class SmoothnessSecondOrder(SmoothnessFirstOrder):
         if self.units is not None and self.units.lower() == "radian":
             return self.cell_gradient.T @ (
                 utils.mat_utils.coterminal(self.cell_gradient.sign() @ dfm_dl)
-                / self.length_scales
+                / self._cell_distances
             )
 
         dfm_dl2 = self.cell_gradient @ dfm_dl
-- 
2.43.0


From 3465d436a018226d14cf81f54d75dd798f940fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:16 +0000
Subject: [PATCH 38/88] fix: smoothness terms follow active cells chosen after
 a first use

---
 simpeg/regularization/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/regularization/base.py b/simpeg/regularization/base.py
index a74a364..e2b254b 100644
--- a/simpeg/regularization/base.py
+++ b/simpeg/regularization/base.py
@@ -106,6 +106,7 @@ class BaseRegularization(BaseObjectiveFunction):
             volume_term = "volume" in self._weights
             self._weights = {}
             self._W = None
+            self._cell_gradient = None
             if volume_term:
                 self.set_weights(volume=self.regularization_mesh.vol)
 
-- 
2.43.0


From 6e2de8b0ced3dfb16c2d9a759f314fb6348d6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:30 +0000
Subject: [PATCH 39/88] fix: maxStep limits the largest component in absolute
 value

---
 simpeg/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 76c328e..938697d 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -714,8 +714,8 @@ class Minimize(object):
             The scaled search direction.
         """
 
-        if self.maxStep < np.abs(p.max()):
-            p = self.maxStep * p / np.abs(p.max())
+        if self.maxStep < np.abs(p).max():
+            p = self.maxStep * p / np.abs(p).max()
         return p
 
     nameLS = "Armijo linesearch"  #: The line-search name
-- 
2.43.0


From 2669f65afaec53a18b8d11db33a7497419a94127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:30 +0000
Subject: [PATCH 40/88] fix: BFGS uses matching step and gradient differences,
 newest pair first

---
 simpeg/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 938697d..b88980a 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1290,15 +1290,15 @@ class BFGS(Minimize, Remember):
 
     def bfgs(self, d):
         n = self._bfgscnt
-        nn = ktop = min(self._bfgsS.shape[1], n)
-        return self.bfgsrec(ktop, n, nn, self._bfgsS, self._bfgsY, d)
+        nn = min(self._bfgsS.shape[1], n + 1)
+        return self.bfgsrec(nn - 1, n, nn, self._bfgsS, self._bfgsY, d)
 
     def bfgsrec(self, k, n, nn, S, Y, d):
         """BFGS recursion"""
         if k < 0:
             d = self.bfgsH0 * d  # Assume that bfgsH0 is a simpeg.Solver
         else:
-            khat = 0 if nn == 0 else np.mod(n - nn + k, nn)
+            khat = np.mod(n - nn + 1 + k, S.shape[1])
             gamma = np.vdot(S[:, khat], d) / np.vdot(Y[:, khat], S[:, khat])
             d = d - gamma * Y[:, khat]
             d = self.bfgsrec(k - 1, n, nn, S, Y, d)
@@ -1318,7 +1318,7 @@ class BFGS(Minimize, Remember):
             return
 
         yy = self.g - self.g_last
-        ss = self.xc - xt
+        ss = self.xc - self.x_last
         self.g_last = self.g
 
         if yy.dot(ss) > 0:
-- 
2.43.0


From d086315f7efc9c609d9191967d94a94d1ca0c455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:30 +0000
Subject: [PATCH 41/88] fix: ProjectedGNCG must not overwrite its CG direction
 with the residual

---
 simpeg/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index b88980a..34320a0 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1665,7 +1665,8 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
 
             step += alpha * p
 
-            r -= alpha * q
+            # not in place: the preconditioner may return its argument
+            r = r - alpha * q
             r_norm = norm(r)
 
             h = self.approxHinv * r
-- 
2.43.0


From b158ac3710640b69df704e7b3befc0b773dab1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:30 +0000
Subject: [PATCH 42/88] fix: keep the preconditioned CG of ProjectedGNCG on the
 inactive set

---
 simpeg/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index 34320a0..a48eb8e 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1643,7 +1643,7 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
 
         r = resid  # - Inactive * (self.H * step)#  step is zero
 
-        p = self.approxHinv * r
+        p = inactive * (self.approxHinv * r)
 
         sold = np.dot(r, p)
 
@@ -1669,7 +1669,7 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
             r = r - alpha * q
             r_norm = norm(r)
 
-            h = self.approxHinv * r
+            h = inactive * (self.approxHinv * r)
 
             snew = np.dot(r, h)
 
-- 
2.43.0


From 4ea0eed9fe2738667233ea5689662b378ae67cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:30 +0000
Subject: [PATCH 43/88] fix: ProjectedGNCG leaves the bounds when no free
 variable moves

---
 simpeg/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index a48eb8e..ab7342f 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1702,6 +1702,9 @@ class ProjectedGNCG(Bounded, InexactGaussNewton):
             # boundary.
             dm_i = max(abs(step))
             dm_a = max(abs(rhs_a))
+            if dm_i == 0:
+                # nothing moves on the inactive set: no step to compare with.
+                dm_i = dm_a
 
             # add the active set's gradients.
             step += self.active_set_grad_scale * (rhs_a * dm_i / dm_a)
-- 
2.43.0


From 78471afb06d71809d1dc7b89256cbc80f636c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:30 +0000
Subject: [PATCH 44/88] fix: ProjectedGradient line search does not accept an
 increase at the bounds

---
 simpeg/optimization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simpeg/optimization.py b/simpeg/optimization.py
index ab7342f..44f1680 100644
--- a/simpeg/optimization.py
+++ b/simpeg/optimization.py
@@ -1142,7 +1142,6 @@ class ProjectedGradient(Bounded, InexactCG, Minimize, Remember):
         )
 
         self.stoppers.append(StoppingCriteria.bindingSet)
-        self.stoppersLS.append(StoppingCriteria.bindingSet_LS)
 
         self.printers.extend(
             [
-- 
2.43.0


From d126e062339626f83022e87743b674acf32757a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 45/88] fix: weight each datum by its own weight in the
 matrix-free diagonal of GtG

---
 simpeg/potential_fields/gravity/simulation.py | 22 +++++++++++---
 .../potential_fields/magnetics/simulation.py  | 30 ++++++++++++++-----
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/simpeg/potential_fields/gravity/simulation.py b/simpeg/potential_fields/gravity/simulation.py
index 434ba52..74c39dc 100644
--- a/simpeg/potential_fields/gravity/simulation.py
+++ b/simpeg/potential_fields/gravity/simulation.py
@@ -708,8 +708,14 @@ class Simulation3DIntegral(BasePFSimulation):
         # Allocate array for the diagonal of G.T @ G
         diagonal = np.zeros(self.nC, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                vector_slice = slice(
+                    index_offset + i, index_offset + n_rows, n_components
+                )
                 kernel_func = CHOCLO_KERNELS[component]
                 conversion_factor = _get_conversion_factor(component)
                 diagonal_gtg_func(
@@ -718,9 +724,10 @@ class Simulation3DIntegral(BasePFSimulation):
                     active_cell_nodes,
                     kernel_func,
                     constants.G * conversion_factor,
-                    weights,
+                    weights[vector_slice],
                     diagonal,
                 )
+            index_offset += n_rows
         return diagonal
 
 
@@ -922,8 +929,14 @@ class SimulationEquivalentSourceLayer(
         # Allocate array for the diagonal of G.T @ G
         diagonal = np.zeros(self.nC, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                vector_slice = slice(
+                    index_offset + i, index_offset + n_rows, n_components
+                )
                 choclo_forward_func = CHOCLO_FORWARD_FUNCS[component]
                 conversion_factor = _get_conversion_factor(component)
                 diagonal_gtg_func(
@@ -933,9 +946,10 @@ class SimulationEquivalentSourceLayer(
                     self.cell_z_bottom,
                     choclo_forward_func,
                     conversion_factor,
-                    weights,
+                    weights[vector_slice],
                     diagonal,
                 )
+            index_offset += n_rows
         return diagonal
 
 
diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 6b403dd..905a1f2 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1167,13 +1167,19 @@ class Simulation3DIntegral(BasePFSimulation):
         diagonal = np.zeros(n_columns, dtype=np.float64)
 
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
             if not CHOCLO_SUPPORTED_COMPONENTS.issuperset(components):
                 raise NotImplementedError(
                     f"Other components besides {CHOCLO_SUPPORTED_COMPONENTS} "
                     "aren't implemented yet."
                 )
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                vector_slice = slice(
+                    index_offset + i, index_offset + n_rows, n_components
+                )
                 if component == "tmi":
                     diagonal_gtg_func = NUMBA_FUNCTIONS_3D["diagonal_gtg"]["tmi"][
                         self.numba_parallel
@@ -1185,7 +1191,7 @@ class Simulation3DIntegral(BasePFSimulation):
                         regional_field,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[vector_slice],
                         diagonal,
                     )
                 elif component in ("tmi_x", "tmi_y", "tmi_z"):
@@ -1208,7 +1214,7 @@ class Simulation3DIntegral(BasePFSimulation):
                         kernel_yz,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[vector_slice],
                         diagonal,
                     )
                 else:
@@ -1226,9 +1232,10 @@ class Simulation3DIntegral(BasePFSimulation):
                         kernel_z,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[vector_slice],
                         diagonal,
                     )
+            index_offset += n_rows
         return diagonal
 
 
@@ -1585,13 +1592,19 @@ class SimulationEquivalentSourceLayer(
         n_columns = self.nC if scalar_model else 3 * self.nC
         diagonal = np.zeros(n_columns, dtype=np.float64)
         # Start filling the diagonal array
+        index_offset = 0
         for components, receivers in self._get_components_and_receivers():
             if not CHOCLO_SUPPORTED_COMPONENTS.issuperset(components):
                 raise NotImplementedError(
                     f"Other components besides {CHOCLO_SUPPORTED_COMPONENTS} "
                     "aren't implemented yet."
                 )
-            for component in components:
+            n_components = len(components)
+            n_rows = n_components * receivers.shape[0]
+            for i, component in enumerate(components):
+                vector_slice = slice(
+                    index_offset + i, index_offset + n_rows, n_components
+                )
                 if component == "tmi":
                     diagonal_gtg_func = NUMBA_FUNCTIONS_2D["diagonal_gtg"]["tmi"][
                         self.numba_parallel
@@ -1604,7 +1617,7 @@ class SimulationEquivalentSourceLayer(
                         regional_field,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[vector_slice],
                         diagonal,
                     )
                 elif component in ("tmi_x", "tmi_y", "tmi_z"):
@@ -1628,7 +1641,7 @@ class SimulationEquivalentSourceLayer(
                         kernel_yz,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[vector_slice],
                         diagonal,
                     )
                 else:
@@ -1647,9 +1660,10 @@ class SimulationEquivalentSourceLayer(
                         kernel_z,
                         constant_factor,
                         scalar_model,
-                        weights,
+                        weights[vector_slice],
                         diagonal,
                     )
+            index_offset += n_rows
         return diagonal
 
 
-- 
2.43.0


From 3bd0b536ff861bd36c2df21d576d949996731b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:30 +0000
Subject: [PATCH 46/88] fix: default weights of getJtJdiag have one entry per
 amplitude datum

---
 simpeg/potential_fields/magnetics/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index 905a1f2..c272751 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -384,7 +384,7 @@ class Simulation3DIntegral(BasePFSimulation):
         weights = (
             W.diagonal() ** 2
             if W is not None
-            else np.ones(self.survey.nD, dtype=np.float64)
+            else np.ones(self.nD, dtype=np.float64)
         )
 
         # Compute gtg (G.T @ W.T @ W @ G) if it's not cached, or if the
-- 
2.43.0


From 3e3c35819bd2191574a4376c73f461adf3a92315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:29 +0000
Subject: [PATCH 47/88] fix: stored sensitivities of the finite volume magnetic
 simulation can be used

---
 simpeg/potential_fields/magnetics/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index c272751..bc37a50 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -1714,6 +1714,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
     """
 
     _Ainv = None
+    _Jmatrix = None
 
     rem, remMap, remDeriv = props.Invertible(
         "Magnetic Polarization (nT)", optional=True
@@ -1982,7 +1983,7 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
 
     def getJ(self, m, f=None):
         self.model = m
-        if self._Jmatrix:
+        if self._Jmatrix is not None:
             return self._Jmatrix
         if f is None:
             f = self.fields(m)
-- 
2.43.0


From 16d7b0de2df4aacd2adc25350889713642d697e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:30 +0000
Subject: [PATCH 48/88] fix: forget stored sensitivities of total field data
 when the remanence changes

---
 simpeg/potential_fields/magnetics/simulation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simpeg/potential_fields/magnetics/simulation.py b/simpeg/potential_fields/magnetics/simulation.py
index bc37a50..b47822f 100644
--- a/simpeg/potential_fields/magnetics/simulation.py
+++ b/simpeg/potential_fields/magnetics/simulation.py
@@ -2210,6 +2210,12 @@ class Simulation3DDifferential(BaseMagneticPDESimulation):
         if self.muMap is not None:
             if self._Ainv is not None:
                 toDelete = toDelete + ["_Ainv"]
-            if self._Jmatrix is not None:
-                toDelete = toDelete + ["_Jmatrix"]
+        if self._Jmatrix is not None and (
+            self.muMap is not None
+            or any(
+                "tmi" in rx.components for rx in self.survey.source_field.receiver_list
+            )
+        ):
+            # total field data are a nonlinear function of the remanence
+            toDelete = toDelete + ["_Jmatrix"]
         return toDelete
-- 
2.43.0


From 66a8f5d14b3a6ff08fea64645d659f47286a09a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:12 +0000
Subject: [PATCH 49/88] fix: forget cached mass matrices when a mapping is
 replaced

---
 simpeg/base/pde_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/base/pde_simulation.py b/simpeg/base/pde_simulation.py
index 7a999e4..b2b201b 100644
--- a/simpeg/base/pde_simulation.py
+++ b/simpeg/base/pde_simulation.py
@@ -637,7 +637,7 @@ class BaseElectricalPDESimulation(BasePDESimulation):
 
     def __setattr__(self, name, value):
         super().__setattr__(name, value)
-        if name in ["sigma", "rho"]:
+        if name in ["sigma", "rho", "sigmaMap", "rhoMap"]:
             for mat in self._clear_on_sigma_update + self._clear_on_rho_update:
                 if hasattr(self, mat):
                     delattr(self, mat)
@@ -661,7 +661,7 @@ class BaseMagneticPDESimulation(BasePDESimulation):
 
     def __setattr__(self, name, value):
         super().__setattr__(name, value)
-        if name in ["mu", "mui"]:
+        if name in ["mu", "mui", "muMap", "muiMap"]:
             for mat in self._clear_on_mu_update + self._clear_on_mui_update:
                 if hasattr(self, mat):
                     delattr(self, mat)
-- 
2.43.0


From e14b68ceb8d49ecfe8ca09516c25751cad52ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 50/88] fix: sensitivities for given fields use the factors of
 their own model

---
 .../frequency_domain/simulation.py            | 17 ++++++++++++-
 .../static/induced_polarization/simulation.py |  2 ++
 .../static/resistivity/simulation.py          | 20 +++++++++++----
 .../static/resistivity/simulation_2d.py       | 25 +++++++++++++------
 4 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/simulation.py b/simpeg/electromagnetics/frequency_domain/simulation.py
index 006fb47..0ddf468 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation.py
@@ -201,8 +201,17 @@ class BaseFDEMSimulation(BaseEMSimulation):
 
             Srcs = self.survey.get_sources_by_frequency(freq)
             f[Srcs, self._solutionType] = u
+        self._Ainv_is_current = not self.forward_only
         return f
 
+    def _factorize(self):
+        """Factor the system matrices of the current model."""
+        self.Ainv = [
+            self.solver(self.getA(freq), **self.solver_opts)
+            for freq in self.survey.frequencies
+        ]
+        self._Ainv_is_current = True
+
     # @profile
     def Jvec(self, m, v, f=None):
         r"""Compute the sensitivity matrix times a vector.
@@ -239,6 +248,8 @@ class BaseFDEMSimulation(BaseEMSimulation):
             f = self.fields(m)
 
         self.model = m
+        if not getattr(self, "_Ainv_is_current", False):
+            self._factorize()
 
         survey_slices = self.survey.get_all_slices()
         Jv = np.full(self.survey.nD, fill_value=np.nan)
@@ -292,6 +303,8 @@ class BaseFDEMSimulation(BaseEMSimulation):
             f = self.fields(m)
 
         self.model = m
+        if not getattr(self, "_Ainv_is_current", False):
+            self._factorize()
 
         # Get dict of flat array slices for each source-receiver pair in the survey
         survey_slices = self.survey.get_all_slices()
@@ -352,6 +365,8 @@ class BaseFDEMSimulation(BaseEMSimulation):
         if getattr(self, "_Jmatrix", None) is None:
             if f is None:
                 f = self.fields(m)
+            if not getattr(self, "_Ainv_is_current", False):
+                self._factorize()
 
             Ainv = self.Ainv
             m_size = self.model.size
@@ -498,7 +513,7 @@ class BaseFDEMSimulation(BaseEMSimulation):
             List of the model-dependent attributes to clean upon model update.
         """
         toDelete = super()._delete_on_model_update
-        return toDelete + ["_Jmatrix", "_gtgdiag"]
+        return toDelete + ["_Jmatrix", "_gtgdiag", "_Ainv_is_current"]
 
 
 ###############################################################################
diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index e36b418..54280e4 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -85,6 +85,8 @@ class BaseIPSimulation(BasePDESimulation):
 
     _Jmatrix = None
     _pred = None
+    # the system does not depend on the chargeability
+    _Ainv_is_current = True
 
     def fields(self, m):
         if self.verbose:
diff --git a/simpeg/electromagnetics/static/resistivity/simulation.py b/simpeg/electromagnetics/static/resistivity/simulation.py
index 4b7d8d1..203756f 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation.py
@@ -97,15 +97,19 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
             value = validate_active_indices("surface_faces", value, n_bf)
         self._surface_faces = value
 
+    def _factorize(self):
+        """Factor the system matrix of the current model."""
+        if self.Ainv is not None:
+            self.Ainv.clean()
+        self.Ainv = self.solver(self.getA(), **self.solver_opts)
+        self._Ainv_is_current = True
+
     def fields(self, m=None, calcJ=True):
         if m is not None:
             self.model = m
 
         f = self.fieldsPair(self)
-        if self.Ainv is not None:
-            self.Ainv.clean()
-        A = self.getA()
-        self.Ainv = self.solver(A, **self.solver_opts)
+        self._factorize()
         RHS = self.getRHS()
 
         f[:, self._solutionType] = self.Ainv * RHS
@@ -171,6 +175,9 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         else:
             survey = self.survey
 
+        if not getattr(self, "_Ainv_is_current", False):
+            self._factorize()
+
         Jv = []
         for source in survey.source_list:
             u_source = f[source, self._solutionType]  # solution vector
@@ -211,6 +218,9 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
         else:
             survey = self.survey
 
+        if not getattr(self, "_Ainv_is_current", False):
+            self._factorize()
+
         if v is not None:
             if isinstance(v, Data):
                 v = v.dobs
@@ -287,7 +297,7 @@ class BaseDCSimulation(BaseElectricalPDESimulation):
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
-        return toDelete + ["_Jmatrix", "_gtgdiag"]
+        return toDelete + ["_Jmatrix", "_gtgdiag", "_Ainv_is_current"]
 
     def _mini_survey_data(self, d_mini):
         if self._mini_survey is not None:
diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index e8f9267..63912f3 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -220,22 +220,25 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
             value = validate_active_indices("surface_faces", value, n_bf)
         self._surface_faces = value
 
+    def _factorize(self):
+        """Factor the system matrices of the current model."""
+        if self.Ainv[0] is not None:
+            for i in range(self.nky):
+                self.Ainv[i].clean()
+        for iky, ky in enumerate(self._quad_points):
+            self.Ainv[iky] = self.solver(self.getA(ky), **self.solver_opts)
+        self._Ainv_is_current = True
+
     def fields(self, m=None):
         if self.verbose:
             print(">> Compute fields")
         if m is not None:
             self.model = m
-        if self.Ainv[0] is not None:
-            for i in range(self.nky):
-                self.Ainv[i].clean()
+        self._factorize()
         f = self.fieldsPair(self)
         kys = self._quad_points
         f._quad_weights = self._quad_weights
         for iky, ky in enumerate(kys):
-            A = self.getA(ky)
-            if self.Ainv[iky] is not None:
-                self.Ainv[iky].clean()
-            self.Ainv[iky] = self.solver(A, **self.solver_opts)
             RHS = self.getRHS(ky)
             u = self.Ainv[iky] * RHS
             f[:, self._solutionType, iky] = u
@@ -307,6 +310,9 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
         else:
             survey = self.survey
 
+        if not getattr(self, "_Ainv_is_current", False):
+            self._factorize()
+
         kys = self._quad_points
         weights = self._quad_weights
 
@@ -361,6 +367,9 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
         else:
             survey = self.survey
 
+        if not getattr(self, "_Ainv_is_current", False):
+            self._factorize()
+
         if v is not None:
             # Ensure v is a data object.
             if isinstance(v, Data):
@@ -449,7 +458,7 @@ class BaseDCSimulation2D(BaseElectricalPDESimulation):
 
     @property
     def _delete_on_model_update(self):
-        toDelete = super()._delete_on_model_update
+        toDelete = super()._delete_on_model_update + ["_Ainv_is_current"]
         if self.fix_Jmatrix:
             return toDelete
         return toDelete + ["_Jmatrix"]
-- 
2.43.0


From 9bd41a428366b0c81483bf45c5944d5e1636de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 51/88] fix: index spectral IP data in the order of the
 predicted data

---
 .../static/spectral_induced_polarization/data.py      | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/data.py b/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
index f84e018..e657434 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/data.py
@@ -41,11 +41,14 @@ class Data(BaseData):
                 for rx in src.receiver_list:
                     self._index_dictionary[src][rx] = {}
 
-            # loop over sources and find the associated data indices
+            # loop over times and sources (the order of the predicted data) and find
+            # the associated data indices
             indBot, indTop = 0, 0
-            for src in self.survey.source_list:
-                for rx in src.receiver_list:
-                    for t in rx.times:
+            for t in self.survey.unique_times:
+                for src in self.survey.source_list:
+                    for rx in src.receiver_list:
+                        if t not in rx.times:
+                            continue
                         indTop += rx.nD
                         self._index_dictionary[src][rx][t] = np.arange(indBot, indTop)
                         indBot += rx.nD
-- 
2.43.0


From 953f490da3b6a6727ccf470227738a2cf9e1c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 52/88] fix: spectral IP sensitivities can be stored in 3D

---
 .../static/spectral_induced_polarization/simulation.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index b0b3344..268bc98 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -382,7 +382,10 @@ class BaseSIPSimulation(BaseIPSimulation):
                     sys.stdout.flush()
                 u_src = f[src, self._solutionType]
                 for rx in src.receiver_list:
-                    P = rx.getP(self.mesh, rx.projGLoc(f)).toarray()
+                    projected_grid = f._GLoc(rx.projField)
+                    if rx.orientation is not None:
+                        projected_grid = projected_grid + rx.orientation
+                    P = rx.getP(self.mesh, projected_grid).toarray()
                     ATinvdf_duT = self.Ainv * (P.T)
                     dA_dmT = self.getADeriv(u_src, ATinvdf_duT, adjoint=True)
                     iend = istrt + rx.nD
-- 
2.43.0


From b5a27961b3b369fdceae92b8a886047950e0320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 53/88] fix: diagonal of JtJ of the spectral IP simulations

---
 .../spectral_induced_polarization/simulation.py  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index 268bc98..2f5ab49 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -406,7 +406,7 @@ class BaseSIPSimulation(BaseIPSimulation):
 
             return self._Jmatrix
 
-    def getJtJdiag(self, m, Wd, f=None):
+    def getJtJdiag(self, m, W=None, f=None):
         """
         Compute JtJ using adjoint problem. Still we never form
         JtJ
@@ -416,15 +416,19 @@ class BaseSIPSimulation(BaseIPSimulation):
         ntime = len(self.survey.unique_times)
         JtJdiag = np.zeros_like(m)
         J = self.getJ(m, f=f)
-        wd = Wd.diagonal().reshape((self.survey.locations_n, ntime), order="F")
+        wd = np.ones(self.survey.nD) if W is None else W.diagonal()
+        wd = wd.reshape((self.survey.n_locations, ntime), order="F")
         for tind in range(ntime):
             t = self.survey.unique_times[tind]
             Jtv = self._P * J.T * sdiag(wd[:, tind])
             JtJdiag += (
-                (self.PetaEtaDeriv(t, Jtv, adjoint=True) ** 2).sum(axis=1)
-                + (self.PetaTauiDeriv(t, Jtv, adjoint=True) ** 2).sum(axis=1)
-                + (self.PetaCDeriv(t, Jtv, adjoint=True) ** 2).sum(axis=1)
-            )
+                (
+                    self.PetaEtaDeriv(t, Jtv, adjoint=True)
+                    + self.PetaTauiDeriv(t, Jtv, adjoint=True)
+                    + self.PetaCDeriv(t, Jtv, adjoint=True)
+                )
+                ** 2
+            ).sum(axis=1)
         return JtJdiag
 
     # @profile
-- 
2.43.0


From 31018dd7c6b19569b3f16cce778e4027916c6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 54/88] fix: spectral IP sensitivities use the decay parameters
 of the model passed in

---
 .../simulation.py                              | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
index 2f5ab49..3419a52 100644
--- a/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/spectral_induced_polarization/simulation.py
@@ -416,6 +416,7 @@ class BaseSIPSimulation(BaseIPSimulation):
         ntime = len(self.survey.unique_times)
         JtJdiag = np.zeros_like(m)
         J = self.getJ(m, f=f)
+        self._set_model(m)
         wd = np.ones(self.survey.nD) if W is None else W.diagonal()
         wd = wd.reshape((self.survey.n_locations, ntime), order="F")
         for tind in range(ntime):
@@ -431,16 +432,19 @@ class BaseSIPSimulation(BaseIPSimulation):
             ).sum(axis=1)
         return JtJdiag
 
+    def _set_model(self, m):
+        """Set the model, and store the decay parameters it stands for."""
+        self.model = m
+        self._eta_store = self.eta
+        self._taui_store = self.taui
+        self._c_store = self.c
+
     # @profile
     def forward(self, m, f=None):
         if self.verbose:
             print(">> Compute predicted data")
 
-        self.model = m
-
-        self._eta_store = self.eta
-        self._taui_store = self.taui
-        self._c_store = self.c
+        self._set_model(m)
 
         Jv = []
 
@@ -498,7 +502,7 @@ class BaseSIPSimulation(BaseIPSimulation):
         # return self.forward(m, f=f)
 
     def Jvec(self, m, v, f=None):
-        self.model = m
+        self._set_model(m)
 
         Jv = []
 
@@ -544,7 +548,7 @@ class BaseSIPSimulation(BaseIPSimulation):
             return np.hstack(Jv)
 
     def Jtvec(self, m, v, f=None):
-        self.model = m
+        self._set_model(m)
 
         # When sensitivity matrix is stored
         if self.storeJ:
-- 
2.43.0


From c1c29dc1990cbfec32c90b0eab4d2b2f2b9859ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 55/88] fix: IP simulations forget the fields of the previous
 background

---
 .../static/induced_polarization/simulation.py            | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simpeg/electromagnetics/static/induced_polarization/simulation.py b/simpeg/electromagnetics/static/induced_polarization/simulation.py
index 54280e4..46079a8 100644
--- a/simpeg/electromagnetics/static/induced_polarization/simulation.py
+++ b/simpeg/electromagnetics/static/induced_polarization/simulation.py
@@ -85,6 +85,15 @@ class BaseIPSimulation(BasePDESimulation):
 
     _Jmatrix = None
     _pred = None
+
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        if name in ["sigma", "rho"]:
+            # what was computed belongs to the previous background
+            self._f = None
+            self._Jmatrix = None
+            self.__dict__.pop("_scale", None)
+
     # the system does not depend on the chargeability
     _Ainv_is_current = True
 
-- 
2.43.0


From 333946a90e9772f6846f2050c70b58a82447149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 56/88] fix: 2D DC sensitivities set the boundary condition
 they need

---
 simpeg/electromagnetics/static/resistivity/simulation_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_2d.py b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
index 63912f3..1fbe277 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_2d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_2d.py
@@ -542,6 +542,7 @@ class Simulation2DCellCentered(BaseDCSimulation2D):
         return A
 
     def getADeriv(self, ky, u, v, adjoint=False):
+        self.setBC(ky=ky)
         D = self.Div
         G = self.Grad
         if self.bc_type != "Dirichlet":
@@ -704,6 +705,7 @@ class Simulation2DNodal(BaseDCSimulation2D):
         return A
 
     def getADeriv(self, ky, u, v, adjoint=False):
+        self.setBC(ky=ky)
         Grad = self.mesh.nodal_gradient
 
         if adjoint:
-- 
2.43.0


From 4fac417ed39ede9e56b43f1921d9f46c275741e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:07 +0000
Subject: [PATCH 57/88] fix: use vector regularization weights given as one
 column per component

---
 simpeg/regularization/vector.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/simpeg/regularization/vector.py b/simpeg/regularization/vector.py
index 579e57e..b76176d 100644
--- a/simpeg/regularization/vector.py
+++ b/simpeg/regularization/vector.py
@@ -670,7 +670,7 @@ class AmplitudeSmallness(SparseSmallness, BaseAmplitude):
             for value in self._weights.values():
                 if value.shape == (nC,):
                     weights *= value
-                elif value.shape == (self.n_comp * nC,):
+                elif value.size == self.n_comp * nC:
                     weights *= np.linalg.norm(
                         value.reshape((nC, self.n_comp), order="F"), axis=1
                     )
@@ -968,14 +968,12 @@ class AmplitudeSmoothnessFirstOrder(SparseSmoothness, BaseAmplitude):
             nF = average_cell_2_face.shape[0]
             weights = 1.0
             for values in self._weights.values():
-                if values.shape[0] == nC:
-                    values = average_cell_2_face * values
-                elif not values.shape == (nF,):
+                if values.shape not in [(nC,), (nF,)]:
                     values = np.linalg.norm(
                         values.reshape((-1, self.n_comp), order="F"), axis=1
                     )
-                    if values.size == nC:
-                        values = average_cell_2_face * values
+                if values.size == nC:
+                    values = average_cell_2_face * values
 
                 weights *= values
 
-- 
2.43.0


From f09d6a1f00c41753deffea21340a9d48da9987b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:19 +0000
Subject: [PATCH 58/88] fix: meta simulations give their simulations the
 current model and mapping at every call

---
 simpeg/meta/simulation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index f2ebc30..a1bb60d 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -211,7 +211,7 @@ class MetaSimulation(BaseSimulation):
         # The above should pass the model to all the internal simulations.
         f = []
         for mapping, sim in zip(self.mappings, self.simulations):
-            if self._repeat_sim and self.model is not None:
+            if self.model is not None:
                 sim.model = mapping * self.model
             f.append(sim.fields(sim.model))
         return f
@@ -223,7 +223,7 @@ class MetaSimulation(BaseSimulation):
             f = self.fields(m)
         d_pred = []
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
-            if self._repeat_sim:
+            if self.model is not None:
                 sim.model = mapping * self.model
             d_pred.append(sim.dpred(m=sim.model, f=field))
         return np.concatenate(d_pred)
@@ -234,8 +234,7 @@ class MetaSimulation(BaseSimulation):
             f = self.fields(m)
         j_vec = []
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
-            if self._repeat_sim:
-                sim.model = mapping * self.model
+            sim.model = mapping * self.model
             sim_v = mapping.deriv(self.model) @ v
             j_vec.append(sim.Jvec(sim.model, sim_v, f=field))
         return np.concatenate(j_vec)
@@ -248,8 +247,7 @@ class MetaSimulation(BaseSimulation):
         for i, (mapping, sim, field) in enumerate(
             zip(self.mappings, self.simulations, f)
         ):
-            if self._repeat_sim:
-                sim.model = mapping * self.model
+            sim.model = mapping * self.model
             sim_v = v[self._data_offsets[i] : self._data_offsets[i + 1]]
             jt_vec += mapping.deriv(self.model).T @ sim.Jtvec(sim.model, sim_v, f=field)
         return jt_vec
@@ -312,8 +310,7 @@ class MetaSimulation(BaseSimulation):
             for i, (mapping, sim, field) in enumerate(
                 zip(self.mappings, self.simulations, f)
             ):
-                if self._repeat_sim:
-                    sim.model = mapping * self.model
+                sim.model = mapping * self.model
                 sim_w = sp.diags(W[self._data_offsets[i] : self._data_offsets[i + 1]])
                 sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, sim_w, f=field)))
                 m_deriv = mapping.deriv(self.model)
@@ -381,7 +378,9 @@ class SumMetaSimulation(MetaSimulation):
                 m = self.model
             f = self.fields(m)
         d_pred = 0
-        for sim, field in zip(self.simulations, f):
+        for mapping, sim, field in zip(self.mappings, self.simulations, f):
+            if self.model is not None:
+                sim.model = mapping * self.model
             d_pred += sim.dpred(m=sim.model, f=field)
         return d_pred
 
@@ -393,6 +392,7 @@ class SumMetaSimulation(MetaSimulation):
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
             # Every d_pred needs to be setup to grab the current model
             # if given m=None as an argument.
+            sim.model = mapping * self.model
             sim_v = mapping.deriv(self.model) @ v
             j_vec += sim.Jvec(sim.model, sim_v, f=field)
         return j_vec
@@ -403,6 +403,7 @@ class SumMetaSimulation(MetaSimulation):
             f = self.fields(m)
         jt_vec = 0
         for mapping, sim, field in zip(self.mappings, self.simulations, f):
+            sim.model = mapping * self.model
             jt_vec += mapping.deriv(self.model).T @ sim.Jtvec(sim.model, v, f=field)
         return jt_vec
 
@@ -413,6 +414,7 @@ class SumMetaSimulation(MetaSimulation):
             if f is None:
                 f = self.fields(m)
             for mapping, sim, field in zip(self.mappings, self.simulations, f):
+                sim.model = mapping * self.model
                 sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
                 m_deriv = mapping.deriv(self.model)
                 jtj_diag += np.asarray(
-- 
2.43.0


From 713b40d23b36ce5ceb199e7243acd147af988f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:41 +0000
Subject: [PATCH 59/88] fix: meta simulations compute the Hessian diagonal for
 the weights they are given

---
 simpeg/meta/dask_sim.py        | 16 ++++++----------
 simpeg/meta/multiprocessing.py | 12 ++++++------
 simpeg/meta/simulation.py      | 32 ++++++++++++++++++++++----------
 3 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/simpeg/meta/dask_sim.py b/simpeg/meta/dask_sim.py
index 701dffe..281bd45 100644
--- a/simpeg/meta/dask_sim.py
+++ b/simpeg/meta/dask_sim.py
@@ -468,11 +468,8 @@ class DaskMetaSimulation(MetaSimulation):
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
         m_future = self._m_as_future
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
+        W = self._weights_diagonal(W)
+        if not self._has_jtjdiag(W):
             jtj_diag = []
             client = self.client
             if f is None:
@@ -495,6 +492,7 @@ class DaskMetaSimulation(MetaSimulation):
                     )
                 )
             self._jtjdiag = _reduce(client, add, jtj_diag, workers=self._workers)
+            self._jtjdiag_weights = W.copy()
 
         return self._jtjdiag
 
@@ -618,12 +616,9 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
+        W = self._weights_diagonal(W)
+        if not self._has_jtjdiag(W):
             jtj_diag = []
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
             client = self.client
             if f is None:
                 f = self.fields(m)
@@ -643,6 +638,7 @@ class DaskSumMetaSimulation(DaskMetaSimulation, SumMetaSimulation):
                     )
                 )
             self._jtjdiag = _reduce(client, add, jtj_diag, workers=self._workers)
+            self._jtjdiag_weights = W.copy()
 
         return self._jtjdiag
 
diff --git a/simpeg/meta/multiprocessing.py b/simpeg/meta/multiprocessing.py
index 05edf03..00679d0 100644
--- a/simpeg/meta/multiprocessing.py
+++ b/simpeg/meta/multiprocessing.py
@@ -327,11 +327,8 @@ class MultiprocessingMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                W = W.diagonal()
+        W = self._weights_diagonal(W)
+        if not self._has_jtjdiag(W):
             if f is None:
                 f = self.fields(m)
             for i, (p, field) in enumerate(zip(self._sim_processes, f)):
@@ -341,6 +338,7 @@ class MultiprocessingMetaSimulation(MetaSimulation):
             for p in self._sim_processes:
                 jtj_diag.append(p.result())
             self._jtjdiag = np.sum(jtj_diag, axis=0)
+            self._jtjdiag_weights = W.copy()
         return self._jtjdiag
 
     def join(self, timeout=None):
@@ -410,7 +408,8 @@ class MultiprocessingSumMetaSimulation(
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
+        W = self._weights_diagonal(W)
+        if not self._has_jtjdiag(W):
             if f is None:
                 f = self.fields(m)
             for p, field in zip(self._sim_processes, f):
@@ -419,6 +418,7 @@ class MultiprocessingSumMetaSimulation(
             for p in self._sim_processes:
                 jtj_diag.append(p.result())
             self._jtjdiag = np.sum(jtj_diag, axis=0)
+            self._jtjdiag_weights = W.copy()
         return self._jtjdiag
 
 
diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index a1bb60d..5408080 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -290,14 +290,8 @@ class MetaSimulation(BaseSimulation):
         then controlled by how diagonally dominant ``J.T @ J`` is.
         """
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
-            if W is None:
-                W = np.ones(self.survey.nD)
-            else:
-                try:
-                    W = W.diagonal()
-                except (AttributeError, TypeError, ValueError):
-                    pass
+        W = self._weights_diagonal(W)
+        if not self._has_jtjdiag(W):
             jtj_diag = 0.0
             # approximate the JtJ diag on the full model space as:
             # sum((diag(sqrt(jtj_diag)) @ M_deriv))**2)
@@ -318,9 +312,24 @@ class MetaSimulation(BaseSimulation):
                     (sim_jtj @ m_deriv).power(2).sum(axis=0)
                 ).flatten()
             self._jtjdiag = jtj_diag
+            self._jtjdiag_weights = W.copy()
 
         return self._jtjdiag
 
+    def _weights_diagonal(self, W):
+        if W is None:
+            return np.ones(self.survey.nD)
+        try:
+            return W.diagonal()
+        except (AttributeError, TypeError, ValueError):
+            return W
+
+    def _has_jtjdiag(self, W):
+        # the stored diagonal can only be used again with the weights it was made with
+        return getattr(self, "_jtjdiag", None) is not None and np.array_equal(
+            self._jtjdiag_weights, W
+        )
+
     @property
     def _delete_on_model_update(self):
         return super()._delete_on_model_update + ["_jtjdiag"]
@@ -409,18 +418,21 @@ class SumMetaSimulation(MetaSimulation):
 
     def getJtJdiag(self, m, W=None, f=None):
         self.model = m
-        if getattr(self, "_jtjdiag", None) is None:
+        W = self._weights_diagonal(W)
+        if not self._has_jtjdiag(W):
             jtj_diag = 0.0
+            sim_w = sp.diags(W)
             if f is None:
                 f = self.fields(m)
             for mapping, sim, field in zip(self.mappings, self.simulations, f):
                 sim.model = mapping * self.model
-                sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, W, f=field)))
+                sim_jtj = sp.diags(np.sqrt(sim.getJtJdiag(sim.model, sim_w, f=field)))
                 m_deriv = mapping.deriv(self.model)
                 jtj_diag += np.asarray(
                     (sim_jtj @ m_deriv).power(2).sum(axis=0)
                 ).flatten()
             self._jtjdiag = jtj_diag
+            self._jtjdiag_weights = W.copy()
 
         return self._jtjdiag
 
-- 
2.43.0


From ebcf64e8ba6d348c2042d3741719f258db892f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:41 +0000
Subject: [PATCH 60/88] fix: a meta simulation forgets its Hessian diagonal
 when the mappings are replaced

---
 simpeg/meta/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simpeg/meta/simulation.py b/simpeg/meta/simulation.py
index 5408080..eb2a568 100644
--- a/simpeg/meta/simulation.py
+++ b/simpeg/meta/simulation.py
@@ -162,6 +162,7 @@ class MetaSimulation(BaseSimulation):
                         f"input mapping shape {map_out_shape}."
                     )
         self._mappings = value
+        self._jtjdiag = None
 
     @property
     def _act_map_names(self):
-- 
2.43.0


From cc0f3d7b88edf2b7824dbd882de86b9169725cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:34 +0000
Subject: [PATCH 61/88] fix: ScalingMultipleDataMisfits_ByEig uses its number
 of power iterations

---
 simpeg/directives/_directives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index 5cbaa81..6307ee3 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -936,7 +936,9 @@ class ScalingMultipleDataMisfits_ByEig(InversionDirective):
         dm_eigenvalue_list = []
         for dm in self.dmisfit.objfcts:
             dm_eigenvalue_list += [
-                eigenvalue_by_power_iteration(dm, m, random_seed=rng)
+                eigenvalue_by_power_iteration(
+                    dm, m, n_pw_iter=self.n_pw_iter, random_seed=rng
+                )
             ]
 
         self.chi0 = self.chi0_ratio / np.r_[dm_eigenvalue_list]
-- 
2.43.0


From 1ee13b3d44c891943b6b610c51355b7e77173812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:34 +0000
Subject: [PATCH 62/88] fix: UpdatePreconditioner accepts regularizations
 without Hessian after the first iteration too

---
 simpeg/directives/_directives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/directives/_directives.py b/simpeg/directives/_directives.py
index 6307ee3..ce97571 100644
--- a/simpeg/directives/_directives.py
+++ b/simpeg/directives/_directives.py
@@ -2243,7 +2243,9 @@ class UpdatePreconditioner(InversionDirective):
 
         for reg in self.reg.objfcts:
             # Check if he has wire
-            regDiag += reg.deriv2(m).diagonal()
+            rdg = reg.deriv2(m)
+            if not isinstance(rdg, Zero):
+                regDiag += rdg.diagonal()
 
         JtJdiag = np.zeros_like(self.invProb.model)
         for sim, dmisfit in zip(self.simulation, self.dmisfit.objfcts):
-- 
2.43.0


From 192aa6b612fc2c116840108b2906295b7648dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:17 +0000
Subject: [PATCH 63/88] fix: a numpy scalar times a combined objective function
 is an objective function

---
 simpeg/objective_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/objective_function.py b/simpeg/objective_function.py
index 00c3a98..4fb11bb 100644
--- a/simpeg/objective_function.py
+++ b/simpeg/objective_function.py
@@ -270,7 +270,7 @@ class BaseObjectiveFunction(BaseSimPEG):
         )
         return deriv & deriv2
 
-    __numpy_ufunc__ = True
+    __array_ufunc__ = None
 
     def __add__(self, other):
         if isinstance(other, Zero):
-- 
2.43.0


From 46bc50b6232dbda4668644aca8bd2192e7939964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:46 +0000
Subject: [PATCH 64/88] fix: a step-off waveform with a negative off time is
 off at time zero

---
 simpeg/electromagnetics/time_domain/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index 1f0a262..fb5b875 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -174,7 +174,7 @@ class StepOffWaveform(BaseWaveform):
         super().__init__(off_time=off_time, has_initial_fields=True, **kwargs)
 
     def eval(self, time):  # noqa: A003
-        if (abs(time - 0.0) < self.epsilon) or ((time - self.off_time) < self.epsilon):
+        if time - self.off_time < self.epsilon:
             return 1.0
         else:
             return 0.0
-- 
2.43.0


From 1f2e86ffe2088c18e890820c9f3c64c1554627b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:46 +0000
Subject: [PATCH 65/88] fix: the VTEM waveform is off before time zero

---
 simpeg/electromagnetics/time_domain/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index fb5b875..a0b1e91 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -472,7 +472,9 @@ class VTEMWaveform(BaseWaveform):
         self._ramp_on_rate = value
 
     def eval(self, time):  # noqa: A003
-        if time <= self.peak_time:
+        if time < 0.0:
+            return 0.0
+        elif time <= self.peak_time:
             return (1.0 - np.exp(-self.ramp_on_rate * time / self.peak_time)) / (
                 1.0 - np.exp(-self.ramp_on_rate)
             )
-- 
2.43.0


From c068cfb0e7ce8c3d29fd664e66e37d691b02ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 66/88] fix: line currents forget their source term when moved
 or used on another mesh

---
 .../frequency_domain/sources.py               | 19 ++++++++++---------
 .../electromagnetics/time_domain/sources.py   | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index dc66248..0fa314c 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -1286,6 +1286,7 @@ class LineCurrent(BaseFDEMSrc):
     def location(self, loc):
         loc = validate_ndarray_with_shape("location", loc, shape=("*", 3))
         self._location = loc
+        self._Mejs = self._Mfjs = None
 
     @property
     def current(self):
@@ -1329,11 +1330,10 @@ class LineCurrent(BaseFDEMSrc):
         numpy.ndarray of length (mesh.nE)
             Contains the source term for all x, y, and z edges of the mesh.
         """
-        if getattr(self, "_Mejs", None) is None:
-            mesh = simulation.mesh
-            locs = self.location
-            self._Mejs = segmented_line_current_source_term(mesh, locs)
-        return self.current * self._Mejs
+        mesh = simulation.mesh
+        if getattr(self, "_Mejs", None) is None or self._Mejs[0] is not mesh:
+            self._Mejs = mesh, segmented_line_current_source_term(mesh, self.location)
+        return self.current * self._Mejs[1]
 
     def Mfjs(self, simulation):
         """Integrated electrical source term on faces
@@ -1348,11 +1348,12 @@ class LineCurrent(BaseFDEMSrc):
         numpy.ndarray of length (mesh.nF)
             Contains the source term for all x, y, and z faces of the mesh.
         """
-        if getattr(self, "_Mfjs", None) is None:
-            self._Mfjs = line_through_faces(
-                simulation.mesh, self.location, normalize_by_area=True
+        mesh = simulation.mesh
+        if getattr(self, "_Mfjs", None) is None or self._Mfjs[0] is not mesh:
+            self._Mfjs = mesh, line_through_faces(
+                mesh, self.location, normalize_by_area=True
             )
-        return self.current * self._Mfjs
+        return self.current * self._Mfjs[1]
 
     def getRHSdc(self, simulation):
         """Right-hand side for galvanic source term
diff --git a/simpeg/electromagnetics/time_domain/sources.py b/simpeg/electromagnetics/time_domain/sources.py
index a0b1e91..c22ab00 100644
--- a/simpeg/electromagnetics/time_domain/sources.py
+++ b/simpeg/electromagnetics/time_domain/sources.py
@@ -1765,6 +1765,7 @@ class LineCurrent(BaseTDEMSrc):
         else:
             self._srcType = "galvanic"
         self._location = loc
+        self._Mejs = self._Mfjs = None
 
     @property
     def current(self):
@@ -1808,11 +1809,10 @@ class LineCurrent(BaseTDEMSrc):
         numpy.ndarray of length (mesh.nE)
             Contains the source term for all x, y, and z edges of the mesh.
         """
-        if getattr(self, "_Mejs", None) is None:
-            self._Mejs = segmented_line_current_source_term(
-                simulation.mesh, self.location
-            )
-        return self.current * self._Mejs
+        mesh = simulation.mesh
+        if getattr(self, "_Mejs", None) is None or self._Mejs[0] is not mesh:
+            self._Mejs = mesh, segmented_line_current_source_term(mesh, self.location)
+        return self.current * self._Mejs[1]
 
     def Mfjs(self, simulation):
         """Integrated electrical source term on faces
@@ -1827,11 +1827,12 @@ class LineCurrent(BaseTDEMSrc):
         numpy.ndarray of length (mesh.nF)
             Contains the source term for all x, y, and z faces of the mesh.
         """
-        if getattr(self, "_Mfjs", None) is None:
-            self._Mfjs = line_through_faces(
-                simulation.mesh, self.location, normalize_by_area=True
+        mesh = simulation.mesh
+        if getattr(self, "_Mfjs", None) is None or self._Mfjs[0] is not mesh:
+            self._Mfjs = mesh, line_through_faces(
+                mesh, self.location, normalize_by_area=True
             )
-        return self.current * self._Mfjs
+        return self.current * self._Mfjs[1]
 
     def getRHSdc(self, simulation):
         """Right-hand side for galvanic source term
-- 
2.43.0


From 2e2471d6da4aea1e3a3bf2a2b4cd7dba670f122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 67/88] fix: line currents on tree meshes check that every
 vertex is inside the mesh

---
 simpeg/electromagnetics/utils/current_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simpeg/electromagnetics/utils/current_utils.py b/simpeg/electromagnetics/utils/current_utils.py
index 02bc1db..bef55bd 100644
--- a/simpeg/electromagnetics/utils/current_utils.py
+++ b/simpeg/electromagnetics/utils/current_utils.py
@@ -298,11 +298,10 @@ def _poly_line_source_tree(mesh, locs):
     nP = len(points) - 1
     x0 = mesh.x0
     dim = mesh.dim
-    for _ in range(nP + 1):
-        A = points[0]
+    for A in points:
         xF = np.array([mesh.nodes_x[-1], mesh.nodes_y[-1], mesh.nodes_z[-1]])
         if np.any(A < x0) or np.any(A > xF):
-            msg = "Polygon vertex ({.1f}, {.1f}, {.1f}) is outside the mesh".format(*A)
+            msg = "Polygon vertex ({:.1f}, {:.1f}, {:.1f}) is outside the mesh".format(*A)
             raise ValueError(msg)
 
     # Loop over each line segment
-- 
2.43.0


From 6b4bb4036c48605a40db53df8ed0236c872e1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 68/88] fix: line currents leaving a tensor mesh are refused
 instead of giving a wrong source term

---
 simpeg/electromagnetics/utils/current_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/utils/current_utils.py b/simpeg/electromagnetics/utils/current_utils.py
index bef55bd..ee6bb22 100644
--- a/simpeg/electromagnetics/utils/current_utils.py
+++ b/simpeg/electromagnetics/utils/current_utils.py
@@ -188,8 +188,9 @@ def _poly_line_source_tens(mesh, locs):
         iz = _findlast(np.logical_and(az >= z[:nz], az <= z[1:]))
 
         if (ix < 0) or (iy < 0) or (iz < 0):
-            msg = "Polygon vertex (%.1f, %.1f, %.1f) is outside the mesh"
-            print((msg) % (ax, ay, az))
+            raise ValueError(
+                f"Polygon vertex ({ax:.1f}, {ay:.1f}, {az:.1f}) is outside the mesh"
+            )
 
     # integrate each line segment
     for ip in range(nP):
-- 
2.43.0


From d4b776f13031ade8c0629fe4576a732e6833a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:25 +0000
Subject: [PATCH 69/88] fix: the 3D admittance receiver inverts the electric
 field matrix as documented

---
 .../natural_source/receivers.py               | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/receivers.py b/simpeg/electromagnetics/natural_source/receivers.py
index 86cbe0b..139eb7b 100644
--- a/simpeg/electromagnetics/natural_source/receivers.py
+++ b/simpeg/electromagnetics/natural_source/receivers.py
@@ -999,9 +999,9 @@ class Admittance(_ElectricAndMagneticReceiver):
             h = self.getP(mesh, "F" + self.orientation[0], 1) @ h
 
             if self.orientation[1] == "x":
-                top = h[:, 0] * ey[:, 1] - h[:, 1] * ex[:, 1]
+                top = h[:, 0] * ey[:, 1] - h[:, 1] * ey[:, 0]
             else:
-                top = -h[:, 0] * ey[:, 0] + h[:, 1] * ex[:, 0]
+                top = -h[:, 0] * ex[:, 1] + h[:, 1] * ex[:, 0]
 
             bot = ex[:, 0] * ey[:, 1] - ex[:, 1] * ey[:, 0]
 
@@ -1042,13 +1042,13 @@ class Admittance(_ElectricAndMagneticReceiver):
             h = Ph @ h
 
             if self.orientation[1] == "x":
-                p_ind = 1
+                eo = ey
                 fact = 1.0
             else:
-                p_ind = 0
+                eo = ex
                 fact = -1.0
 
-            top = fact * (h[:, 0] * ey[:, p_ind] - h[:, 1] * ex[:, p_ind])
+            top = fact * (h[:, 0] * eo[:, 1] - h[:, 1] * eo[:, 0])
             bot = ex[:, 0] * ey[:, 1] - ex[:, 1] * ey[:, 0]
             adm = top / bot
 
@@ -1070,11 +1070,14 @@ class Admittance(_ElectricAndMagneticReceiver):
 
                 ex_v = np.c_[ey[:, 1], -ey[:, 0]] * b_v[:, None]  # terms dex in bot
                 ey_v = np.c_[-ex[:, 1], ex[:, 0]] * b_v[:, None]  # terms dey in bot
-                ex_v[:, p_ind] -= h[:, 1] * a_v  # add terms dex in top
-                ey_v[:, p_ind] += h[:, 0] * a_v  # add terms dey in top
+                eo_v = np.c_[-h[:, 1], h[:, 0]] * a_v[:, None]  # e in top
+                if self.orientation[1] == "x":
+                    ey_v += eo_v
+                else:
+                    ex_v += eo_v
                 e_v = Pex.T @ ex_v + Pey.T @ ey_v
 
-                h_v = np.c_[ey[:, p_ind], -ex[:, p_ind]] * a_v[:, None]  # h in top
+                h_v = np.c_[eo[:, 1], -eo[:, 0]] * a_v[:, None]  # h in top
                 h_v = Ph.T @ h_v
 
             fu_e_v, fm_e_v = f._eDeriv(src, None, e_v, adjoint=True)
@@ -1098,11 +1101,12 @@ class Admittance(_ElectricAndMagneticReceiver):
             dex_v = Pex @ de_v
             dey_v = Pey @ de_v
 
+            deo_v = dey_v if self.orientation[1] == "x" else dex_v
             dtop_v = fact * (
-                h[:, 0] * dey_v[:, p_ind]
-                + dh_v[:, 0] * ey[:, p_ind]
-                - h[:, 1] * dex_v[:, p_ind]
-                - dh_v[:, 1] * ex[:, p_ind]
+                h[:, 0] * deo_v[:, 1]
+                + dh_v[:, 0] * eo[:, 1]
+                - h[:, 1] * deo_v[:, 0]
+                - dh_v[:, 1] * eo[:, 0]
             )
             dbot_v = (
                 ex[:, 0] * dey_v[:, 1]
-- 
2.43.0


From d6fa2026f0340e094e39bd59ea2c29b19c85ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:25 +0000
Subject: [PATCH 70/88] fix: the derivatives of the vanishing impedances in 1D
 and 2D have the shape of the data

---
 simpeg/electromagnetics/natural_source/receivers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/receivers.py b/simpeg/electromagnetics/natural_source/receivers.py
index 139eb7b..4c25e15 100644
--- a/simpeg/electromagnetics/natural_source/receivers.py
+++ b/simpeg/electromagnetics/natural_source/receivers.py
@@ -341,9 +341,10 @@ class Impedance(_ElectricAndMagneticReceiver):
     def _eval_impedance_deriv(self, src, mesh, f, du_dm_v=None, v=None, adjoint=False):
         if mesh.dim < 3 and self.orientation in ["xx", "yy"]:
             if adjoint:
-                return 0 * v
+                g = np.zeros(f[src, "e"].shape[0], dtype=complex)
+                return f._eDeriv(src, None, g, adjoint=True)
             else:
-                return 0 * du_dm_v
+                return np.zeros(self.nD)
         e = f[src, "e"]
         h = f[src, "h"]
         if mesh.dim == 3:
-- 
2.43.0


From c9a5f9d44dde404422b9a2d53db235671b56e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:14 +0000
Subject: [PATCH 71/88] fix: natural source fields accept scalar and cell-wise
 properties without a mapping

---
 .../electromagnetics/natural_source/fields.py | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/fields.py b/simpeg/electromagnetics/natural_source/fields.py
index 3ba8507..e572afa 100644
--- a/simpeg/electromagnetics/natural_source/fields.py
+++ b/simpeg/electromagnetics/natural_source/fields.py
@@ -58,10 +58,7 @@ class _EField(_1DField):
     def _h(self, eSolution, source_list):
         omegas = np.array([omega(src.frequency) for src in source_list])
         e = self._e(eSolution, source_list)
-        if self.simulation.muiMap is not None:
-            mui = self.simulation.mui[:, None]
-        else:
-            mui = self.simulation.mui
+        mui = np.atleast_1d(self.simulation.mui)[:, None]
         v = mui * (self._C * e)
         return v / (1j * omegas)
 
@@ -69,10 +66,7 @@ class _EField(_1DField):
         if du_dm_v.ndim == 1:
             du_dm_v = du_dm_v[:, None]
         om = omega(src.frequency)
-        if self.simulation.muiMap is not None:
-            mui = self.simulation.mui[:, None]
-        else:
-            mui = self.simulation.mui
+        mui = np.atleast_1d(self.simulation.mui)[:, None]
         if adjoint:
             y = self._eDeriv_u(src, self._C.T * (mui * du_dm_v), adjoint=adjoint)
             return np.squeeze(y) / (1j * om)
@@ -110,21 +104,17 @@ class _HField(_1DField):
         return Zero()
 
     def _e(self, hSolution, source_list):
-        return self.simulation.rho[:, None] * (
-            self._C * self._h(hSolution, source_list)
-        )
+        rho = np.atleast_1d(self.simulation.rho)[:, None]
+        return rho * (self._C * self._h(hSolution, source_list))
 
     def _eDeriv_u(self, src, du_dm_v, adjoint=False):
         if du_dm_v.ndim == 1:
             du_dm_v = du_dm_v[:, None]
+        rho = np.atleast_1d(self.simulation.rho)[:, None]
         if adjoint:
-            y = self._hDeriv_u(
-                src, self._C.T * (self.simulation.rho[:, None] * du_dm_v), adjoint=True
-            )
+            y = self._hDeriv_u(src, self._C.T * (rho * du_dm_v), adjoint=True)
             return np.squeeze(y)
-        y = self.simulation.rho[:, None] * (
-            self._C @ (self._hDeriv_u(src, du_dm_v, adjoint=False))
-        )
+        y = rho * (self._C @ (self._hDeriv_u(src, du_dm_v, adjoint=False)))
         return np.squeeze(y)
 
     def _eDeriv_m(self, src, v, adjoint=False):
-- 
2.43.0


From b49db6809fe89842fc91d32a88398380447c7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:14 +0000
Subject: [PATCH 72/88] fix: plane wave sources recompute the primary field for
 another mesh or primary conductivity

---
 .../natural_source/sources.py                 | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/sources.py b/simpeg/electromagnetics/natural_source/sources.py
index 90ac791..92b1945 100644
--- a/simpeg/electromagnetics/natural_source/sources.py
+++ b/simpeg/electromagnetics/natural_source/sources.py
@@ -59,12 +59,15 @@ class PlanewaveXYPrimary(Planewave):
         super(PlanewaveXYPrimary, self).__init__(receiver_list, frequency)
 
     def _get_sigmas(self, simulation):
-        try:
-            return self._sigma1d, self._sigma_p
-        except AttributeError:
+        sigma_primary = self._sigma_primary
+        if sigma_primary is None or simulation.mesh.dim < 3:
+            sigma_primary = simulation.sigmaPrimary
+        current = getattr(self, "_primary_for", (None, None))
+        if current[0] is not simulation.mesh or current[1] is not sigma_primary:
+            # (re)compute for this mesh and primary conductivity
+            self._primary_for = simulation.mesh, sigma_primary
+            self._ePrimary = None
             # set _sigma 1D
-            if self._sigma_primary is None:
-                self._sigma_primary = simulation.sigmaPrimary
             # Create 3d_1d mesh like me...
             if simulation.mesh.dim == 3:
                 mesh3d = simulation.mesh
@@ -75,25 +78,25 @@ class PlanewaveXYPrimary(Planewave):
                     mesh3d.h[-1],
                 ]
                 mesh1d = discretize.TensorMesh(hs, x0=x0)
-                if len(self._sigma_primary) == mesh3d.nC:
+                if len(sigma_primary) == mesh3d.nC:
                     # volume average down to 1D mesh
                     self._sigma1d = np.exp(
-                        volume_average(mesh3d, mesh1d, np.log(self._sigma_primary))
+                        volume_average(mesh3d, mesh1d, np.log(sigma_primary))
                     )
-                elif len(self._sigma_primary) == mesh1d.nC:
-                    self._sigma1d = self._sigma_primary
+                elif len(sigma_primary) == mesh1d.nC:
+                    self._sigma1d = sigma_primary
                 else:
-                    self._sigma1d = np.ones(mesh1d.nC) * self._sigma_primary
+                    self._sigma1d = np.ones(mesh1d.nC) * sigma_primary
                 self._sigma_p = np.exp(
                     volume_average(mesh1d, mesh3d, np.log(self._sigma1d))
                 )
             else:
                 self._sigma1d = simulation.mesh.reshape(
-                    simulation._sigmaPrimary, "CC", "CC", "M"
+                    sigma_primary, "CC", "CC", "M"
                 )[:]
                 self._sigma_p = None
                 self.sigma1d = self._sigma1d
-            return self._sigma1d, self._sigma_p
+        return self._sigma1d, self._sigma_p
 
     def ePrimary(self, simulation):
         """Primary electric field
@@ -108,8 +111,8 @@ class PlanewaveXYPrimary(Planewave):
         numpy.ndarray
             Primary electric field
         """
+        sigma_1d, _ = self._get_sigmas(simulation)
         if self._ePrimary is None:
-            sigma_1d, _ = self._get_sigmas(simulation)
             e_1d = primary_e_1d_solution(simulation.mesh, sigma_1d, self.frequency)
             e_1d = project_1d_fields_to_mesh_edges(simulation.mesh, e_1d)
 
-- 
2.43.0


From 1ec283ab01a8fd68820abed3cd3607064434034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:05 +0000
Subject: [PATCH 73/88] fix: admittance and apparent conductivity receivers
 support the sensitivity matrix

---
 .../natural_source/receivers.py               | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/simpeg/electromagnetics/natural_source/receivers.py b/simpeg/electromagnetics/natural_source/receivers.py
index 4c25e15..e097170 100644
--- a/simpeg/electromagnetics/natural_source/receivers.py
+++ b/simpeg/electromagnetics/natural_source/receivers.py
@@ -7,7 +7,6 @@ from ...utils.code_utils import (
 import numpy as np
 from scipy.constants import mu_0
 from ...survey import BaseRx
-from simpeg.utils import mkvc
 
 
 def _alpha(src):
@@ -1069,16 +1068,22 @@ class Admittance(_ElectricAndMagneticReceiver):
 
             else:
 
-                ex_v = np.c_[ey[:, 1], -ey[:, 0]] * b_v[:, None]  # terms dex in bot
-                ey_v = np.c_[-ex[:, 1], ex[:, 0]] * b_v[:, None]  # terms dey in bot
-                eo_v = np.c_[-h[:, 1], h[:, 0]] * a_v[:, None]  # e in top
+                ex_v = np.c_[ey[:, 1], -ey[:, 0]] * b_v[..., None]  # terms dex in bot
+                ey_v = np.c_[-ex[:, 1], ex[:, 0]] * b_v[..., None]  # terms dey in bot
+                eo_v = np.c_[-h[:, 1], h[:, 0]] * a_v[..., None]  # e in top
                 if self.orientation[1] == "x":
                     ey_v += eo_v
                 else:
                     ex_v += eo_v
-                e_v = Pex.T @ ex_v + Pey.T @ ey_v
+                h_v = np.c_[eo[:, 1], -eo[:, 0]] * a_v[..., None]  # h in top
+
+                if v.ndim == 2:
+                    # collapse into a long list of n_d vectors
+                    ex_v = ex_v.reshape((self.nD, -1))
+                    ey_v = ey_v.reshape((self.nD, -1))
+                    h_v = h_v.reshape((self.nD, -1))
 
-                h_v = np.c_[eo[:, 1], -eo[:, 0]] * a_v[:, None]  # h in top
+                e_v = Pex.T @ ex_v + Pey.T @ ey_v
                 h_v = Ph.T @ h_v
 
             fu_e_v, fm_e_v = f._eDeriv(src, None, e_v, adjoint=True)
@@ -1237,14 +1242,17 @@ class ApparentConductivity(_ElectricAndMagneticReceiver):
             a_v = fact * v / bot  # term 1
             b_v = -fact * top * v / bot**2  # term 2
 
-            a_v = np.repeat(mkvc(a_v, n_dims=2), 2, axis=-1)
-            b_v = np.repeat(mkvc(b_v, n_dims=2), 2, axis=-1)
+            a_v = a_v[..., None]
+            b_v = b_v[..., None]
+
+            hx, hy, hz = hx * a_v, hy * a_v, hz * a_v
+            ex, ey = ex * b_v, ey * b_v
 
-            hx *= a_v
-            hy *= a_v
-            hz *= a_v
-            ex *= b_v
-            ey *= b_v
+            if v.ndim == 2:
+                # collapse into a long list of n_d vectors
+                hx, hy, hz, ex, ey = (
+                    x.reshape((self.nD, -1)) for x in (hx, hy, hz, ex, ey)
+                )
 
             e_v = 2 * (Pex.T @ ex + Pey.T @ ey).conjugate()
             h_v = 2 * (Phx.T @ hx + Phy.T @ hy + Phz.T @ hz).conjugate()
-- 
2.43.0


From fa4b96e5df0db23ecf5601ef89e57dfaef7a25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:02 +0000
Subject: [PATCH 74/88] fix: the number of VRM data counts the active times
 given to the survey

---
 .../electromagnetics/viscous_remanent_magnetization/survey.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py b/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
index 0f65d97..6b2fdb1 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/survey.py
@@ -26,13 +26,13 @@ class SurveyVRM(BaseSurvey):
         super(SurveyVRM, self).__init__(source_list=source_list, **kwargs)
 
         self._nD_all = self.vnD.sum()
-        self._nD = self._nD_all
 
         if t_active is None:
             t_active = np.ones(self._nD_all, dtype=bool)
         self.t_active = validate_ndarray_with_shape(
             "t_active", t_active, shape=(self._nD_all,), dtype=bool
         )
+        self._nD = np.sum(self.t_active)
 
     @property
     def source_list(self):
-- 
2.43.0


From 0839740bb5b53a325927411c1ca2460581c5d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:02 +0000
Subject: [PATCH 75/88] fix: time derivatives of arbitrary VRM waveforms have
 the right sign for every current

---
 .../viscous_remanent_magnetization/waveforms.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
index e76da90..2f0ebc9 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/waveforms.py
@@ -457,7 +457,7 @@ class ArbitraryDiscrete(BaseVRMWaveform):
             for tt in range(0, len(eta)):
                 eta[tt] = np.sum(
                     ((g[1:] - g[0:-1]) / dt) * np.log(1 + dt / (times[tt] - tvec))
-                    - (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
+                    + (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
                     * (1 / (times[tt] - tvec + dt) - 1 / (times[tt] - tvec))
                 )
 
@@ -540,7 +540,7 @@ class ArbitraryPiecewise(ArbitraryDiscrete):
             for tt in range(0, len(eta)):
                 eta[tt] = np.sum(
                     ((g[1:] - g[0:-1]) / dt) * np.log(1 + dt / (times[tt] - tvec))
-                    - (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
+                    + (g[1:] + (g[1:] - g[0:-1]) * (times[tt] - tvec) / dt)
                     * (1 / (times[tt] - tvec + dt) - 1 / (times[tt] - tvec))
                 )
 
-- 
2.43.0


From 2f869b1b5d473bdce0de5e0fd8d3e337db7d83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:02 +0000
Subject: [PATCH 76/88] fix: log-uniform VRM data use the rows of their
 receiver, in survey order

---
 .../viscous_remanent_magnetization/simulation.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
index 6d4a63c..abd796e 100644
--- a/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
+++ b/simpeg/electromagnetics/viscous_remanent_magnetization/simulation.py
@@ -1038,6 +1038,9 @@ class Simulation3DLogUniform(BaseVRMSimulation):
             receiver_list = source_list[pp].receiver_list
             nRx = len(receiver_list)
             waveObj = source_list[pp].waveform
+            n_loc = [np.shape(rx.locations)[0] for rx in receiver_list]
+            # Rows of the geometric matrix of each receiver
+            A = np.split(self.A[pp], np.cumsum(n_loc)[:-1])
 
             for qq in range(0, nRx):
                 times = receiver_list[qq].times
@@ -1050,6 +1053,7 @@ class Simulation3DLogUniform(BaseVRMSimulation):
                     self.tau2,
                 )
 
-                f.append(mkvc(self.A[qq] @ eta))
+                # Same order as the linear problem: all times of each location
+                f.append(mkvc((A[qq] @ eta).T))
 
         return np.array(np.hstack(f))
-- 
2.43.0


From 050e1a04a006bfb597f93d0080a81c651ac32b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:33 +0000
Subject: [PATCH 77/88] fix: straight rays along a cell face are counted once

---
 simpeg/seismic/straight_ray_tomography/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simpeg/seismic/straight_ray_tomography/simulation.py b/simpeg/seismic/straight_ray_tomography/simulation.py
index 1070f1d..14e5aea 100644
--- a/simpeg/seismic/straight_ray_tomography/simulation.py
+++ b/simpeg/seismic/straight_ray_tomography/simulation.py
@@ -66,6 +66,11 @@ def _lineintegral(M, Tx, Rx):
         for j in range(M.shape_cells[1]):
             x = M.nodes_x[[i, i + 1]]
             y = M.nodes_y[[j, j + 1]]
+            # a ray along an interior face belongs to only one of its cells
+            if D[0] == 0 and O[0] == x[1] and i < M.shape_cells[0] - 1:
+                continue
+            if D[1] == 0 and O[1] == y[1] and j < M.shape_cells[1] - 1:
+                continue
             v = _lengthInCell(O, D, x, y)
             if v is not None:
                 I += [i]
-- 
2.43.0


From 4eebfc153fcad859fd45cfe38d6913f51087ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:54 +0000
Subject: [PATCH 78/88] fix: Richards Jtvec computes the fields when none are
 given

---
 simpeg/flow/richards/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index 97c2e58..b959189 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -414,7 +414,7 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
     @utils.timeIt
     def Jtvec(self, m, v, f=None):
         if f is None:
-            f = self.field(m)
+            f = self.fields(m)
 
         PTv, PTdv = self.survey.derivAdjoint(self, f, v=v)
 
-- 
2.43.0


From 83df3c38a79f835e4d2878af2b36002dcc619eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:01 +0000
Subject: [PATCH 79/88] fix: the Richards sensitivity matrix is available for a
 single time step

---
 simpeg/flow/richards/simulation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simpeg/flow/richards/simulation.py b/simpeg/flow/richards/simulation.py
index b959189..4c32b14 100644
--- a/simpeg/flow/richards/simulation.py
+++ b/simpeg/flow/richards/simulation.py
@@ -365,11 +365,14 @@ class SimulationNDCellCentered(BaseTimeSimulation, BasePDESimulation):
             Asubs[ii], Adiags[ii], Bs[ii] = self.diagsJacobian(
                 m, f[ii], f[ii + 1], dt, bc
             )
-        Ad = sp.block_diag(Adiags)
-        zRight = utils.spzeros((len(Asubs) - 1) * Asubs[0].shape[0], Adiags[0].shape[1])
-        zTop = utils.spzeros(Adiags[0].shape[0], len(Adiags) * Adiags[0].shape[1])
-        As = sp.vstack((zTop, sp.hstack((sp.block_diag(Asubs[1:]), zRight))))
-        A = As + Ad
+        A = sp.block_diag(Adiags)
+        if nn > 1:
+            zRight = utils.spzeros(
+                (len(Asubs) - 1) * Asubs[0].shape[0], Adiags[0].shape[1]
+            )
+            zTop = utils.spzeros(Adiags[0].shape[0], len(Adiags) * Adiags[0].shape[1])
+            As = sp.vstack((zTop, sp.hstack((sp.block_diag(Asubs[1:]), zRight))))
+            A = As + A
         B = np.array(sp.vstack(Bs).todense())
 
         Ainv = self.solver(A, **self.solver_opts)
-- 
2.43.0


From 3012b6691a3cfcda06e59c384f85a5c7622a8976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:36 +0000
Subject: [PATCH 80/88] fix: the reported z component of a 3D regularization
 does not include the y component

---
 simpeg/inverse_problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simpeg/inverse_problem.py b/simpeg/inverse_problem.py
index 4286216..a5be559 100644
--- a/simpeg/inverse_problem.py
+++ b/simpeg/inverse_problem.py
@@ -344,10 +344,10 @@ class BaseInvProblem:
                 dim = reg.regularization_mesh.dim
                 self.phi_s += mult * reg.objfcts[i_s](m) * reg.alpha_s
                 self.phi_x += mult * reg.objfcts[i_x](m) * reg.alpha_x
-                if dim > 1:
+                if dim == 2:
                     self.phi_z += mult * reg.objfcts[i_y](m) * reg.alpha_y
-                if dim > 2:
-                    self.phi_y = self.phi_z
+                elif dim > 2:
+                    self.phi_y += mult * reg.objfcts[i_y](m) * reg.alpha_y
                     self.phi_z += mult * reg.objfcts[i_z](m) * reg.alpha_z
 
         phi = phi_d + self.beta * phi_m
-- 
2.43.0


From 6997bb101fc28121fb9430b2eaad79a56ec12779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:19 +0000
Subject: [PATCH 81/88] fix: the coupling of y dipoles and x receivers in 1D is
 linear in the receiver orientation

---
 simpeg/electromagnetics/base_1d.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index ffc2862..30c21d9 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -528,7 +528,6 @@ class BaseEM1DSimulation(BaseSimulation):
                             C0 += (
                                 src_y
                                 * rx_x
-                                * rx_x
                                 * (dxyz[:, 0] * dxyz[:, 1] / offsets**2)[:, None]
                                 * lambd**2
                             )
-- 
2.43.0


From 9cb933a644365a24b23f6b0076831b200ebffd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:31 +0000
Subject: [PATCH 82/88] fix: 1D EM data and sensitivities depend on the source
 heights of the model

---
 simpeg/electromagnetics/base_1d.py            | 27 ++++++-
 .../frequency_domain/simulation_1d.py         | 70 +++++--------------
 .../time_domain/simulation_1d.py              | 52 +++++---------
 3 files changed, 59 insertions(+), 90 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 30c21d9..8f10212 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -463,7 +463,8 @@ class BaseEM1DSimulation(BaseSimulation):
 
                 if is_wire_loop:
                     dxy = rx.locations[:, :2] - xyks
-                    h = src.location.mean(axis=0)[2] - self.topo[-1]
+                    if self.hMap is None:
+                        h = src.location.mean(axis=0)[2] - self.topo[-1]
                     z = h + rx.locations[:, 2] - src.location.mean(axis=0)[2]
                     offsets = np.linalg.norm(dxy, axis=-1)
                 else:
@@ -612,6 +613,30 @@ class BaseEM1DSimulation(BaseSimulation):
         self._W = sp.coo_matrix((data, (Is, Js)), shape=(n_col, n_row))
         self._W = self._W.tocsr()
 
+    @property
+    def _source_rows(self):
+        """Index of the source of each row of the hankel coefficients."""
+        n_rows = []
+        for src in self.survey.source_list:
+            n_row = sum(rx.locations.shape[0] for rx in src.receiver_list)
+            if type(src).__name__ == "LineCurrent":
+                n_row *= src.n_segments * self.n_points_per_path
+            n_rows.append(n_row)
+        return np.repeat(np.arange(len(n_rows)), n_rows)
+
+    def _get_hankel_coefficients(self):
+        """Hankel coefficients for the current source heights.
+
+        When the heights are part of the model, the stored coefficients are for sources
+        on the ground: the field has to go down from the source, and back up to the
+        receiver, which is at a fixed offset from the source.
+        """
+        if self.hMap is None:
+            return self._C0s, self._C1s
+        h = self.h[self._source_rows]
+        decay = np.exp(-2.0 * self._lambs * h[:, None])
+        return self._C0s * decay, self._C1s * decay
+
     @property
     def _delete_on_model_update(self):
         toDelete = super()._delete_on_model_update
diff --git a/simpeg/electromagnetics/frequency_domain/simulation_1d.py b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
index c51e8e3..36b150b 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
@@ -108,8 +108,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
 
         self.model = m
 
-        C0s = self._C0s
-        C1s = self._C1s
+        C0s, C1s = self._get_hankel_coefficients()
         W = self._W
 
         frequencies = np.array(self.survey.frequencies)
@@ -153,8 +152,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
             self._J = {}
             self._compute_coefficients()
 
-            C0s = self._C0s
-            C1s = self._C1s
+            C0s, C1s = self._get_hankel_coefficients()
             lambs = self._lambs
             frequencies = np.array(self.survey.frequencies)
             unique_lambs = self._unique_lambs
@@ -166,59 +164,25 @@ class Simulation1DLayered(BaseEM1DSimulation):
             mu = self.compute_complex_mu(frequencies)
 
             if self.hMap is not None:
-                # Grab a copy
-                C0s_dh = C0s.copy()
-                C1s_dh = C1s.copy()
-                h_vec = self.h
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    class_name = type(src).__name__
-                    is_wire_loop = class_name == "LineCurrent"
-
-                    h = h_vec[i_src]
-                    if is_wire_loop:
-                        n_quad_points = src.n_segments * self.n_points_per_path
-                        nD = sum(
-                            rx.locations.shape[0] * n_quad_points
-                            for rx in src.receiver_list
-                        )
-                    else:
-                        nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v = np.exp(-lambs[i:ip1] * h)
-                    C0s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    C1s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    i = ip1
-                    # J will be n_d * n_src (each source has it's own h)...
+                # each source has its own height
+                i_src = self._source_rows
+                C0s_dh = -2.0 * lambs * C0s
+                C1s_dh = -2.0 * lambs * C1s
 
                 rTE = rTE_forward(frequencies, unique_lambs, sig, mu, self.thicknesses)
                 rTE = rTE[i_freq]
                 rTE = np.take_along_axis(rTE, inv_lambs, axis=1)
-                v_dh_temp = ((C0s_dh * rTE) @ self._fhtfilt.j0).real + (
-                    (C1s_dh * rTE) @ self._fhtfilt.j1
-                ).real
-                v_dh_temp += W @ v_dh_temp
-                # need to re-arange v_dh as it's currently (n_data x 1)
-                # however it already contains all the relevant information...
-                # just need to map it from the rx index to the source index associated..
-                v_dh = np.zeros((self.survey.nSrc, v_dh_temp.shape[0]))
-
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    class_name = type(src).__name__
-                    is_wire_loop = class_name == "LineCurrent"
-                    if is_wire_loop:
-                        n_quad_points = src.n_segments * self.n_points_per_path
-                        nD = sum(
-                            rx.locations.shape[0] * n_quad_points
-                            for rx in src.receiver_list
-                        )
-                    else:
-                        nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v_dh[i_src, i:ip1] = v_dh_temp[i:ip1]
-                    i = ip1
-                v_dh = v_dh.T
+                v_dh = (C0s_dh * rTE) @ self._fhtfilt.j0 + (
+                    C1s_dh * rTE
+                ) @ self._fhtfilt.j1
+                # J will be n_d * n_src
+                v_dh = np.stack(
+                    [
+                        W[:, i_src == i] @ v_dh[i_src == i]
+                        for i in range(self.survey.nSrc)
+                    ],
+                    axis=-1,
+                )
                 self._J["dh"] = self._project_to_data(v_dh)
 
             if (
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index d5e7a3b..eacabe5 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -232,8 +232,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
 
         self.model = m
 
-        C0s = self._C0s
-        C1s = self._C1s
+        C0s, C1s = self._get_hankel_coefficients()
 
         frequencies = self._frequencies
         unique_lambs = self._unique_lambs
@@ -275,8 +274,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
             self._J = {}
             self._compute_coefficients()
 
-            C0s = self._C0s
-            C1s = self._C1s
+            C0s, C1s = self._get_hankel_coefficients()
             lambs = self._lambs
             frequencies = self._frequencies
             unique_lambs = self._unique_lambs
@@ -288,42 +286,24 @@ class Simulation1DLayered(BaseEM1DSimulation):
             mu = self.compute_complex_mu(frequencies)
 
             if self.hMap is not None:
-                # Grab a copy
-                C0s_dh = C0s.copy()
-                C1s_dh = C1s.copy()
-                h_vec = self.h
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    h = h_vec[i_src]
-                    nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v = np.exp(-lambs[i:ip1] * h)
-                    C0s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    C1s_dh[i:ip1] *= v * -lambs[i:ip1]
-                    i = ip1
-                    # J will be n_d * n_src (each source has it's own h)...
+                # each source has its own height
+                i_src = self._source_rows
+                C0s_dh = -2.0 * lambs * C0s
+                C1s_dh = -2.0 * lambs * C1s
 
                 rTE = rTE_forward(frequencies, unique_lambs, sig, mu, self.thicknesses)
                 rTE = rTE[:, inv_lambs]
-                v_dh_temp = (
-                    W
-                    @ (
-                        ((C0s_dh * rTE) @ self._fhtfilt.j0).real
-                        + ((C1s_dh * rTE) @ self._fhtfilt.j1).real
-                    ).T
+                v_dh = (C0s_dh * rTE) @ self._fhtfilt.j0 + (
+                    C1s_dh * rTE
+                ) @ self._fhtfilt.j1
+                # J will be n_d * n_src
+                v_dh = np.stack(
+                    [
+                        W[:, i_src == i] @ v_dh[:, i_src == i].T
+                        for i in range(self.survey.nSrc)
+                    ],
+                    axis=-1,
                 )
-                # need to re-arange v_dh as it's currently (n_data x n_freqs)
-                # however it already contains all the relevant information...
-                # just need to map it from the rx index to the source index associated..
-                v_dh = np.zeros((self.survey.nSrc, *v_dh_temp.shape))
-
-                i = 0
-                for i_src, src in enumerate(self.survey.source_list):
-                    nD = sum(rx.locations.shape[0] for rx in src.receiver_list)
-                    ip1 = i + nD
-                    v_dh[i_src, i:ip1] = v_dh_temp[i:ip1]
-                    i = ip1
-                v_dh = np.transpose(v_dh, (1, 2, 0))
                 self._J["dh"] = self._project_to_data(v_dh)
 
             if (
-- 
2.43.0


From 8a5810642f2f28e4e8006c99a8f184153b3c1f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:01 +0000
Subject: [PATCH 83/88] fix: 1D EM wire paths support receivers with several
 locations

---
 simpeg/electromagnetics/base_1d.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 8f10212..230b253 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -454,7 +454,15 @@ class BaseEM1DSimulation(BaseSimulation):
                 rx_x, rx_y, rx_z = rx.orientation
 
                 # Compute receiver height
-                if rx.use_source_receiver_offset:
+                if is_wire_loop:
+                    # every receiver location sees every point of the path
+                    n_locs = rx.locations.shape[0]
+                    dxy = (rx.locations[:, None, :2] - xyks).reshape(-1, 2)
+                    if self.hMap is None:
+                        h = src.location.mean(axis=0)[2] - self.topo[-1]
+                    z = h + rx.locations[:, 2] - src.location.mean(axis=0)[2]
+                    z = np.repeat(z, len(xyks))
+                elif rx.use_source_receiver_offset:
                     dxyz = rx.locations
                     z = h + rx.locations[:, 2]
                 else:
@@ -462,10 +470,6 @@ class BaseEM1DSimulation(BaseSimulation):
                     z = h + rx.locations[:, 2] - src.location[2]
 
                 if is_wire_loop:
-                    dxy = rx.locations[:, :2] - xyks
-                    if self.hMap is None:
-                        h = src.location.mean(axis=0)[2] - self.topo[-1]
-                    z = h + rx.locations[:, 2] - src.location.mean(axis=0)[2]
                     offsets = np.linalg.norm(dxy, axis=-1)
                 else:
                     offsets = np.linalg.norm(dxyz[:, :-1], axis=-1)
@@ -578,13 +582,12 @@ class BaseEM1DSimulation(BaseSimulation):
                             [np.sin(thetas), np.cos(thetas)],
                         ]
                     )
-                    dxy_rot = np.einsum("...i,ji...", dxy, R)
-                    C1 = (1 / (4 * np.pi) * (dxy_rot[:, 1] / offsets * weights))[
-                        :, None
-                    ] * lambd
-                    # Assume
-                    # 1) source_list only includes wire_loop sources
-                    # 1) rx.locations.shape = (1,3)
+                    dxy_rot = np.einsum("...i,ji...", dxy, np.tile(R, n_locs))
+                    C1 = (
+                        1
+                        / (4 * np.pi)
+                        * (dxy_rot[:, 1] / offsets * np.tile(weights, n_locs))
+                    )[:, None] * lambd
                     n_w = weights.size
                 else:
                     raise TypeError(
-- 
2.43.0


From 3d8c81ac9669cec91593145d4c14c6c724b55506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:01 +0000
Subject: [PATCH 84/88] fix: the dispersive properties of 1D EM layers can be
 given as single values or per layer

---
 simpeg/electromagnetics/base_1d.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index 230b253..cc191e3 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -286,14 +286,10 @@ class BaseEM1DSimulation(BaseSimulation):
 
         # IP effect
         else:
-            if np.isscalar(self.eta):
-                eta = self.eta
-                tau = self.tau
-                c = self.c
-            else:
-                eta = np.tile(self.eta.reshape([-1, 1]), (1, n_frequency))
-                tau = np.tile(self.tau.reshape([-1, 1]), (1, n_frequency))
-                c = np.tile(self.c.reshape([-1, 1]), (1, n_frequency))
+            # either one value, or one value per layer
+            eta = np.reshape(self.eta, (-1, 1))
+            tau = np.reshape(self.tau, (-1, 1))
+            c = np.reshape(self.c, (-1, 1))
 
             w = np.tile(2 * np.pi * frequencies, (n_layer, 1))
 
@@ -351,14 +347,10 @@ class BaseEM1DSimulation(BaseSimulation):
 
         # Magnetic viscosity
         else:
-            if np.isscalar(self.dchi):
-                dchi = self.dchi * np.ones_like(self.mu)
-                tau1 = self.tau1 * np.ones_like(self.mu)
-                tau2 = self.tau2 * np.ones_like(self.mu)
-            else:
-                dchi = np.tile(self.dchi.reshape([-1, 1]), (1, n_frequency))
-                tau1 = np.tile(self.tau1.reshape([-1, 1]), (1, n_frequency))
-                tau2 = np.tile(self.tau2.reshape([-1, 1]), (1, n_frequency))
+            # either one value, or one value per layer
+            dchi = np.reshape(self.dchi, (-1, 1))
+            tau1 = np.reshape(self.tau1, (-1, 1))
+            tau2 = np.reshape(self.tau2, (-1, 1))
 
             w = np.tile(2 * np.pi * frequencies, (n_layer, 1))
 
-- 
2.43.0


From f171fc9b2da77b8b26712c2c6009f3f3a37b3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:01 +0000
Subject: [PATCH 85/88] fix: 1D EM sensitivities to the conductivity of
 chargeable layers

---
 simpeg/electromagnetics/base_1d.py             | 18 +++++++-----------
 .../frequency_domain/simulation_1d.py          |  4 ++++
 .../time_domain/simulation_1d.py               |  4 ++++
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index cc191e3..a59455b 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -274,15 +274,18 @@ class BaseEM1DSimulation(BaseSimulation):
 
             \sigma_0 = ( 1 - \eta ) \sigma_{\infty}
         """
-        n_layer = self.n_layer
         n_frequency = len(frequencies)
         # n_filter = self.n_filter
 
         sigma = np.tile(self.sigma.reshape([-1, 1]), (1, n_frequency))
 
+        return sigma * self._compute_cole_cole(frequencies)
+
+    def _compute_cole_cole(self, frequencies):
+        """Ratio of the complex conductivity to the one at infinite frequency."""
         # No IP effect
         if np.all(self.eta == 0.0):
-            return sigma
+            return 1.0
 
         # IP effect
         else:
@@ -291,16 +294,9 @@ class BaseEM1DSimulation(BaseSimulation):
             tau = np.reshape(self.tau, (-1, 1))
             c = np.reshape(self.c, (-1, 1))
 
-            w = np.tile(2 * np.pi * frequencies, (n_layer, 1))
-
-            sigma_complex = np.empty(
-                [n_layer, n_frequency], dtype=np.complex128, order="F"
-            )
-            sigma_complex[:, :] = sigma - sigma * eta / (
-                1 + (1 - eta) * (1j * w * tau) ** c
-            )
+            w = np.tile(2 * np.pi * frequencies, (self.n_layer, 1))
 
-            return sigma_complex
+            return 1 - eta / (1 + (1 - eta) * (1j * w * tau) ** c)
 
     def compute_complex_mu(self, frequencies):
         r"""
diff --git a/simpeg/electromagnetics/frequency_domain/simulation_1d.py b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
index 36b150b..bd78008 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
@@ -194,6 +194,10 @@ class Simulation1DLayered(BaseEM1DSimulation):
                     frequencies, unique_lambs, sig, mu, self.thicknesses
                 )
                 if self.sigmaMap is not None:
+                    # the derivative is with respect to the complex conductivity
+                    cole_cole = self._compute_cole_cole(frequencies)
+                    if not np.isscalar(cole_cole):
+                        rTE_ds = rTE_ds * cole_cole[..., None]
                     rTE_ds = rTE_ds[:, i_freq]
                     rTE_ds = np.take_along_axis(rTE_ds, inv_lambs[None, ...], axis=-1)
                     v_ds = (
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index eacabe5..10e46a8 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -315,6 +315,10 @@ class Simulation1DLayered(BaseEM1DSimulation):
                     frequencies, unique_lambs, sig, mu, self.thicknesses
                 )
                 if self.sigmaMap is not None:
+                    # the derivative is with respect to the complex conductivity
+                    cole_cole = self._compute_cole_cole(frequencies)
+                    if not np.isscalar(cole_cole):
+                        rTE_ds = rTE_ds * cole_cole[..., None]
                     rTE_ds = rTE_ds[..., inv_lambs]
                     v_ds = (
                         (
-- 
2.43.0


From c9dd6ef7f35dd5c197e1be9b8fea8e201a297724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:01 +0000
Subject: [PATCH 86/88] fix: 1D EM simulations use the coefficients of their
 current survey

---
 simpeg/electromagnetics/base_1d.py                        | 2 ++
 simpeg/electromagnetics/frequency_domain/simulation_1d.py | 2 ++
 simpeg/electromagnetics/time_domain/simulation_1d.py      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/simpeg/electromagnetics/base_1d.py b/simpeg/electromagnetics/base_1d.py
index a59455b..45cd067 100644
--- a/simpeg/electromagnetics/base_1d.py
+++ b/simpeg/electromagnetics/base_1d.py
@@ -201,6 +201,7 @@ class BaseEM1DSimulation(BaseSimulation):
     @topo.setter
     def topo(self, value):
         self._topo = validate_ndarray_with_shape("topo", value, shape=("*",))
+        self._coefficients_set = False
 
     @property
     def n_layer(self):
@@ -232,6 +233,7 @@ class BaseEM1DSimulation(BaseSimulation):
     @n_points_per_path.setter
     def n_points_per_path(self, val):
         self._n_points_per_path = validate_integer("n_points_per_path", val, min_val=1)
+        self._coefficients_set = False
 
     def compute_complex_sigma(self, frequencies):
         r"""
diff --git a/simpeg/electromagnetics/frequency_domain/simulation_1d.py b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
index bd78008..6ce8dec 100644
--- a/simpeg/electromagnetics/frequency_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/frequency_domain/simulation_1d.py
@@ -39,6 +39,8 @@ class Simulation1DLayered(BaseEM1DSimulation):
         if value is not None:
             value = validate_type("survey", value, Survey, cast=False)
         self._survey = value
+        self._coefficients_set = False
+        self._J = None
 
     def get_coefficients(self):
         if self._coefficients_set is False:
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index 10e46a8..23ff963 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -55,6 +55,8 @@ class Simulation1DLayered(BaseEM1DSimulation):
         if value is not None:
             value = validate_type("survey", value, Survey, cast=False)
         self._survey = value
+        self._coefficients_set = False
+        self._J = None
 
     @property
     def time_filter(self):
-- 
2.43.0


From 1e9eb1eb95a39ae6f11aed430c0d22d9d5fe29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:01 +0000
Subject: [PATCH 87/88] fix: 1D simulations accept a narrow range of times or
 offsets

---
 simpeg/electromagnetics/static/resistivity/simulation_1d.py | 2 +-
 simpeg/electromagnetics/time_domain/simulation_1d.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/static/resistivity/simulation_1d.py b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
index 7f3192f..ec5fa29 100644
--- a/simpeg/electromagnetics/static/resistivity/simulation_1d.py
+++ b/simpeg/electromagnetics/static/resistivity/simulation_1d.py
@@ -255,7 +255,7 @@ class Simulation1DLayers(BaseSimulation):
         for i in range(n_r):
             e = np.zeros(n_r)
             e[i] = 1.0
-            sp = iuSpline(np.log(r_spline_points[::-1]), e, k=5)
+            sp = iuSpline(np.log(r_spline_points[::-1]), e, k=min(5, n_r - 1))
             splines.append(sp)
         # As will go from wavenumber to space domain
         As = []
diff --git a/simpeg/electromagnetics/time_domain/simulation_1d.py b/simpeg/electromagnetics/time_domain/simulation_1d.py
index 23ff963..6ef0cca 100644
--- a/simpeg/electromagnetics/time_domain/simulation_1d.py
+++ b/simpeg/electromagnetics/time_domain/simulation_1d.py
@@ -151,7 +151,7 @@ class Simulation1DLayered(BaseEM1DSimulation):
         for i in range(n_t):
             e = np.zeros(n_t)
             e[i] = 1.0
-            sp = iuSpline(np.log(t_spline_points[::-1]), e, k=5)
+            sp = iuSpline(np.log(t_spline_points[::-1]), e, k=min(5, n_t - 1))
             splines.append(sp)
         # As will go from frequency to time domain
         As = []
-- 
2.43.0


From 2164263089a3f83995555fe61ae4857216af8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:01 +0000
Subject: [PATCH 88/88] fix: the primary field of circular loops over a 1D
 earth is that of the loop

---
 .../electromagnetics/frequency_domain/sources.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/simpeg/electromagnetics/frequency_domain/sources.py b/simpeg/electromagnetics/frequency_domain/sources.py
index 0fa314c..1f7b8e8 100644
--- a/simpeg/electromagnetics/frequency_domain/sources.py
+++ b/simpeg/electromagnetics/frequency_domain/sources.py
@@ -477,6 +477,10 @@ class MagDipole(BaseFDEMSrc):
             )
         return self.__dipole
 
+    def _free_space_field(self, locations):
+        """Magnetic field of the source in free space."""
+        return self._dipole.magnetic_field(locations)
+
     def _srcFct(self, obsLoc, coordinates="cartesian"):
         out = self._dipole.vector_potential(obsLoc, coordinates=coordinates)
         out[np.isnan(out)] = 0
@@ -542,14 +546,13 @@ class MagDipole(BaseFDEMSrc):
         """
         if simulation._formulation == "1D":
             if getattr(self, "_1d_h", None) is None:
-                dipole = self._dipole
                 out = []
                 for rx in self.receiver_list:
                     if rx.use_source_receiver_offset:
                         locs = rx.locations + self.location
                     else:
                         locs = rx.locations
-                    h_rx = dipole.magnetic_field(locs)
+                    h_rx = self._free_space_field(locs)
                     out.append(h_rx @ rx.orientation)
                 self._1d_h = out
             return self._1d_h
@@ -888,6 +891,15 @@ class CircularLoop(MagDipole):
     def n_turns(self, value):
         self._n_turns = validate_integer("n_turns", value, min_val=1)
 
+    def _free_space_field(self, locations):
+        loop = CircularLoopWholeSpace(
+            location=self.location,
+            orientation=self.orientation,
+            radius=self.radius,
+            current=self.current,
+        )
+        return self.n_turns * loop.magnetic_field(locations)
+
     def _srcFct(self, obsLoc, coordinates="cartesian"):
         if getattr(self, "_loop", None) is None:
             self._loop = CircularLoopWholeSpace(
-- 
2.43.0

