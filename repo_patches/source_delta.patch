From 9513230a762017eebe786e8cc5d29efc7d5e93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 01/54] fix: label hemispheric static stability in QGDataset
 with the right hemisphere

---
 src/falwa/xarrayinterface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 55d6442..06c4347 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -487,9 +487,10 @@ class QGDataset:
             return self.metadata.as_dataarray(stability, "static_stability")
         elif stability.ndim == 3 and stability.shape[-2] == 2:
             # Two vertical profiles of static stability per field: hemispheric
+            # QGFieldNHN22.static_stability is ordered (south, north)
             return (
-                self.metadata.as_dataarray(stability[:,0,:], "static_stability_n"),
-                self.metadata.as_dataarray(stability[:,1,:], "static_stability_s")
+                self.metadata.as_dataarray(stability[:,1,:], "static_stability_n"),
+                self.metadata.as_dataarray(stability[:,0,:], "static_stability_s")
             )
         else:
             raise ValueError(f"cannot process shape of returned static stability field: {stability.shape}")
-- 
2.43.0


From 75e63e3d49e522c59d4c1b39b7808bf04c40986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 02/54] fix: use the hemisphere's own mean theta for the NHN22
 reference temperature

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 82aadbb..b925b6e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1875,7 +1875,7 @@ class QGFieldNHN22(QGFieldBase):
             sjk=sjk,
             tjk=tjk,
             ckref=ckref,
-            tb=self._domain_average_storage.tn0,
+            tb=t0,
             qref_over_cor=qref_over_sin,
             a=self.planet_radius,
             om=self.omega,
-- 
2.43.0


From 316f720efa425ab814573438e62185979c470a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 03/54] fix: negate absolute vorticity when mirroring the
 southern hemisphere in NHN22

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b925b6e..93b4adf 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1800,7 +1800,7 @@ class QGFieldNHN22(QGFieldBase):
                 self._compute_reference_states_nhn22_hemispheric_wrapper(
                     qgpv=-self._interpolated_field_storage.qgpv[:, ::-1, :],
                     u=self._interpolated_field_storage.interpolated_u[:, ::-1, :],
-                    avort=self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
+                    avort=-self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
                     theta=self._interpolated_field_storage.interpolated_theta[:, ::-1, :],
                     t0=self._domain_average_storage.ts0,
                     static_stability=self._domain_average_storage.static_stability_s)
-- 
2.43.0


From b925d88bee008b39571aa28cce914685a66772cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 04/54] fix: keep the equatorward boundary value in the NHN22
 reference wind

---
 src/falwa/f90_modules/upward_sweep.f90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index e4e4c7d..b8dd2ce 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -40,6 +40,11 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
     enddo
   enddo
 
+  ! *** Equatorward boundary condition (same as in matrix_b4_inversion) ***
+  do k = 2,kmax-1
+    u(1,k) = ckref(1+jb,k)/(2.*pi*a)-om*a*cos(dp*float(jb))
+  enddo
+
   ! *** Corner boundary conditions ***
   u(1,1) = 0.
   u(jd,1) = 0.
-- 
2.43.0


From 586a17becd004bccccf5994514c7bdb5429d06f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 05/54] fix: write boundary momentum fluxes to the boundary
 row, not out of bounds

---
 src/falwa/f90_modules/compute_flux_dirinv.f90 | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index 519c4db..138f87d 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -149,7 +149,10 @@ SUBROUTINE compute_flux_dirinv_nshem( &
         ! meridional eddy momentum flux one grid north and south
         if (is_nhem) then
           ep2(i,j,k) = (uu(i,j+nd,k)-uref(j-jb+1,k))*cosp*cosp * vv(i,j+nd,k)
-          ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          ! no reference wind equatorward of the boundary row; that row is filled in below
+          if (j.gt.jstart) then
+            ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          endif
         else
           ! TODO: double check.
           ep2(i,j,k) = (uu(i,j+1,k)-uref(j+1,k))*cosp*cosp * vv(i,j+1,k)
@@ -170,12 +173,13 @@ SUBROUTINE compute_flux_dirinv_nshem( &
           ep4(i,j) = ep41*(ep42+ep43)   ! low-level heat flux
         endif
       enddo
-      phip = dp*jb
-      phi0 = dp*(jb-1)
+      ! one-sided meridional eddy momentum flux at the equatorward boundary row
+      phip = dp*(jb+1)
+      phi0 = dp*jb
       cosp = cos(phip)          ! cosine for one grid north
       cos0 = cos(phi0)          ! cosine for latitude grid
-      ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
-      ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
+      ep2(i,jb+1,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
+      ep3(i,jb+1,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
     enddo
   enddo
 
-- 
2.43.0


From 5066b2fb955ad81c60f0891d0d7b9fe4d9acd870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 06/54] fix: layerwise fluxes without ncforce on grids that do
 not include the equator

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 93b4adf..b8e4b18 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1075,7 +1075,7 @@ class QGFieldBase(ABC):
 
         # *** The chunk below has duplication. TODO: think of ways to refactor ***
         if ncforce is None:
-            ncforce = np.zeros((self.nlon, self.nlat, self.kmax))  # fortran indexing
+            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
-- 
2.43.0


From 7098c79f0822d5683f0ee6f009538be2a62bd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 07/54] fix: average over the levels the normalisation covers
 in barotropic means

---
 src/falwa/oopinterface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b8e4b18..ef8df87 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -407,7 +407,7 @@ class QGFieldBase(ABC):
 
         # Build dynamic slicer for var_3d
         slicer = [slice(None)] * var_3d.ndim
-        slicer[height_axis] = slice(lowest_layer_index, None)
+        slicer[height_axis] = slice(lowest_layer_index, -1)  # same levels as in self.prefactor
 
         # Build dynamic shape for height broadcasting
         height_shape = [1] * var_3d.ndim
@@ -415,7 +415,7 @@ class QGFieldBase(ABC):
 
         var_baro = np.sum(
             var_3d[tuple(slicer)]
-            * np.exp(-self.height[lowest_layer_index:].reshape(height_shape) / self.scale_height) * dc,
+            * np.exp(-self.height[lowest_layer_index:-1].reshape(height_shape) / self.scale_height) * dc,
             axis=height_axis)
         return var_baro
 
@@ -459,7 +459,7 @@ class QGFieldBase(ABC):
         ncforce_baro = self._vertical_average(ncforce3d, lowest_layer_index=1)
 
         uref_baro = np.sum(
-            uref[-jd:, 1:] * np.exp(-self.height[np.newaxis, 1:] / self.scale_height) * self.dz / self.prefactor,axis=-1)
+            uref[-jd:, 1:-1] * np.exp(-self.height[np.newaxis, 1:-1] / self.scale_height) * self.dz / self.prefactor,axis=-1)
 
         return astar_baro, u_baro, uref_baro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4, \
             astar1, astar2, astar1_baro, astar2_baro, ncforce_baro
-- 
2.43.0


From 56542e523bbfbc5290c65c4d40642cddb48615fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 08/54] fix: zonal derivative in absolute vorticity uses the
 longitude spacing

---
 src/falwa/f90_modules/compute_qgpv.f90            | 9 +++++----
 src/falwa/f90_modules/compute_qgpv_direct_inv.f90 | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qgpv.f90 b/src/falwa/f90_modules/compute_qgpv.f90
index 1cbebfb..f7df8ef 100644
--- a/src/falwa/f90_modules/compute_qgpv.f90
+++ b/src/falwa/f90_modules/compute_qgpv.f90
@@ -16,12 +16,13 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
     REAL ::  st(nlon,nlat),zmst(nlat)
     REAL ::  zmav(nlat,kmax)
     REAL ::  zmpv(nlat,kmax)
-    REAL :: rkappa, pi, dphi
+    REAL :: rkappa, pi, dphi, dlam
 
 
     rkappa = rr/cp
     pi = acos(-1.)
     dphi = pi/float(nlat-1)
+    dlam = 2.*pi/float(nlon)
 
     !  **** compute zonal mean ****
     tz = 0.
@@ -67,17 +68,17 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
 
             do i = 2,nlon-1
                 av1 = 2.*omega*sin(phi0)
-                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dlam)
                 av3 = -(ut(i,j+1,kk)*cos(phip)-ut(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
                 avort(i,j,kk) = av1+av2+av3
             enddo
 
             av1 = 2.*omega*sin(phi0)
-            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dlam)
             av3 = -(ut(1,j+1,kk)*cos(phip)-ut(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
             avort(1,j,kk) = av1+av2+av3
             av4 = 2.*omega*sin(phi0)
-            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlam)
             av6 =   & 
             -(ut(nlon,j+1,kk)*cos(phip)-ut(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
             avort(nlon,j,kk) = av4+av5+av6
diff --git a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90 b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
index e53da8c..3157c8a 100644
--- a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
+++ b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
@@ -19,6 +19,7 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
    rkappa = rr/cp
    pi = acos(-1.)
    dphi = pi/float(nlat-1)
+   dlam = 2.*pi/float(nlon)
 
   write(6,*) 'nlon, nlat, kmax, jd'
   write(6,*) nlon, nlat, kmax, jd
@@ -33,17 +34,17 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
 
       do i = 2,nlon-1
         av1 = 2.*omega*sin(phi0)
-        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dlam)
         av3 = -(uq(i,j+1,kk)*cos(phip)-uq(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
         avort(i,j,kk) = av1+av2+av3
       enddo
 
       av1 = 2.*omega*sin(phi0)
-      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dlam)
       av3 = -(uq(1,j+1,kk)*cos(phip)-uq(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(1,j,kk) = av1+av2+av3
       av4 = 2.*omega*sin(phi0)
-      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlam)
       av6 =   &
       -(uq(nlon,j+1,kk)*cos(phip)-uq(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(nlon,j,kk) = av4+av5+av6
-- 
2.43.0


From 8945898907a086c79f7bc0f3f3884fde163b4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 09/54] fix: store the southern LWA components computed by
 compute_lwa_only

---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index ef8df87..d6b4d1f 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -686,8 +686,8 @@ class QGFieldBase(ABC):
                     cp=self.cp,
                     prefac=self.prefactor)
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
-            self._layerwise_flux_terms_storage.astar1_baro_shem = np.abs(astar1)
-            self._layerwise_flux_terms_storage.astar2_baro_shem = np.abs(astar2)
+            self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
+            self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
-- 
2.43.0


From 70a72e2c879263e52c89fb509f3e3207482070c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 10/54] fix: barotropic wind from compute_lwa_only covers every
 latitude

---
 src/falwa/f90_modules/compute_lwa_only_nhn22.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/f90_modules/compute_lwa_only_nhn22.f90 b/src/falwa/f90_modules/compute_lwa_only_nhn22.f90
index cb13c44..bc6f172 100644
--- a/src/falwa/f90_modules/compute_lwa_only_nhn22.f90
+++ b/src/falwa/f90_modules/compute_lwa_only_nhn22.f90
@@ -94,11 +94,11 @@ SUBROUTINE compute_lwa_only_nhn22(pv,uu,qref, &
     + astar2(:,:,k))*exp(-zk/h)*dc
 
     if (is_nhem) then
-      do j = jstart,jend
+      do j = 1,nd
         ubaro(:,j) = ubaro(:,j)+uu(:,nd-1+j,k)*exp(-zk/h)*dc
       enddo
     else
-      do j = jstart,jend
+      do j = 1,nd
         ubaro(:,j) = ubaro(:,j)+uu(:,j,k)*exp(-zk/h)*dc
       enddo
     endif
-- 
2.43.0


From 7cf75d76611b03f6f458a9cad7544afee3b24735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 11/54] fix: refuse LWA and layerwise fluxes before reference
 states are available

---
 src/falwa/oopinterface.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index d6b4d1f..7e1e76d 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -640,6 +640,10 @@ class QGFieldBase(ABC):
         >>> lwa = QGField.lwa       # 3-D LWA
         """
 
+        # Qref is available even if Uref did not converge
+        if not (self._reference_states_computed or self._nonconvergent_uref):
+            raise ValueError("Reference states have not been computed yet.")
+
         ylat_input = self._ylat[-self.equator_idx:] if self.northern_hemisphere_results_only else self._ylat
         qref_correct_unit = self._reference_states_storage.qref_correct_unit(
             ylat=ylat_input, omega=self.omega, python_indexing=False)
@@ -1068,6 +1072,13 @@ class QGFieldBase(ABC):
         ----------
         ncforce : np.ndarray of dimension (kmax, nlat, nlon) which is output from self.compute_ncforce_from_heating_rate
         """
+        # Check if previous steps have been done.
+        if self._nonconvergent_uref:
+            raise ValueError("Uref was not properly solved. This method cannot be called.")
+
+        if not self._reference_states_computed:
+            raise ValueError("Reference states have not been computed yet.")
+
         # Turn qref back to correct unit
         ylat_input, qref_correct_unit = self._prepare_coordinates_and_ref_states(
             self._ylat, self._interpolated_field_storage, self._reference_states_storage,
-- 
2.43.0


From 4206f8fcc76ae3df99e9e8b10d552f15fb95e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 12/54] fix: forget an earlier non-convergence when reference
 states are recomputed

---
 src/falwa/oopinterface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 7e1e76d..10a9d35 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -600,6 +600,10 @@ class QGFieldBase(ABC):
         if self.qgpv is None:
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
+        # Forget the outcome of any previous call
+        self._nonconvergent_uref = False
+        self._reference_states_computed = False
+
         self._compute_reference_states()
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
-- 
2.43.0


From 1ccef637de692584dfad387398df96fa29f27159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 13/54] fix: barotropic_input_qref_to_compute_lwa returns the
 LWA array as documented

---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b0d669a..a37cfb7 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -82,7 +82,7 @@ def barotropic_input_qref_to_compute_lwa(ylat, qref, vort, area, dmu, planet_rad
     """
     nlat = vort.shape[0]
     nlon = vort.shape[1]
-    lwa_result = basis.lwa(nlon, nlat, vort, qref, dmu)
+    lwa_result, _ = basis.lwa(nlon, nlat, vort, qref, dmu)
     return lwa_result
 
 
-- 
2.43.0


From 7308dae5e3b8464f0f18f83f6d278be32069b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 14/54] fix: northern sign and the vgrad option of the
 hemispheric wrappers

---
 src/falwa/wrapper.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index a37cfb7..6216974 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -130,7 +130,7 @@ def eqvlat_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, planet_radi
     vort2 = -vort[::-1, :]
     qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     return qref
 
@@ -177,23 +177,26 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
         n_points = nlat_s
 
     # --- Southern Hemisphere ---
-    qref1, brac1 = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
-                                area[:nlat_s, :],
-                                n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+    qref1, brac1 = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
+                                 area[:nlat_s, :],
+                                 n_points, planet_radius=planet_radius,
+                                 vgrad=None if vgrad is None else vgrad[:nlat_s, :])
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
     vort2 = -vort[::-1, :]
-    qref2, brac2 = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
-                                area[:nlat_s, :],
-                                n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+    qref2, brac2 = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
+                                 area[:nlat_s, :],
+                                 n_points, planet_radius=planet_radius,
+                                 vgrad=None if vgrad is None else -vgrad[::-1, :][:nlat_s, :])
 
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
+
+    if vgrad is None:
+        return qref, None
 
     brac[:nlat_s] = brac1
-    brac[-nlat_s:] = brac2[::-1]
+    brac[-nlat_s:] = -brac2[::-1]
 
     return qref, brac
 
@@ -406,7 +409,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius)
     else:
-        qref1, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+        qref1, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad[:nlat_s, :])
@@ -435,7 +438,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    n_points, planet_radius=planet_radius)
     else:
         vgrad2 = -vgrad[::-1, :]  # Is this correct?
-        qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+        qref2, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad2[:nlat_s, :])
-- 
2.43.0


From 83fb9fb834f18526b993158e0e042a4ea9292c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 15/54] fix: horizontal operators at the poles and on the edge
 rows

---
 src/falwa/utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 6724dd4..9ec3e03 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -229,6 +229,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     zonal_diff[finite_clat, :] = zonal_diff[finite_clat, :] * \
                                  (-1./(planet_radius * clat[finite_clat, np.newaxis] * 2. * dlambda))
+    zonal_diff[~finite_clat, :] = 0.
 
     return zonal_diff
 
@@ -268,14 +269,16 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff = np.zeros_like(field)
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
-    meridional_diff[0, :] = field[1, :] * clat[1] - field[0, :] * clat[0]
-    meridional_diff[-1, :] = field[-1, :] * clat[-1] - field[-2, :] * clat[-2]
+    # One-sided differences on the edges span dphi only (the division below is by 2 * dphi)
+    meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
+    meridional_diff[-1, :] = 2. * (field[-1, :] * clat[-1] - field[-2, :] * clat[-2])
 
     # This is to avoid divided by zero
     finite_clat = np.abs(clat) > tol
 
     meridional_diff[finite_clat, :] = \
         meridional_diff[finite_clat, :] / (planet_radius * clat[finite_clat, np.newaxis] * 2. * dphi)
+    meridional_diff[~finite_clat, :] = 0.
 
     return meridional_diff
 
-- 
2.43.0


From 923d387b0f71aff5c0fbd25061daab1ae3845dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 16/54] fix: pseudoheight passed to the NHN22 inversion always
 has kmax levels

np.arange(0, kmax*dz, dz) returns kmax+1 elements for some spacings because of
rounding, which makes the Fortran wrapper reject the call.
---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 10a9d35..8977aaa 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1857,7 +1857,7 @@ class QGFieldNHN22(QGFieldBase):
                 jmax=self._nlat_analysis,
                 jb=self.eq_boundary_index,  # 5
                 jd=self.jd,
-                z=np.arange(0, self.kmax * self.dz, self.dz),
+                z=np.arange(self.kmax) * self.dz,
                 statn=static_stability,
                 qref=qref_over_sin,
                 ckref=ckref,
-- 
2.43.0


From 8d99262d4d84d920ad8fe022913dfa7f68c58fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 17/54] fix: planetary circulation in the NHN22 equatorward
 boundary condition

Eq. (13) of notes/Direct_solver_for_NHN22.pdf: u cos(phi) = (K - 2 pi Omega a^2 cos^2 phi)/(2 pi a).
---
 src/falwa/f90_modules/matrix_b4_inversion.f90 | 2 +-
 src/falwa/f90_modules/upward_sweep.f90        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/f90_modules/matrix_b4_inversion.f90 b/src/falwa/f90_modules/matrix_b4_inversion.f90
index 3631ba6..cb45e67 100644
--- a/src/falwa/f90_modules/matrix_b4_inversion.f90
+++ b/src/falwa/f90_modules/matrix_b4_inversion.f90
@@ -54,7 +54,7 @@ SUBROUTINE matrix_b4_inversion(k,jmax,kmax,nd,jb,jd,z,statn,qref,ckref,sjk,&
     u(jd,k) = 0.
     phi0 = dp*float(jb)
     !        u(1,k) = ubar(jb+1,k)*cos(phi0)
-    u(1,k) = ckref(jb+1,k)/(2.*pi*a)-om*a*cos(phi0)
+    u(1,k) = ckref(jb+1,k)/(2.*pi*a)-om*a*cos(phi0)**2
 
     rj(j-1) = fjk
     if(j.eq.2) rj(j-1) = fjk - bjk*u(1,k)
diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index b8dd2ce..73f215c 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -42,7 +42,7 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
 
   ! *** Equatorward boundary condition (same as in matrix_b4_inversion) ***
   do k = 2,kmax-1
-    u(1,k) = ckref(1+jb,k)/(2.*pi*a)-om*a*cos(dp*float(jb))
+    u(1,k) = ckref(1+jb,k)/(2.*pi*a)-om*a*cos(dp*float(jb))**2
   enddo
 
   ! *** Corner boundary conditions ***
-- 
2.43.0


From 50ab8481f37941b396dd5b8988e60ca376a3c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 18/54] fix: latitude of the temperature gradient in the NHN22
 top boundary condition

tbar counts rows from the equator while j counts from the boundary latitude, see
Eqs. (12) and (25) of notes/Direct_solver_for_NHN22.pdf.
---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 41de5f2..5c5e236 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -169,7 +169,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
     cos0 = cos(phi0)
     sin0 = sin(phi0)
     tjk(j-1,kmax-1) = -dz*rr*cos0*exp(-z(kmax-1)*rkappa/h)
-    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(j+1,kmax)-tbar(j-1,kmax))
+    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(jj+1,kmax)-tbar(jj-1,kmax))
     tjk(j-1,kmax-1) = tjk(j-1,kmax-1)/(4.*omega*sin0*dphi*h*a)
     sjk(j-1,j-1,kmax-1) = 1.
   enddo
-- 
2.43.0


From bc8cc1463ddd9cad288645f59b1fdebb1d014046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 19/54] fix: top corner of the NHN22 reference wind

The circulation is not evaluated on the top level, which left -Omega a cos(phi)
(some -460 m/s) there.  Use t_1 = 0 in Eqs. (20) and (25) of
notes/Direct_solver_for_NHN22.pdf.
---
 src/falwa/f90_modules/upward_sweep.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index 73f215c..6adce07 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -49,7 +49,7 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
   u(1,1) = 0.
   u(jd,1) = 0.
   !        u(1,kmax) = ubar(1+jb,kmax)*cos(dp*float(jb))
-  u(1,kmax) = ckref(1+jb,kmax)/(2.*pi*a)-om*a*cos(dp*float(jb))
+  u(1,kmax) = u(1,kmax-1)
   u(jd,kmax) = 0.
 
   ! *** Divide by cos phi to recover Uref ****
-- 
2.43.0


From 28ee4de8a2a07a35eb51b8ab1b29b92cb70b4e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 20/54] fix: global interpolated fields of hemispheric results
 on grids without the equator

With northern_hemisphere_results_only=True and latitude interpolation,
qgpv and the interpolated winds/temperature are still global, but were mapped
back with the hemispheric latitudes, so reading them (and therefore
compute_reference_states) raised ValueError.
---
 src/falwa/oopinterface.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 8977aaa..6df5608 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -373,7 +373,7 @@ class QGFieldBase(ABC):
                 fill_value='extrapolate'
             )(interp_to)
 
-    def _return_interp_variables(self, variable, interp_axis):
+    def _return_interp_variables(self, variable, interp_axis, northern_hemisphere_results_only=None):
         """
         Private function to return interpolated variables from odd grid back to even grid if originally
         the data was given on an odd grid.
@@ -384,15 +384,17 @@ class QGFieldBase(ABC):
 
             interp_axis(int): the index of axis for interpolation
 
-            northern_hemisphere_results_only(bool): whether only to return northern hemispheric results.
-                Will be deprecated in upcoming release.
+            northern_hemisphere_results_only(bool): whether the variable covers the northern hemisphere only.
+                Default: self.northern_hemisphere_results_only.
 
         Returns
         -------
             The interpolated variable(numpy.ndarray)
         """
+        if northern_hemisphere_results_only is None:
+            northern_hemisphere_results_only = self.northern_hemisphere_results_only
         if self.need_latitude_interpolation:
-            if self.northern_hemisphere_results_only:
+            if northern_hemisphere_results_only:
                 return self._interp_back(
                     variable, self._ylat[-(self._nlat_analysis // 2 + 1):],
                     self._input_ylat[-(self.nlat // 2):],
@@ -1241,7 +1243,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.qgpv is None:
             raise ValueError('QGPV field is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.qgpv), interp_axis=1)
+            self._interpolated_field_storage.qgpv), interp_axis=1, northern_hemisphere_results_only=False)
 
     @property
     def interpolated_u(self):
@@ -1251,7 +1253,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_u is None:
             raise ValueError('interpolated_u is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_u), interp_axis=1)
+            self._interpolated_field_storage.interpolated_u), interp_axis=1, northern_hemisphere_results_only=False)
 
     @property
     def interpolated_v(self):
@@ -1261,7 +1263,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_v is None:
             raise ValueError('interpolated_v is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_v), interp_axis=1)
+            self._interpolated_field_storage.interpolated_v), interp_axis=1, northern_hemisphere_results_only=False)
 
     @property
     def interpolated_theta(self):
@@ -1271,7 +1273,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_theta is None:
             raise ValueError('interpolated_theta is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_theta), interp_axis=1)
+            self._interpolated_field_storage.interpolated_theta), interp_axis=1, northern_hemisphere_results_only=False)
 
     @property
     @abstractmethod
-- 
2.43.0


From 6a7a76d8881b8c881caa287063b5594cfed463f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 21/54] fix: integration_seconds for any resolution of the time
 coordinate

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 06c4347..4636bb1 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -732,7 +732,7 @@ def integrate_budget(ds, var_names=None):
     attrs = dict(ds.attrs)
     attrs["integration_start"] = str(start)
     attrs["integration_stop"] = str(stop)
-    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1000000000)
+    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1, "s")
     return xr.Dataset(data_vars, ds.coords, attrs)
 
 
-- 
2.43.0


From 06ce28085adde0c3e4dc1c9ce3fd8bf66efc9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 22/54] fix: ncforce in QGDataset is global even for
 hemispheric results

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 4636bb1..162eb55 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -229,7 +229,7 @@ _MetadataServiceProvider.register_var("flux_vector_lambda_baro", ("ylat", "xlon"
 _MetadataServiceProvider.register_var("flux_vector_phi_baro", ("ylat", "xlon"), dim_names=("ylat_ref_states", "xlon"))
 # 3-dimensional LWA (full x-y-z fields)
 _MetadataServiceProvider.register_var("lwa", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
+_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"))
 _MetadataServiceProvider.register_var("ua1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ua2", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ep1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-- 
2.43.0


From ac2d5ce4c21f0e978a01c3b7332aa0c3e98886b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 23/54] fix: reorder heating rates like the other input fields
 of QGDataset

---
 src/falwa/xarrayinterface.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 162eb55..f826265 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -394,6 +394,8 @@ class QGDataset:
         if not _is_descending(plev):
             plev = np.flip(plev)
             flip.append(-3)
+        # Other input on pressure levels has to be reordered in the same way
+        self._plev_name, self._ylat_name = da_plev.name, da_ylat.name
         # Ordering of xlon doesn't matter here
         xlon = da_xlon.values
         # Create a QGField object for each combination of timestep, ensemble
@@ -656,6 +658,12 @@ class QGDataset:
         """
         ncforce_input_list = []
 
+        # Match the order of levels and latitudes required by QGField
+        if self._plev_name in heating_rate.coords:
+            heating_rate = heating_rate.sortby(self._plev_name, ascending=False)
+        if self._ylat_name in heating_rate.coords:
+            heating_rate = heating_rate.sortby(self._ylat_name)
+
         for field, coord in zip(self._fields, self.metadata.iter_other()):
             output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate.sel(coord))
             ncforce_input_list.append(output)
-- 
2.43.0


From 34c55131d25c91592d82161882f3f69dcbb7d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 24/54] fix: non-conservative forcing on grids that do not
 include the equator

---
 src/falwa/oopinterface.py | 13 +++++++++++--
 src/falwa/utilities.py    |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 6df5608..7b6794a 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -910,7 +910,7 @@ class QGFieldBase(ABC):
             ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             print("line 751: ncforce has values")
-            ncforce = np.swapaxes(ncforce, 0, 2)  # Convert from python to fortran indexing
+            ncforce = np.swapaxes(self._ncforce_on_analysis_grid(ncforce), 0, 2)  # Convert from python to fortran indexing
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
 
         self._compute_intermediate_barotropic_flux_terms(ncforce=ncforce)
@@ -992,6 +992,15 @@ class QGFieldBase(ABC):
         return self._vertical_average(flux_vector_phi_baro_3d, lowest_layer_index=1, height_axis=-1).T
 
 
+    def _ncforce_on_analysis_grid(self, ncforce):
+        """
+        Private function to interpolate ncforce given on the latitudes input by user onto the analysis grid.
+        """
+        ncforce = np.asarray(ncforce)
+        if self.need_latitude_interpolation and ncforce.shape[1] == self.nlat:
+            return self._interp_back(ncforce, self._input_ylat, self._ylat, which_axis=1)
+        return ncforce
+
     def compute_ncforce_from_heating_rate(self, heating_rate):
         """
         Parameters
@@ -1094,7 +1103,7 @@ class QGFieldBase(ABC):
         if ncforce is None:
             ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
-            ncforce = np.swapaxes(ncforce, 0, 2)
+            ncforce = np.swapaxes(self._ncforce_on_analysis_grid(ncforce), 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
         # *** The chunk above has duplication. ***
 
diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 9ec3e03..9d980c7 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -332,7 +332,8 @@ def z_derivative_of_prod(
     # Make static_stability_temp (kmax, nlat) ndarray
     static_stability_temp = np.concatenate([
         np.ones((kmax, equator_idx - 1)) * stat_s[:, np.newaxis],
-        np.ones((kmax, 1)) * 0.5 * (stat_s+stat_n)[:, np.newaxis],
+        # no row on the equator if gfunc is on a grid that does not include it
+        np.ones((kmax, gfunc.shape[1] - 2 * (equator_idx - 1))) * 0.5 * (stat_s+stat_n)[:, np.newaxis],
         np.ones((kmax, equator_idx - 1)) * stat_n[:, np.newaxis]], axis=1)
 
     # the term to be differentiated in z is of dim (kmax, nlat, nlon)
-- 
2.43.0


From 5e71dd3c722309f84088c0d5efee65770db61267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 25/54] fix: uninitialised equator row in
 compute_qgpv_givenvort

---
 src/falwa/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 9d980c7..ddeeb96 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -158,8 +158,8 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.empty_like(potential_temp)
-    dzdiv = np.empty_like(potential_temp)
+    zdiv = np.zeros((kmax, nlat, nlon))  # rows in neither hemispheric domain carry no stretching
+    dzdiv = np.empty((kmax, nlat, nlon))
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
             potential_temp[kk, :nlat_s, :] - t0_cs[kk]
-- 
2.43.0


From f43a1deb7212a7a41ece4f192de09baca3188881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 26/54] fix: horizontal operators truncated their result for
 integer input

---
 src/falwa/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index ddeeb96..f9aea55 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -219,7 +219,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    zonal_diff = np.zeros_like(field)
+    zonal_diff = np.zeros_like(field, dtype=np.result_type(field, np.float32))
     zonal_diff[:, 1:-1] = field[:, 2:] - field[:, :-2]
     zonal_diff[:, 0] = field[:, 1] - field[:, -1]
     zonal_diff[:, -1] = field[:, 0] - field[:, -2]
@@ -267,7 +267,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    meridional_diff = np.zeros_like(field)
+    meridional_diff = np.zeros_like(field, dtype=np.result_type(field, np.float32))
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
     # One-sided differences on the edges span dphi only (the division below is by 2 * dphi)
     meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
@@ -289,7 +289,7 @@ def curl_2d(ufield, vfield, clat, dlambda, dphi, planet_radius=6.378e+6):
     of velocity on a pressure level in spherical coordinates.
     """
 
-    ans = np.zeros_like(ufield)
+    ans = np.zeros_like(ufield, dtype=np.result_type(ufield, vfield, np.float32))
     ans[1:-1, 1:-1] = (vfield[1:-1, 2:] - vfield[1:-1, :-2])/(2.*dlambda) - \
                       (ufield[2:, 1:-1] * clat[2:, np.newaxis] -
                        ufield[:-2, 1:-1] * clat[:-2, np.newaxis])/(2.*dphi)
-- 
2.43.0


From 116bec1ddf8b1f71cd919bcdcb24254ce21b6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 27/54] fix: named tuple of fluxes on the latitudes of the
 input like the attributes

---
 src/falwa/oopinterface.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 7b6794a..44ba760 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -960,15 +960,15 @@ class QGFieldBase(ABC):
                 ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
                  'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa'])
             lwa_and_fluxes = LWA_and_fluxes(
-                self._output_barotropic_flux_terms_storage.adv_flux_f1,
-                self._output_barotropic_flux_terms_storage.adv_flux_f2,
-                self._output_barotropic_flux_terms_storage.adv_flux_f3,
-                self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
-                self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
-                self._output_barotropic_flux_terms_storage.meridional_heat_flux,
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.lwa_baro),
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.u_baro),
-                self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa))
+                self.adv_flux_f1,
+                self.adv_flux_f2,
+                self.adv_flux_f3,
+                self.convergence_zonal_advective_flux,
+                self.divergence_eddy_momentum_flux,
+                self.meridional_heat_flux,
+                self.lwa_baro,
+                self.u_baro,
+                self.lwa)
             return lwa_and_fluxes
 
     def _compute_flux_vector_phi_baro(self):
-- 
2.43.0


From 304790213de2b6141f998ebbe2aeb0cb2da64654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 28/54] fix: refuse latitudes that are not ascending
 throughout, not only when the first two are reversed

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 44ba760..76cdc0a 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -319,7 +319,7 @@ class QGFieldBase(ABC):
                Array of evenly-spaced latitude (in degree) of size nlat.
         """
         # Check if ylat is in ascending order and include the equator
-        if np.diff(ylat)[0] < 0:
+        if not np.all(np.diff(ylat) > 0):
             raise TypeError("ylat must be in ascending order")
         # Save ylat input by user first
         _input_ylat = ylat
-- 
2.43.0


From 96f14d0375dd4ff115c1c6cf8af5a9dabb3024e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 29/54] fix: refuse pressure levels that are not descending
 throughout, also on evenly spaced pseudoheight grids

---
 src/falwa/oopinterface.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 76cdc0a..356b52f 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -107,6 +107,8 @@ class QGFieldBase(ABC):
 
         # === Variables related to the Vertical grid ===
         self._data_on_evenly_spaced_pseudoheight_grid = data_on_evenly_spaced_pseudoheight_grid
+        if not np.all(np.diff(plev) < 0):
+            raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
         if self._data_on_evenly_spaced_pseudoheight_grid:
             self.plev = plev
             self.kmax = plev.size
@@ -280,9 +282,7 @@ class QGFieldBase(ABC):
 
     def _check_valid_plev(self, plev, scale_height, kmax, dz):
         """
-        Private function. Check the validity of plev to see
-            1. if plev is in decending order
-            2. if kmax is valid given the max pseudoheight in the input data
+        Private function. Check if kmax is valid given the max pseudoheight in the input data
 
         Parameters
         ----------
@@ -295,9 +295,6 @@ class QGFieldBase(ABC):
         dz : float, optional
                Size of uniform pseudoheight grids (in meters).
         """
-        # Check if plev is in decending order
-        if np.diff(plev)[0] > 0:
-            raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
         self.plev = plev
         self._plev_to_height = -scale_height * np.log(plev / P_GROUND)
 
-- 
2.43.0


From 857afac83fccc4267488630824668c67168b2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 30/54] fix: comparison on a map ignored the colour map of the
 caller

---
 src/falwa/plot_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 4925810..c6af4da 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -62,15 +62,15 @@ def compare_two_fields_on_map(
     fig = plt.figure(figsize=figsize)
     ax1 = fig.add_subplot(1, 3, 1, projection=ccrs.PlateCarree(180))
     cs1 = map_on_axis(ax1, x_coord, y_coord, field_a, levels=np.linspace(cmin, cmax, 31), title=a_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax2 = fig.add_subplot(1, 3, 2, projection=ccrs.PlateCarree(180))
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
     cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b),
                       levels=np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31),
                       title=f'Abs difference',
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     plt.suptitle(title)
     plt.tight_layout()
     if savefig_fname:
@@ -78,7 +78,7 @@ def compare_two_fields_on_map(
     plt.show()
 
 
-def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)'):
+def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)', cmap='rainbow'):
     # ax_obj.set_extent([0, 360, ylat.min(), ylat.max()], ccrs.PlateCarree())
     ax_obj.coastlines(color='black', alpha=1)
     ax_obj.set_aspect('auto')
@@ -88,7 +88,7 @@ def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m
     lat_formatter = LatitudeFormatter()
     ax_obj.xaxis.set_major_formatter(lon_formatter)
     ax_obj.yaxis.set_major_formatter(lat_formatter)
-    ott = ax_obj.contourf(xlon, ylat, field, levels, transform=ccrs.PlateCarree(), cmap='rainbow')
+    ott = ax_obj.contourf(xlon, ylat, field, levels, transform=ccrs.PlateCarree(), cmap=cmap)
     ax_obj.set_title(title)
     plt.colorbar(ott, ax=ax_obj, label=colorbar_label)
     return ott
-- 
2.43.0


From 7ee41b719bbc14aefbebb14553ba5f420b4e70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 31/54] fix: comparison on a map failed without a scaling
 factor of the difference

---
 src/falwa/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index c6af4da..1fd0d4e 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -67,8 +67,9 @@ def compare_two_fields_on_map(
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
                       colorbar_label='', cmap=cmap)
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
+    diff_levels = np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31) if diff_factor else None
     cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b),
-                      levels=np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31),
+                      levels=diff_levels,
                       title=f'Abs difference',
                       colorbar_label='', cmap=cmap)
     plt.suptitle(title)
-- 
2.43.0


From 6dad807db6bbd34374d3c81b587221bfdf4f49c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 32/54] fix: snapshot of a netCDF field was drawn over the
 figure of an earlier plot

---
 src/falwa/plot_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 1fd0d4e..7298134 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -190,6 +190,7 @@ def plot_lon_lat_field(filepath, variable_name, latitude_name='latitude', longit
     print(f"Zonal mean of the field:\n{field.mean(axis=zonal_axis)}.")
 
     # plot
+    plt.figure()
     plt.contourf(
         file_handle.coords[longitude_name],
         file_handle.coords[latitude_name],
-- 
2.43.0


From 4166998db3332ddef94b40cbf3e74d8730c425a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 33/54] fix: linear extrapolation helper of the legacy solver
 relied on names and behaviour removed long ago

---
 src/falwa/legacy/beta_version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/legacy/beta_version.py b/src/falwa/legacy/beta_version.py
index 84fbced..5b61ab6 100644
--- a/src/falwa/legacy/beta_version.py
+++ b/src/falwa/legacy/beta_version.py
@@ -19,8 +19,8 @@ def extrap1d(interpolator):
             return interpolator(x)
 
     def ufunclike(xs):
-        from scipy import array
-        return array(map(pointwise, array(xs)))
+        from numpy import array
+        return array(list(map(pointwise, array(xs))))
 
     return ufunclike
 
-- 
2.43.0


From 8bf7a660d77d47f0ada1c8b988bf5f7d0fbac031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 34/54] fix: legacy solver truncated its results for integer
 zonal wind

---
 src/falwa/legacy/beta_version.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/falwa/legacy/beta_version.py b/src/falwa/legacy/beta_version.py
index 5b61ab6..d29c8d8 100644
--- a/src/falwa/legacy/beta_version.py
+++ b/src/falwa/legacy/beta_version.py
@@ -346,14 +346,14 @@ def solve_uref_both_bc(tstamp, zmum, FAWA_cos, ylat, ephalf2, Delta_PT,
     u_MassCorr_noslip[1:-1,:] = u[1:-1,:] * cor1 / cosl[:,np.newaxis]
 
     # --- Initialize T_MassCorr to be output ---
-    u_Ref_regular_adiab = np.zeros_like(zmum)
-    u_Ref_regular_noslip = np.zeros_like(zmum)
-    u_MassCorr_regular_adiab = np.zeros_like(zmum)
-    u_MassCorr_regular_noslip = np.zeros_like(zmum)
-    T_Ref_regular_adiab = np.zeros_like(zmum)
-    T_Ref_regular_noslip = np.zeros_like(zmum)
-    T_MassCorr_regular_adiab = np.zeros_like(zmum)
-    T_MassCorr_regular_noslip = np.zeros_like(zmum)
+    u_Ref_regular_adiab = np.zeros_like(zmum, dtype=float)
+    u_Ref_regular_noslip = np.zeros_like(zmum, dtype=float)
+    u_MassCorr_regular_adiab = np.zeros_like(zmum, dtype=float)
+    u_MassCorr_regular_noslip = np.zeros_like(zmum, dtype=float)
+    T_Ref_regular_adiab = np.zeros_like(zmum, dtype=float)
+    T_Ref_regular_noslip = np.zeros_like(zmum, dtype=float)
+    T_MassCorr_regular_adiab = np.zeros_like(zmum, dtype=float)
+    T_MassCorr_regular_noslip = np.zeros_like(zmum, dtype=float)
 
     for u_MassCorr,u_MassCorr_regular,u_Ref_regular,T_MassCorr_regular,T_Ref_regular,BCstring in \
     zip([u_MassCorr_adiab,u_MassCorr_noslip],\
-- 
2.43.0


From 8d10ece72544c99f8d59fbeba19fb037bd91f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 35/54] fix: hemispheric wrappers used the areas and latitudes
 of the southern hemisphere in the north

---
 src/falwa/wrapper.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 6216974..189f6e5 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -127,8 +127,10 @@ def eqvlat_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, planet_radi
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
+    ylat2 = -ylat[::-1]
+    area2 = area[::-1, :]
     vort2 = -vort[::-1, :]
-    qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
+    qref2, _ = basis.eqvlat_fawa(ylat2[:nlat_s], vort2[:nlat_s, :], area2[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = -qref2[::-1]
 
@@ -184,9 +186,11 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
+    ylat2 = -ylat[::-1]
+    area2 = area[::-1, :]
     vort2 = -vort[::-1, :]
-    qref2, brac2 = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
-                                 area[:nlat_s, :],
+    qref2, brac2 = basis.eqvlat_vgrad(ylat2[:nlat_s], vort2[:nlat_s, :],
+                                 area2[:nlat_s, :],
                                  n_points, planet_radius=planet_radius,
                                  vgrad=None if vgrad is None else -vgrad[::-1, :][:nlat_s, :])
 
@@ -258,10 +262,12 @@ def qgpv_eqlat_lwa(ylat, vort, area, dmu, nlat_s=None, n_points=None, planet_rad
                                           qref1, dmu[:nlat_s])
 
     # --- Northern Hemisphere ---
+    ylat2 = -ylat[::-1]
+    area2 = area[::-1, :]
     vort2 = -vort[::-1, :]
     # Added the minus sign, but gotta see if NL_North is affected
     qref2, _ = basis.eqvlat_fawa(
-        ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :], n_points, planet_radius=planet_radius)
+        ylat2[:nlat_s], vort2[:nlat_s, :], area2[:nlat_s, :], n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = -qref2[::-1]
     lwa_result[-nlat_s:, :], _ = basis.lwa(nlon, nlat_s,
                                            vort[-nlat_s:, :],
@@ -332,9 +338,11 @@ def qgpv_eqlat_lwa_ncforce(ylat, vort, ncforce, area, dmu, nlat_s=None, n_points
                                      ncforce=ncforce[:nlat_s, :])
 
     # --- Northern Hemisphere ---
+    ylat2 = -ylat[::-1]
+    area2 = area[::-1, :]
     vort2 = -vort[::-1, :]
     # Added the minus sign, but gotta see if NL_North is affected
-    qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
+    qref2, _ = basis.eqvlat_fawa(ylat2[:nlat_s], vort2[:nlat_s, :], area2[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = -qref2[::-1]
     lwa_result[-nlat_s:, :], \
@@ -429,17 +437,19 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                               qref1, dmu[:nlat_s])
 
     # --- Northern Hemisphere ---
+    ylat2 = -ylat[::-1]
+    area2 = area[::-1, :]
     vort2 = -vort[::-1, :]
     # Added the minus sign, but gotta see if NL_North is affected
 
     if vgrad is None:
-        qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
-                                   area[:nlat_s, :],
+        qref2, brac = basis.eqvlat_fawa(ylat2[:nlat_s], vort2[:nlat_s, :],
+                                   area2[:nlat_s, :],
                                    n_points, planet_radius=planet_radius)
     else:
         vgrad2 = -vgrad[::-1, :]  # Is this correct?
-        qref2, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
-                                   area[:nlat_s, :],
+        qref2, brac = basis.eqvlat_vgrad(ylat2[:nlat_s], vort2[:nlat_s, :],
+                                   area2[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad2[:nlat_s, :])
 
@@ -563,10 +573,12 @@ def theta_lwa(ylat, theta, area, dmu, nlat_s=None, n_points=None, planet_radius=
                                               qref[:nlat_s], dmu[:nlat_s])
 
     # --- northern Hemisphere ---
+    ylat2 = -ylat[::-1]
+    area2 = area[::-1, :]
     theta2 = theta[::-1, :]
     # Added the minus sign, but gotta see if NL_north is affected
-    qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], theta2[:nlat_s, :],
-                               area[:nlat_s, :],
+    qref2, brac = basis.eqvlat_fawa(ylat2[:nlat_s], theta2[:nlat_s, :],
+                               area2[:nlat_s, :],
                                n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = qref2[::-1]
     lwa_result[-nlat_s:, :], dummy = basis.lwa(nlon, nlat_s,
-- 
2.43.0


From 0accc8ae1fd8bb6d807a4841d29b3b8401c5decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 36/54] fix: surface wave activity of the northern hemisphere
 was evaluated against a reference in the wrong orientation

---
 src/falwa/wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 189f6e5..5bbbb38 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -581,9 +581,10 @@ def theta_lwa(ylat, theta, area, dmu, nlat_s=None, n_points=None, planet_radius=
                                area2[:nlat_s, :],
                                n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = qref2[::-1]
+    # basis.lwa expects a reference state that increases northward
     lwa_result[-nlat_s:, :], dummy = basis.lwa(nlon, nlat_s,
-                                               theta[-nlat_s:, :],
-                                               qref[-nlat_s:],
+                                               -theta[-nlat_s:, :],
+                                               -qref[-nlat_s:],
                                                dmu[-nlat_s:])
 
     return qref, lwa_result
-- 
2.43.0


From a70d3846e7ceda46aed8444a19e5f273d13ff82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 37/54] fix: contour means counted bins that hold no points,
 and the bin below the smallest value, as zeros

---
 src/falwa/basis.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/falwa/basis.py b/src/falwa/basis.py
index 36f1b53..be1756f 100644
--- a/src/falwa/basis.py
+++ b/src/falwa/basis.py
@@ -102,6 +102,7 @@ def eqvlat_vgrad(ylat, vort, area, n_points, planet_radius=6.378e+6, vgrad=None)
     area_flat = area.flatten()
 
     if vgrad is not None:
+        bin_area = np.zeros_like(aa)
         dp = np.zeros_like(aa)
         vgrad_flat = vgrad.flatten()
 
@@ -110,17 +111,20 @@ def eqvlat_vgrad(ylat, vort, area, n_points, planet_radius=6.378e+6, vgrad=None)
     for i in np.arange(0, aa.size):  # Sum up area in each bin
         aa[i] = np.sum(area_flat[np.where(inds == i)])
         if vgrad is not None:
+            members = np.where(np.minimum(inds, aa.size - 1) == i)  # the last bin includes the largest value
+            bin_area[i] = np.sum(area_flat[members])
             # This is to avoid the divided-by-zero error
-            if aa[i] == 0.:
+            if bin_area[i] == 0.:
                 continue
             else:
-                dp[i] = np.sum(area_flat[np.where(inds == i)] *
-                               vgrad_flat[np.where(inds == i)]) / aa[i]
+                dp[i] = np.sum(area_flat[members] * vgrad_flat[members]) / bin_area[i]
 
     aq = np.cumsum(aa)
     if vgrad is not None:
-        brac = np.zeros_like(aa)
-        brac[1:-1] = 0.5 * (dp[:-2] + dp[2:])
+        # Average of the bins on both sides of each contour (bin i lies below contour i), leaving out empty ones
+        filled = bin_area != 0.
+        n_filled = filled.astype(int) + np.append(filled[1:], False)
+        brac = (dp + np.append(dp[1:], 0.)) / np.maximum(n_filled, 1)
 
     y_part = aq / (2 * pi * planet_radius**2) - 1.0
     lat_part = np.rad2deg(np.arcsin(y_part))
-- 
2.43.0


From 55ec3f30119647a7f3be73284eb23ee36458a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 38/54] fix: finite-amplitude wave activity was offset for
 fields with a non-zero mean

---
 src/falwa/basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/falwa/basis.py b/src/falwa/basis.py
index be1756f..1eb2b47 100644
--- a/src/falwa/basis.py
+++ b/src/falwa/basis.py
@@ -58,7 +58,8 @@ def eqvlat_fawa(
         cbar = np.zeros_like(cref)
         for j in np.arange(ylat.size-2, 0, -1):
             cbar[j] = cbar[j+1] + 0.5 * (qbar[j+1]*area.sum(axis=1)[j+1] + qbar[j]*area.sum(axis=1)[j])
-        fawa = -(cbar[1:] + cref[1:])/(2 * pi * planet_radius)
+        total = np.sum(area_flat * vort_flat)  # vanishes for vorticity on the whole sphere
+        fawa = (total - cbar[1:] - cref[1:])/(2 * pi * planet_radius)
         return qref, fawa
 
     return qref, None
-- 
2.43.0


From ed0cc4d6fe03973d6354d0b9f98efa7f26bf7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 39/54] fix: budget script reversed latitudes and levels but
 not the fields on them

---
 scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
index 3f0a54e..ab02102 100755
--- a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
+++ b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
@@ -38,15 +38,19 @@ for i in year:
     
     # latitude has to be in ascending order
     ylat = u_file.variables['lat'][:]
+    lat_order = slice(None)
     if np.diff(ylat)[0]<0:
         print('Flip ylat.')
         ylat = ylat[::-1]
+        lat_order = slice(None, None, -1)
     
     # pressure level has to be in descending order (ascending height)
     plev = u_file.variables['level'][:] #/100.
+    lev_order = slice(None)
     if np.diff(plev)[0]>0:
         print('Flip plev.')    
         plev = plev[::-1]
+        lev_order = slice(None, None, -1)
     
     nlon = xlon.size
     nlat = ylat.size
@@ -133,9 +137,9 @@ for i in year:
     
     for tstep in range(ntimes):  # or ntimes
         
-        uu = u_file.variables['U'][tstep, :, :, :].data
-        vv = v_file.variables['V'][tstep, :, :, :].data
-        tt = t_file.variables['T'][tstep, :, :, :].data
+        uu = u_file.variables['U'][tstep, lev_order, lat_order, :].data
+        vv = v_file.variables['V'][tstep, lev_order, lat_order, :].data
+        tt = t_file.variables['T'][tstep, lev_order, lat_order, :].data
     
         qgfield_object = QGFieldNHN22(xlon, ylat, plev, uu, vv, tt, eq_boundary_index=eq_boundary_index, northern_hemisphere_results_only=False)
         equator_idx = qgfield_object.equator_idx
-- 
2.43.0


From 23c331e8c17e66a74cd1a0a06b4d0866c25a7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 40/54] fix: heating script reversed latitudes and levels but
 not the fields on them

---
 scripts/lubis_et_al_2025/cal_ncforce_loop.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/lubis_et_al_2025/cal_ncforce_loop.py b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
index 28852e8..dac82e9 100755
--- a/scripts/lubis_et_al_2025/cal_ncforce_loop.py
+++ b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
@@ -41,15 +41,19 @@ for i in years:
 
     # Latitude must be in ascending order
     ylat = u_file.variables['lat'][:]
+    lat_order = slice(None)
     if np.diff(ylat)[0] < 0:
         print('Flip ylat.')
         ylat = ylat[::-1]
+        lat_order = slice(None, None, -1)
 
     # Pressure levels must be in descending order (ascending height)
     plev = u_file.variables['level'][:] #/ 100.0  # Convert to hPa
+    lev_order = slice(None)
     if np.diff(plev)[0] > 0:
         print('Flip plev.')
         plev = plev[::-1]
+        lev_order = slice(None, None, -1)
 
     nlon = xlon.size
     nlat = ylat.size
@@ -91,10 +95,10 @@ for i in years:
 
     # Process and compute ncforce_3D for each timestep
     for tstep in range(ntimes):
-        uu = u_file.variables['U'][tstep, :, :, :]
-        vv = v_file.variables['V'][tstep, :, :, :]
-        tt = t_file.variables['T'][tstep, :, :, :]
-        dtdt = dtdt_file.variables['DTDTMST'][tstep, :, :, :]
+        uu = u_file.variables['U'][tstep, lev_order, lat_order, :]
+        vv = v_file.variables['V'][tstep, lev_order, lat_order, :]
+        tt = t_file.variables['T'][tstep, lev_order, lat_order, :]
+        dtdt = dtdt_file.variables['DTDTMST'][tstep, lev_order, lat_order, :]
 
         # Initialize QGFieldNHN22 object
         qgfield = QGFieldNHN22(
-- 
2.43.0


From 975515535b3594687dcc66db5b33b113c48534e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 41/54] fix: hybrid-level interpolation referred to a logger
 that exists only when run as a script

---
 ...nterpolation_hybrid_to_pressure_poisson_filled_below_topo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
index 848dcea..6130c83 100644
--- a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
+++ b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
@@ -88,7 +88,7 @@ def vertical_interpolation_to_pressure(ds, variable, save_topography=False, logg
             ## save a copy for topography file where there no values for certain pressure cooridinates.
             topography[t, ...] = new_variable[t, ...]
 
-        new_variable[t, ...] = gridfill_all_levels_each_time(new_variable[t, ...], logging_object)
+        new_variable[t, ...] = gridfill_all_levels_each_time(new_variable[t, ...], logging_method)
 
     if save_topography:
         topography[~np.isnan(topography)] = 1
-- 
2.43.0


From d0e153f078091fb0c8dc0e016916bd74b08b2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 42/54] fix: attributes of variables interpolated to pressure
 levels were lost and written into the source dataset

---
 ...nterpolation_hybrid_to_pressure_poisson_filled_below_topo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
index 6130c83..9adf1b6 100644
--- a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
+++ b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
@@ -142,7 +142,7 @@ def update_new_variable_to_pressure(var, new_data, ds, ds_copy, default_attrs=No
     ds_copy[var]   = xr.DataArray(new_data, \
             dims   = tuple(new_coordinate_system), \
             coords = {key:ds_copy.coords[key].values for key in new_coordinate_system}, \
-            attrs  = default_attrs.update({'description': '%s interpolated from model levels to pressure coords in hPa'%(var)}))   
+            attrs  = {**default_attrs, 'description': '%s interpolated from model levels to pressure coords in hPa'%(var)})   
     
     del new_data
     gc.collect()
-- 
2.43.0


From f201b156ebaae7d405cdf499618e538597999db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 43/54] fix: finite-amplitude wave activity was wrong for cell
 areas that vary along a latitude row

---
 src/falwa/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/basis.py b/src/falwa/basis.py
index 1eb2b47..da6d593 100644
--- a/src/falwa/basis.py
+++ b/src/falwa/basis.py
@@ -39,7 +39,7 @@ def eqvlat_fawa(
         1-d finite-amplitude local wave activity
     """
     vort_min, vort_max = np.amin(vort), np.amax(vort)
-    qbar = vort.mean(axis=-1)  # zonal mean vorticity
+    qrow = (vort * area).sum(axis=-1)  # area integral of vorticity over each row
     vort_bins = np.linspace(vort_min, vort_max, n_points, endpoint=True)  # uniform vort bins
     vort_flat, area_flat = vort.flatten(), area.flatten()  # Flatten the 2D arrays to 1D
 
@@ -57,7 +57,7 @@ def eqvlat_fawa(
         cref = np.interp(ylat, eqv_latitude, cq)
         cbar = np.zeros_like(cref)
         for j in np.arange(ylat.size-2, 0, -1):
-            cbar[j] = cbar[j+1] + 0.5 * (qbar[j+1]*area.sum(axis=1)[j+1] + qbar[j]*area.sum(axis=1)[j])
+            cbar[j] = cbar[j+1] + 0.5 * (qrow[j+1] + qrow[j])
         total = np.sum(area_flat * vort_flat)  # vanishes for vorticity on the whole sphere
         fawa = (total - cbar[1:] - cref[1:])/(2 * pi * planet_radius)
         return qref, fawa
-- 
2.43.0


From 781c27f1e95d2b0352af1f56391cd00a1de1493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 44/54] fix: column means were not normalised on evenly spaced
 levels that do not start at 1000 hPa

---
 src/falwa/oopinterface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 356b52f..607e501 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -403,6 +403,7 @@ class QGFieldBase(ABC):
 
     def _vertical_average(self, var_3d, lowest_layer_index=1, height_axis=-1):
         dc = self.dz / self.prefactor
+        height_above_lowest = self.height - self.height[0]  # same weights as in self.prefactor
 
         # Build dynamic slicer for var_3d
         slicer = [slice(None)] * var_3d.ndim
@@ -414,7 +415,7 @@ class QGFieldBase(ABC):
 
         var_baro = np.sum(
             var_3d[tuple(slicer)]
-            * np.exp(-self.height[lowest_layer_index:-1].reshape(height_shape) / self.scale_height) * dc,
+            * np.exp(-height_above_lowest[lowest_layer_index:-1].reshape(height_shape) / self.scale_height) * dc,
             axis=height_axis)
         return var_baro
 
@@ -458,7 +459,7 @@ class QGFieldBase(ABC):
         ncforce_baro = self._vertical_average(ncforce3d, lowest_layer_index=1)
 
         uref_baro = np.sum(
-            uref[-jd:, 1:-1] * np.exp(-self.height[np.newaxis, 1:-1] / self.scale_height) * self.dz / self.prefactor,axis=-1)
+            uref[-jd:, 1:-1] * np.exp(-(self.height[np.newaxis, 1:-1] - self.height[0]) / self.scale_height) * self.dz / self.prefactor,axis=-1)
 
         return astar_baro, u_baro, uref_baro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4, \
             astar1, astar2, astar1_baro, astar2_baro, ncforce_baro
-- 
2.43.0


From 9372b4947b172413bad61ded58972acb4ff6d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 45/54] fix: reference winds, temperatures and fluxes assumed
 that evenly spaced levels start at 1000 hPa

---
 src/falwa/f90_modules/compute_flux_dirinv.f90 |  7 ++++---
 .../compute_qref_and_fawa_first.f90           |  7 ++++---
 .../f90_modules/compute_reference_states.f90  |  9 ++++----
 src/falwa/f90_modules/upward_sweep.f90        |  7 ++++---
 src/falwa/oopinterface.py                     | 21 ++++++++++++-------
 5 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index 138f87d..e4767cc 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -1,7 +1,7 @@
 SUBROUTINE compute_flux_dirinv_nshem( &
     pv, uu, vv, pt, ncforce, tn0, qref, uref, tref, &
     imax, JMAX, kmax, nd, jb, jd, is_nhem, &
-    a, om, dz, h, rr, cp, prefac, &
+    a, om, dz, h, rr, cp, prefac, z0, &
     astar1, astar2, ncforce3d, ua1, ua2, ep1, ep2, ep3, ep4)
 
   REAL, INTENT(IN) :: pv(imax,jmax,kmax),uu(imax,jmax,kmax),vv(imax,jmax,kmax),pt(imax,jmax,kmax), &
@@ -9,7 +9,8 @@ SUBROUTINE compute_flux_dirinv_nshem( &
           tn0(kmax),qref(nd,kmax),uref(jd,kmax),tref(jd,kmax)
   INTEGER, INTENT(IN) :: imax, JMAX, kmax, nd, jb, jd
   LOGICAL, INTENT(IN) :: is_nhem
-  REAL, INTENT(IN) :: a, om, dz, h, rr, cp, prefac
+  REAL, INTENT(IN) :: a, om, dz, h, rr, cp, prefac, z0  ! z0: pseudoheight of the lowest level
+  !f2py real, optional, intent(in) :: z0 = 0.
   REAL, INTENT(OUT) :: astar1(imax,nd,kmax), astar2(imax,nd,kmax), ncforce3d(imax,nd,kmax), &
           ua1(imax,nd,kmax),  ua2(imax,nd,kmax), ep1(imax,nd,kmax), ep2(imax,nd,kmax), ep3(imax,nd,kmax), ep4(imax,nd)
 
@@ -127,7 +128,7 @@ SUBROUTINE compute_flux_dirinv_nshem( &
           ep1(i,j,k) = ep1(i,j,k)+0.5*vv(i,j,k)**2                     !F3a+b
           ep11 = 0.5*(pt(i,j,k)-tref(j,k))**2               !F3c
         endif
-        zz = dz*float(k-1)
+        zz = z0+dz*float(k-1)
         ep11 = ep11*(rr/h)*exp(-rkappa*zz/h)
         ep11 = ep11*2.*dz/(tg(k+1)-tg(k-1))
         ep1(i,j,k) = ep1(i,j,k)-ep11                   !F3
diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 5c5e236..e2701f0 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -1,5 +1,5 @@
 SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax, nd, nnd, jb, jd, &
-        a, omega, dz, h, dphi, dlambda, rr, cp, &
+        a, omega, dz, h, dphi, dlambda, rr, cp, z0, &
         qref, ubar, tbar, fawa, ckref, tjk, sjk)
 
 
@@ -7,7 +7,8 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
 
   REAL, INTENT(IN) :: pv(imax,jmax,kmax),uu(imax,jmax,kmax),vort(imax,jmax,kmax),pt(imax,jmax,kmax),tn0(kmax)
   INTEGER, INTENT(IN) :: imax, JMAX, kmax, nd, nnd, jb, jd
-  REAL, INTENT(in) :: a, omega, dz, h, dphi, dlambda, rr, cp
+  REAL, INTENT(in) :: a, omega, dz, h, dphi, dlambda, rr, cp, z0  ! z0: pseudoheight of the lowest level
+  !f2py real, optional, intent(in) :: z0 = 0.
   REAL, INTENT(OUT) :: qref(nd,kmax),ubar(nd,kmax),tbar(nd,kmax),fawa(nd,kmax),ckref(nd,kmax),&
           tjk(jd-2,kmax-1),sjk(jd-2,jd-2,kmax-1)
 
@@ -36,7 +37,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
   enddo
 
   do k = 1,kmax
-    z(k) = dz*float(k-1)
+    z(k) = z0+dz*float(k-1)
   enddo
 
 
diff --git a/src/falwa/f90_modules/compute_reference_states.f90 b/src/falwa/f90_modules/compute_reference_states.f90
index e48f6d3..8e9b96b 100644
--- a/src/falwa/f90_modules/compute_reference_states.f90
+++ b/src/falwa/f90_modules/compute_reference_states.f90
@@ -1,10 +1,11 @@
 SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits,&
-               a,om,dz,eps,h,dphi,dlambda,r,cp,rjac,qref,u,tref,num_of_iter)
+               a,om,dz,eps,h,dphi,dlambda,r,cp,rjac,z0,qref,u,tref,num_of_iter)
 
 
     integer, intent(in) :: nlon,nlat,kmax,jd,npart,maxits
     real, intent(in) :: pv(nlon,nlat,kmax),uu(nlon,nlat,kmax),pt(nlon,nlat,kmax),stat(kmax)
-    real, intent(in) :: a, om, dz,eps, h, dphi, dlambda, r, cp, rjac
+    real, intent(in) :: a, om, dz,eps, h, dphi, dlambda, r, cp, rjac, z0  ! z0: pseudoheight of the lowest level
+    !f2py real, optional, intent(in) :: z0 = 0.
     real, intent(out) :: qref(jd,kmax),u(jd,kmax),tref(jd,kmax)
     integer, intent(out) :: num_of_iter
 
@@ -38,7 +39,7 @@ SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits
     enddo
 
     do k = 1,kmax
-        z(k) = dz*float(k-1)
+        z(k) = z0+dz*float(k-1)
     enddo
 
 
@@ -232,7 +233,7 @@ SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits
 
     do k = 2,KMAX-1
         t00 = 0.
-        zz = dz*float(k-1)
+        zz = z0+dz*float(k-1)
         tref(1,k) = t00
         tref(2,k) = t00
         do j = 2,(jd-1)
diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index 6adce07..cbea84b 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -1,8 +1,9 @@
-SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_cor, tref, qref, u, a, om, dz, h, rr, cp)
+SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_cor, tref, qref, u, a, om, dz, h, rr, cp, z0)
 
   INTEGER, INTENT(IN) :: jmax, kmax, nd, jb, jd
   REAL, INTENT(IN) :: sjk(jd-2,jd-2,kmax-1),tjk(jd-2,kmax-1),ckref(nd,kmax),tb(kmax),qref_over_cor(nd,kmax)
-  REAL, INTENT(IN) :: a, om, dz, h, rr, cp
+  REAL, INTENT(IN) :: a, om, dz, h, rr, cp, z0  ! z0: pseudoheight of the lowest level
+  !f2py real, optional, intent(in) :: z0 = 0.
   REAL, INTENT(OUT) :: qref(nd,kmax), tref(jd,kmax), u(jd,kmax)
   real :: tg(kmax)
   real :: pjk(jd-2,kmax)
@@ -64,7 +65,7 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
   qref(:, :) = qref_over_cor(:, :)  ! modify for f2py wrapping purpose
   do k = 2,kmax-1
     t00 = 0.
-    zz = dz*float(k-1)
+    zz = z0+dz*float(k-1)
     tref(1,k) = t00
     tref(2,k) = t00
     do j = 2,jd-1
diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 607e501..fa1e16d 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -445,7 +445,8 @@ class QGFieldBase(ABC):
             h=self.scale_height,
             rr=self.dry_gas_constant,
             cp=self.cp,
-            prefac=self.prefactor)
+            prefac=self.prefactor,
+            z0=self.height[0])
         jd = uref.shape[0]
         astar1_baro = self._vertical_average(astar1, lowest_layer_index=1)
         astar2_baro = self._vertical_average(astar2, lowest_layer_index=1)
@@ -1133,7 +1134,8 @@ class QGFieldBase(ABC):
             h=self.scale_height,
             rr=self.dry_gas_constant,
             cp=self.cp,
-            prefac=self.prefactor)
+            prefac=self.prefactor,
+            z0=self.height[0])
 
         # Southern hemisphere
         # Fix in v2.3.3: since the computation of SHem is done by flipping the SHem field over latitudes,
@@ -1166,7 +1168,8 @@ class QGFieldBase(ABC):
                 h=self.scale_height,
                 rr=self.dry_gas_constant,
                 cp=self.cp,
-                prefac=self.prefactor)
+                prefac=self.prefactor,
+                z0=self.height[0])
             self._layerwise_flux_terms_storage.ep2_shem = -ep2_shem
             self._layerwise_flux_terms_storage.ep3_shem = -ep3_shem
             self._layerwise_flux_terms_storage.ncforce_shem = -ncforce_shem
@@ -1695,6 +1698,7 @@ class QGFieldNH18(QGFieldBase):
             r=self.dry_gas_constant,
             cp=self.cp,
             rjac=self.rjac,
+            z0=self.height[0],
         )
 
     def compute_layerwise_lwa_fluxes(self, ncforce=None):
@@ -1850,7 +1854,8 @@ class QGFieldNHN22(QGFieldBase):
             dphi=self.dphi,
             dlambda=self.dlambda,
             rr=self.dry_gas_constant,
-            cp=self.cp)
+            cp=self.cp,
+            z0=self.height[0])
 
         self._check_nan("qref_over_sin", qref_over_sin)
         self._check_nan("ubar", ubar)
@@ -1866,7 +1871,7 @@ class QGFieldNHN22(QGFieldBase):
                 jmax=self._nlat_analysis,
                 jb=self.eq_boundary_index,  # 5
                 jd=self.jd,
-                z=np.arange(self.kmax) * self.dz,
+                z=self.height,
                 statn=static_stability,
                 qref=qref_over_sin,
                 ckref=ckref,
@@ -1906,7 +1911,8 @@ class QGFieldNHN22(QGFieldBase):
             dz=self.dz,
             h=self.scale_height,
             rr=self.dry_gas_constant,
-            cp=self.cp)
+            cp=self.cp,
+            z0=self.height[0])
 
         # return qref, uref, tref, fawa, ubar, tbar
         return qref_over_sin / (2. * self.omega), uref, tref, fawa, ubar, tbar
@@ -1946,6 +1952,7 @@ class QGFieldNHN22(QGFieldBase):
             is_nhem=True,
             a=self.planet_radius,
             om=self.omega,
-            dz=self.dz, h=self.scale_height, rr=self.dry_gas_constant, cp=self.cp, prefac=self.prefactor)
+            dz=self.dz, h=self.scale_height, rr=self.dry_gas_constant, cp=self.cp, prefac=self.prefactor,
+            z0=self.height[0])
         # astarbaro, u_baro, urefbaro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4baro, astar1, astar2 = ans
         return ans
-- 
2.43.0


From 7cbbcfb0a09404b5e6ac61f0125612f7b4288030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 46/54] fix: equivalent-latitude profile was NaN when the
 summed area exceeds the sphere by rounding

---
 src/falwa/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/basis.py b/src/falwa/basis.py
index da6d593..b8e86bc 100644
--- a/src/falwa/basis.py
+++ b/src/falwa/basis.py
@@ -49,7 +49,7 @@ def eqvlat_fawa(
     cq = np.cumsum([0] + [np.multiply(area_flat, vort_flat)[np.where(inds == i)].sum()  # cumulative vort * area
                           for i in range(1, vort_bins.size)])
     eqv_gaussian_grid = aq / (2 * pi * planet_radius ** 2) - 1.0  # ascending from -1
-    eqv_latitude = np.rad2deg(np.arcsin(eqv_gaussian_grid))
+    eqv_latitude = np.rad2deg(np.arcsin(np.clip(eqv_gaussian_grid, -1.0, 1.0)))  # area may round above the sphere's
     qref = np.interp(ylat, eqv_latitude, vort_bins)  # ascending. qref = np.interp(alat[::-1], aq, q_part_u) also works
 
     # *** Compute FAWA ***
@@ -128,7 +128,7 @@ def eqvlat_vgrad(ylat, vort, area, n_points, planet_radius=6.378e+6, vgrad=None)
         brac = (dp + np.append(dp[1:], 0.)) / np.maximum(n_filled, 1)
 
     y_part = aq / (2 * pi * planet_radius**2) - 1.0
-    lat_part = np.rad2deg(np.arcsin(y_part))
+    lat_part = np.rad2deg(np.arcsin(np.clip(y_part, -1.0, 1.0)))  # area may round above the sphere's
     q_part = np.interp(ylat, lat_part, q_part_u)
 
     if vgrad is not None:
-- 
2.43.0


From 656b0333348e3ff850dd3875d6f4ea530b0e55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 47/54] fix: BarotropicField assumed that its latitudes reach
 both poles when it derives spacing and area

---
 src/falwa/barotropic_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/barotropic_field.py b/src/falwa/barotropic_field.py
index b610b72..84beb6a 100644
--- a/src/falwa/barotropic_field.py
+++ b/src/falwa/barotropic_field.py
@@ -79,7 +79,7 @@ class BarotropicField(object):
         self.planet_radius = planet_radius
         self.return_partitioned_lwa = return_partitioned_lwa
         if dphi is None:
-            self.dphi = pi/(self.nlat-1) * np.ones((self.nlat))
+            self.dphi = np.deg2rad(np.ptp(ylat)/(self.nlat-1)) * np.ones((self.nlat))
         else:
             self.dphi = dphi
 
-- 
2.43.0


From c46d5ad70b2f11fb635ec6950046d8993c2a5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 48/54] fix: static_stability ignored how the given area varies
 along a latitude circle

---
 src/falwa/utilities.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index f9aea55..a913713 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -74,13 +74,17 @@ def static_stability(height, area, theta, s_et=None, n_et=None):
     elif area.ndim == 1:
         area_zonal_mean = area
 
+    if theta.ndim == 3 and area.ndim == 2:
+        # weigh each grid point by its own area, which may vary along a latitude circle
+        weighted_zonal_mean = np.mean(theta * area[np.newaxis, :, :], axis=-1)
+    else:
+        weighted_zonal_mean = zonal_mean * area_zonal_mean[np.newaxis, :]
+
     csm_n_et = np.sum(area_zonal_mean[-n_et:])
     csm_s_et = np.sum(area_zonal_mean[:s_et])
 
-    t0_n = np.sum(zonal_mean[:, -n_et:] * area_zonal_mean[np.newaxis, -n_et:],
-                  axis=-1) / csm_n_et
-    t0_s = np.sum(zonal_mean[:, :s_et] * area_zonal_mean[np.newaxis, :s_et],
-                  axis=-1) / csm_s_et
+    t0_n = np.sum(weighted_zonal_mean[:, -n_et:], axis=-1) / csm_n_et
+    t0_s = np.sum(weighted_zonal_mean[:, :s_et], axis=-1) / csm_s_et
 
     stat_n[1:-1] = (t0_n[2:] - t0_n[:-2]) / (height[2:] - height[:-2])
     stat_s[1:-1] = (t0_s[2:] - t0_s[:-2]) / (height[2:] - height[:-2])
-- 
2.43.0


From 02e51d06b61970a09877568ccc8189b69f4276ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 49/54] fix: forcing read from one computation was overwritten
 by the next

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index fa1e16d..db73ed2 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1431,7 +1431,7 @@ class QGFieldBase(ABC):
             raise ValueError('ncforce_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
-                self._barotropic_flux_terms_storage.ncforce_baro),
+                self._barotropic_flux_terms_storage.ncforce_baro.copy()),
             interp_axis=0)
 
     @property
-- 
2.43.0


From ca102b6d14915196448d7953f41c43fbf158b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 50/54] fix: monthly digest left its times and heights unset

---
 scripts/mdtf_predigest_data/predigest_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/mdtf_predigest_data/predigest_data.py b/scripts/mdtf_predigest_data/predigest_data.py
index 89b10a8..6918fae 100644
--- a/scripts/mdtf_predigest_data/predigest_data.py
+++ b/scripts/mdtf_predigest_data/predigest_data.py
@@ -68,7 +68,8 @@ if __name__ == "__main__":
     times.calendar = time_calendar
     lats[:] = ylat
     lons[:] = xlon
-    # times[:] = time_array
+    times[:] = time_array[:total_tsteps]
+    height[:] = np.arange(kmax) * 1000.
     lwa_baro = output_file.createVariable('lwa_baro', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
     lwa_baro.units = 'm/s'
     u_baro = output_file.createVariable('u_baro', np.dtype('float32').char, ('time', 'latitude', 'longitude'))
-- 
2.43.0


From e82837b71c1107eed8a4b88340c9b5df84f7330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 51/54] fix: difference small integer fields without
 wrap-around in zonal_convergence and curl_2d

---
 src/falwa/utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index a913713..8f6c262 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -223,7 +223,9 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    zonal_diff = np.zeros_like(field, dtype=np.result_type(field, np.float32))
+    # Differences of small integer types would wrap around
+    field = np.asanyarray(field, dtype=np.result_type(field, np.float32))
+    zonal_diff = np.zeros_like(field)
     zonal_diff[:, 1:-1] = field[:, 2:] - field[:, :-2]
     zonal_diff[:, 0] = field[:, 1] - field[:, -1]
     zonal_diff[:, -1] = field[:, 0] - field[:, -2]
@@ -293,7 +295,10 @@ def curl_2d(ufield, vfield, clat, dlambda, dphi, planet_radius=6.378e+6):
     of velocity on a pressure level in spherical coordinates.
     """
 
-    ans = np.zeros_like(ufield, dtype=np.result_type(ufield, vfield, np.float32))
+    # Differences of small integer types would wrap around
+    ans_type = np.result_type(ufield, vfield, np.float32)
+    ufield, vfield = np.asanyarray(ufield, dtype=ans_type), np.asanyarray(vfield, dtype=ans_type)
+    ans = np.zeros_like(ufield)
     ans[1:-1, 1:-1] = (vfield[1:-1, 2:] - vfield[1:-1, :-2])/(2.*dlambda) - \
                       (ufield[2:, 1:-1] * clat[2:, np.newaxis] -
                        ufield[:-2, 1:-1] * clat[:-2, np.newaxis])/(2.*dphi)
-- 
2.43.0


From f2830ac2f41f182f0bd5da91dea051dc1bb67ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 52/54] fix: refuse temperature fields whose shape differs from
 the coordinates

---
 src/falwa/oopinterface.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index db73ed2..e98bcb5 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -126,8 +126,7 @@ class QGFieldBase(ABC):
         # === Check whether the input field is masked array. If so, turn them to normal array ===
         u_field = self._convert_masked_data(u_field, "u_field")
         v_field = self._convert_masked_data(v_field, "v_field")
-        theta_field = self._convert_masked_data(t_field, "t_field") * np.exp(
-            dry_gas_constant / cp * self._plev_to_height[:, np.newaxis, np.newaxis] / scale_height)
+        t_field = self._convert_masked_data(t_field, "t_field")
 
         # === Check if ylat is in ascending order and include the equator ===
         ylat = self._convert_masked_data(ylat, "ylat")
@@ -144,7 +143,9 @@ class QGFieldBase(ABC):
         expected_dimension = (self.nlev, self.nlat, self.nlon)
         self._check_dimension_of_fields(field=u_field, field_name='u_field', expected_dim=expected_dimension)
         self._check_dimension_of_fields(field=v_field, field_name='v_field', expected_dim=expected_dimension)
-        self._check_dimension_of_fields(field=theta_field, field_name='theta_field', expected_dim=expected_dimension)
+        self._check_dimension_of_fields(field=t_field, field_name='t_field', expected_dim=expected_dimension)
+        theta_field = t_field * np.exp(
+            dry_gas_constant / cp * self._plev_to_height[:, np.newaxis, np.newaxis] / scale_height)
 
         # === Do Interpolation on latitude grid if needed ===
         if self.need_latitude_interpolation:
-- 
2.43.0


From 04a2e5bb8e0bdc5c279acc31dd907bcb36b4c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 53/54] fix: compute with coordinates in double precision
 whatever their storage format

---
 src/falwa/barotropic_field.py | 1 +
 src/falwa/oopinterface.py     | 3 ++-
 src/falwa/utilities.py        | 2 +-
 src/falwa/xarrayinterface.py  | 4 ++--
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/falwa/barotropic_field.py b/src/falwa/barotropic_field.py
index 84beb6a..ff8cf1d 100644
--- a/src/falwa/barotropic_field.py
+++ b/src/falwa/barotropic_field.py
@@ -72,6 +72,7 @@ class BarotropicField(object):
         """
 
         self.xlon = xlon
+        ylat = np.asarray(ylat, dtype=float)  # small number formats lose digits (or wrap around) below
         self.ylat = ylat
         self.clat = np.abs(np.cos(np.deg2rad(ylat)))
         self.nlon = xlon.size
diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index e98bcb5..afdcdc4 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -107,6 +107,7 @@ class QGFieldBase(ABC):
 
         # === Variables related to the Vertical grid ===
         self._data_on_evenly_spaced_pseudoheight_grid = data_on_evenly_spaced_pseudoheight_grid
+        plev = np.asarray(plev, dtype=float)  # small number formats lose digits (or wrap around) below
         if not np.all(np.diff(plev) < 0):
             raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
         if self._data_on_evenly_spaced_pseudoheight_grid:
@@ -129,7 +130,7 @@ class QGFieldBase(ABC):
         t_field = self._convert_masked_data(t_field, "t_field")
 
         # === Check if ylat is in ascending order and include the equator ===
-        ylat = self._convert_masked_data(ylat, "ylat")
+        ylat = np.asarray(self._convert_masked_data(ylat, "ylat"), dtype=float)
         self._input_ylat, self.need_latitude_interpolation, self._ylat, self.equator_idx, self._clat = \
             self._check_and_flip_ylat(ylat)
 
diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 8f6c262..f6a2b7d 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -159,7 +159,7 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
     qgpv = np.empty_like(potential_temp)  # av1+av2+av3+dzdiv
 
     av1 = np.ones((kmax, nlat, nlon)) * \
-        2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
+        2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis], dtype=float))
 
     # Calculate the z-divergence term
     zdiv = np.zeros((kmax, nlat, nlon))  # rows in neither hemispheric domain carry no stretching
diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index f826265..046ab00 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -13,10 +13,10 @@ from falwa.oopinterface import QGFieldNH18
 
 
 def _is_ascending(arr):
-    return np.all(np.diff(arr) > 0)
+    return np.all(np.greater(arr[1:], arr[:-1]))
 
 def _is_descending(arr):
-    return np.all(np.diff(arr) < 0)
+    return np.all(np.less(arr[1:], arr[:-1]))
 
 def _is_equator(x):
     return abs(x) < 1.0e-4
-- 
2.43.0


From 8457607956f597886bff4e84265e670b891e5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 54/54] fix: integrate the budget over time axes that repeat
 their first or last instant

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 046ab00..b861e74 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -718,7 +718,7 @@ def integrate_budget(ds, var_names=None):
     start = ds[name_time].values[0]
     stop = ds[name_time].values[-1]
     # Determine the change in LWA over the time interval
-    dlwa = ds[name_lwa].sel({ name_time: stop }) - ds[name_lwa].sel({ name_time: start })
+    dlwa = ds[name_lwa].isel({ name_time: -1 }) - ds[name_lwa].isel({ name_time: 0 })
     # Integrate the known tendencies in time
     czaf = ds[name_czaf].integrate(coord=name_time, datetime_unit="s")
     demf = ds[name_demf].integrate(coord=name_time, datetime_unit="s")
-- 
2.43.0

