From 2ef43d7852f5f05bbb313076b68bb0a389b9718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 01/49] fix: unwrap objects that lie across the periodic
 boundary

Particles were folded only when they were more than half a box away from a
reference, and the reference was either a fixed particle or none, so objects
straddling the boundary evenly were torn apart.
---
 cosmic_profiles/common/python_routines.py     |  3 +-
 .../cython_helpers/helper_class.pxd           |  2 +-
 .../cython_helpers/helper_class.pyx           | 33 ++++++++-----------
 .../dens_profs/dens_profs_algos.pyx           |  6 ++--
 .../shape_profs/shape_profs_algos.pyx         |  8 ++---
 5 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2466ef3..0844f30 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -513,7 +513,8 @@ def respectPBCNoRef(xyz, L_BOX = None):
         xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
         rng = default_rng(seed=0) # Reference particle does not matter, i.e. ref = 0 is an option, but it is better to average over some random particles
         choose = rng.choice(np.arange(len(xyz)), (min(50,len(xyz)),), replace = False)
-        ref_xyz = np.average(xyz_out[choose], axis = 0)
+        dist_ref = xyz_out[choose]-xyz_out[choose[0]] # Average over nearest images only, otherwise an object straddling the box boundary has its reference in mid-box
+        ref_xyz = xyz_out[choose[0]]+np.average(dist_ref-L_BOX*np.round(dist_ref/L_BOX), axis = 0)
         dist_x = xyz_out[:,0]-ref_xyz[0]
         dist_y = xyz_out[:,1]-ref_xyz[1]
         dist_z = xyz_out[:,2]-ref_xyz[2]
diff --git a/cosmic_profiles/cython_helpers/helper_class.pxd b/cosmic_profiles/cython_helpers/helper_class.pxd
index a55c64d..fb79ba9 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pxd
+++ b/cosmic_profiles/cython_helpers/helper_class.pxd
@@ -20,7 +20,7 @@ cdef class CythonHelpers:
     cdef void ZHEEVR(complex[::1,:] H, double * eigvals, complex[::1,:] Z, int nrows) nogil
 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil
+    cdef double[:,:] respectPBC(double[:,:] xyz, double[:] ref, double L_BOX) nogil
     
     @staticmethod
     cdef double[:] calcDensProfBruteForceSph(double[:,:] xyz, double[:] masses, double[:] center, float r_200, double[:] ROverR200, double[:] dens_prof, int[:] shell) nogil
diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 99bf90f..02d504e 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -166,36 +166,31 @@ cdef class CythonHelpers:
     @cython.boundscheck(False)
     @cython.wraparound(False) 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil:
+    cdef double[:,:] respectPBC(double[:,:] xyz, double[:] ref, double L_BOX) nogil:
         """
         Modify xyz inplace so that it respects the box periodicity.
         
         If point distro xyz has particles separated in any Cartesian direction
-        by more than L_BOX/2, reflect those particles along L_BOX/2
+        by more than L_BOX/2 from ``ref``, translate those particles by L_BOX
         
-        :param xyz: coordinates of particles of type 1 or type 4
+        :param xyz: coordinates of particles
         :type xyz: (N^3x3) floats
+        :param ref: reference position, e.g. center of the object
+        :type ref: (3,) floats
         :param L_BOX: periodicity of box (0.0 if non-periodic)
-        :type L_BOX: float
-        :return: updated coordinates of particles of type 1 or type 4
+        :type L_BOX: double
+        :return: updated coordinates of particles
         :rtype: (N^3x3) floats"""
-        
         if L_BOX == 0.0:
             return xyz
-        cdef int ref = 0
-        cdef float dist_x
-        cdef float dist_y
-        cdef float dist_z
+        cdef int i
+        cdef int k
         for i in range(xyz.shape[0]):
-            dist_x = CythonHelpers.cython_abs(xyz[ref, 0]-xyz[i,0])
-            if dist_x > L_BOX/2:
-                xyz[i,0] = L_BOX-xyz[i,0] # Reflect x-distances along L_BOX/2
-            dist_y = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_y > L_BOX/2:
-                xyz[i,1] = L_BOX-xyz[i,1] # Reflect y-distances along L_BOX/2
-            dist_z = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_z > L_BOX/2:
-                xyz[i,2] = L_BOX-xyz[i,2] # Reflect z-distances along L_BOX/2
+            for k in range(3):
+                if xyz[i,k]-ref[k] > L_BOX/2:
+                    xyz[i,k] = xyz[i,k]-L_BOX
+                elif xyz[i,k]-ref[k] < -L_BOX/2:
+                    xyz[i,k] = xyz[i,k]+L_BOX
         return xyz
     
     @cython.boundscheck(False)
diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 987ecf0..e4a9c51 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -103,7 +103,7 @@ def calcDensProfsSphDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
         for n in range(obj_size[p]):
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBC(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         dens_profs[p] = CythonHelpers.calcDensProfBruteForceSph(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], r200s[p], bin_edges_tiled[openmp.omp_get_thread_num()], dens_profs[p], shell[openmp.omp_get_thread_num()])
     del bin_edges; del obj_size; del idx_cat; del shell; del bin_edges_tiled; del xyz_obj; del m_obj; del centers
     return dens_profs.base
@@ -211,7 +211,7 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
         for n in range(obj_size[p]):
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBC(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         dens_profs[p] = CythonHelpers.calcDensProfBruteForceEll(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_obj_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], r200s[p], a_interpol[p], b_interpol[p], c_interpol[p], major_interpol[p], inter_interpol[p], minor_interpol[p], dens_profs[p], shell[openmp.omp_get_thread_num()])
     del bin_edges; del obj_size; del idx_cat; del shell; del xyz_obj; del m_obj; del centers
     del a_interpol; del b_interpol; del c_interpol; del major_interpol; del inter_interpol; del minor_interpol; del xyz_obj_princ; del a; del b; del c; del major; del inter; del minor
@@ -270,7 +270,7 @@ def calcDensProfsKernelBased(double[:,:] xyz, double[:] masses, double[:] r200s,
         for n in range(obj_size[p]):
             xyz_obj[n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[:obj_size[p]], L_BOX)
+        xyz_obj[:obj_size[p]] = CythonHelpers.respectPBC(xyz_obj[:obj_size[p]], centers[p], L_BOX)
         dists = np.linalg.norm(xyz_obj.base[:obj_size[p]]-centers.base[p], axis = 1)
         hs = 0.005*r200s[p]*(dists.base/(0.1*r200s[p]))**(0.5)
         for r_idx in prange(r_res, schedule = 'dynamic', nogil = True):
diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 88c357e..bfb5809 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -596,7 +596,7 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBC(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         morph_info[openmp.omp_get_thread_num(),:,:] = calcObjMorphLocal(morph_info[openmp.omp_get_thread_num(),:,:], r200[p], r_over_r200_tiled[openmp.omp_get_thread_num()], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], shell[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
         q[p] = morph_info[openmp.omp_get_thread_num(),1]
@@ -704,7 +704,7 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBC(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         morph_info[openmp.omp_get_thread_num(),:] = calcObjMorphGlobal(morph_info[openmp.omp_get_thread_num(),:], r200[p], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], ellipsoid[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, SAFE, reduced)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
         q[p] = morph_info[openmp.omp_get_thread_num(),1]
@@ -823,7 +823,7 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBC(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         vcenters[p] = CythonHelpers.calcCoM(vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], vcenters[p])
         morph_info[openmp.omp_get_thread_num(),:,:] = calcObjMorphLocalVelDisp(morph_info[openmp.omp_get_thread_num(),:,:], r200[p], r_over_r200_tiled[openmp.omp_get_thread_num()], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], shell[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], vcenters[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
@@ -939,7 +939,7 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
             vxyz_obj[openmp.omp_get_thread_num(),n] = vxyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBC(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         vcenters[p] = CythonHelpers.calcCoM(vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], vcenters[p])
         morph_info[openmp.omp_get_thread_num(),:] = calcObjMorphGlobalVelDisp(morph_info[openmp.omp_get_thread_num(),:], r200[p], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], ellipsoid[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], vcenters[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, SAFE, reduced)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
-- 
2.43.0


From 81879dd54443fc4d7783128ecdbb95af778c463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 02/49] fix: local velocity shapes used uninitialised
 velocities

calcMorphLocalVelDisp() never copied the object's velocities into its work array.
---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index bfb5809..f6d8fa1 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -821,6 +821,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,0] = xyz[idx_cat[offsets[p]+n],0]
             xyz_obj[openmp.omp_get_thread_num(),n,1] = xyz[idx_cat[offsets[p]+n],1]
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
+            vxyz_obj[openmp.omp_get_thread_num(),n,0] = vxyz[idx_cat[offsets[p]+n],0]
+            vxyz_obj[openmp.omp_get_thread_num(),n,1] = vxyz[idx_cat[offsets[p]+n],1]
+            vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
         xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBC(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
-- 
2.43.0


From 5b13742889f287c82a5a183570af6310df6e16c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 03/49] fix: getShapeCatVelGlobal passed two surplus arguments

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 82aecca..e960c94 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -656,7 +656,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             suffix = '_v{}_'.format(self.OBJ_TYPE)
-            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, self.CENTER, self.SAFE, REDUCED, suffix)
+            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
-- 
2.43.0


From a69a0a0cdb069071e2bc0054292c625d1c90b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 04/49] fix: sum the mass of an object in double precision for
 its centre of mass

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 02d504e..db71e36 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -95,7 +95,7 @@ cdef class CythonHelpers:
         :rtype: (3,) floats"""
         com[:] = 0.0
         cdef int run
-        cdef float mass_total = 0.0
+        cdef double mass_total = 0.0
         for run in range(nns.shape[0]):
             mass_total += masses[run]
         for run in range(nns.shape[0]):
-- 
2.43.0


From 18b4a71c32e667b1e91b2bdca89f2002d0b6f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 05/49] fix: ellipsoidal density profiles overwrote the index
 catalogue

Every particle index of object p was replaced by idx_cat[p] before the
profiles were computed.
---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index e4a9c51..50c9f35 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -167,7 +167,6 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] inter_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
-        idx_cat.base[offsets[p]:offsets[p+1]] = np.array(idx_cat[p])
         r_vec = np.float64(a.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
-- 
2.43.0


From 2029c758fe530c65c39eaf23e4c5500c545e69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 06/49] fix: cached functions lost the type of empty array
 arguments

and confused arguments of different type with each other, as equal numbers
of different types have equal keys.
---
 cosmic_profiles/common/caching.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 4781ba1..6dfb9cb 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -270,12 +270,12 @@ def np_cache_factory(nb_arrs, nb_lists):
         
         GB = 1024**3 # in bytes
         @lru_cache(maxsize = config.CACHE_MAXSIZE, use_memory_up_to=(config.GBs * GB))
-        def cached_wrapper(*args_cached, dims):
+        def cached_wrapper(*args_cached, dims, dtypes):
             args_l = []
             for arg in args_cached:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                args_l[arr_nb] = np.array(args_l[arr_nb]).reshape(dims[arr_nb])
+                args_l[arr_nb] = np.array(args_l[arr_nb], dtype = dtypes[arr_nb]).reshape(dims[arr_nb])
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
@@ -284,16 +284,19 @@ def np_cache_factory(nb_arrs, nb_lists):
         def wrapper(*args):
             args_l = []
             dims = []
+            dtypes = []
             for arg in args:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
                 dims.append(args_l[arr_nb].shape)
+                dtypes.append(args_l[arr_nb].dtype.str)
                 args_l[arr_nb] = tuple(args_l[arr_nb].flatten())
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
             dims = tuple(dims)
+            dtypes = tuple(dtypes)
             args_l = tuple(args_l)
-            return cached_wrapper(*args_l, dims=dims)
+            return cached_wrapper(*args_l, dims=dims, dtypes=dtypes)
     
         # Copy lru_cache attributes over too
         wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From 8f2e28348ad9a66d361b52caf6554cc481f80317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 07/49] fix: reading a FoF/SH catalogue must not depend on each
 rank's memory or on former units

Whether the read was served from the cache depended on the memory available
to each rank, so ranks could disagree on whether to enter the collective
calls: deadlock, or the catalogue of another request. Results cached under
former input units were also returned after the units had changed, and
callers could modify the cached arrays.
---
 cosmic_profiles/gadget/read_fof.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 5fb7510..2620fe0 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -3,7 +3,7 @@
 
 import numpy as np
 import h5py
-from cosmic_profiles.common.caching import np_cache_factory
+from cosmic_profiles.common.caching import lru_cache
 import glob
 from mpi4py import MPI
 from cosmic_profiles.common import config
@@ -42,7 +42,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target):
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -62,8 +62,6 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = config.InUnitLength_in_cm/l_internal
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
             if 'Group/GroupLenType' in g:
@@ -133,6 +131,10 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
-        getFoFSHData.inner = np_cache_factory(0,0)(inner)
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
\ No newline at end of file
+        # Reading is collective: whether a result is still cached must not depend on
+        # the memory available to a rank, but only on the calls made so far.
+        getFoFSHData.inner = lru_cache(maxsize = config.CACHE_MAXSIZE)(inner)
+    l_internal, m_internal, vel_internal = config.getLMVInternal()
+    l_curr_over_target = config.InUnitLength_in_cm/l_internal
+    nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
+    return nb_shs.copy(), sh_len.copy(), fof_sizes.copy(), group_r200.copy()
\ No newline at end of file
-- 
2.43.0


From 342ee9c7fc3fc0eafc856d9a67ccc92cad28de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 08/49] fix: DensShapeProfsGadget could only be created on rank
 0

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e960c94..ded0520 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -581,11 +581,11 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             del nb_shs; del sh_len; del fof_sizes; del group_r200
         else:
             del nb_shs; del sh_len; del fof_sizes; del group_r200; del xyz; del masses  
-            obj_cat = None
-            obj_r200 = None
-            obj_size = None
-            xyz = None
-            masses = None
+            obj_cat = np.empty(0, dtype = np.int32)
+            obj_r200 = np.empty(0, dtype = np.float64)
+            obj_size = np.empty(0, dtype = np.int32)
+            xyz = np.empty((0,3), dtype = np.float64)
+            masses = np.empty(0, dtype = np.float64)
         # Find L_BOX
         head = readgadget.header(self.SNAP_DEST)
         L_BOX = np.float64(head.boxsize)
-- 
2.43.0


From f2754375177962445fe87a92b6548f4e9e478c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 09/49] fix: statistics and entries of an unbounded or
 switched-off cache were updated without the lock

---
 cosmic_profiles/common/caching.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 6dfb9cb..7cf8a07 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -156,7 +156,8 @@ def lru_cache(maxsize=128, typed=False, use_memory_up_to=False):
                 # No caching -- just a statistics update after a successful call
                 nonlocal misses
                 result = user_function(*args, **kwds)
-                misses += 1
+                with lock:
+                    misses += 1
                 return result
 
         elif maxsize is None:
@@ -165,13 +166,15 @@ def lru_cache(maxsize=128, typed=False, use_memory_up_to=False):
                 # Simple caching without ordering or size limit
                 nonlocal hits, misses
                 key = make_key(args, kwds, typed)
-                result = cache_get(key, sentinel)
-                if result is not sentinel:
-                    hits += 1
-                    return result
+                with lock:
+                    result = cache_get(key, sentinel)
+                    if result is not sentinel:
+                        hits += 1
+                        return result
                 result = user_function(*args, **kwds)
-                cache[key] = result
-                misses += 1
+                with lock:
+                    cache[key] = result
+                    misses += 1
                 return result
 
         else:
-- 
2.43.0


From 2812bac149516743834221ded8c211710a4120bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 10/49] fix: results of np_cache_factory were handed out
 without copying

---
 cosmic_profiles/common/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 7cf8a07..da43b68 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 # -*- coding: utf-8 -*-
 
+import copy
 import psutil
 from functools import RLock, update_wrapper, namedtuple, wraps
 import cosmic_profiles.common.config as config
@@ -299,7 +300,8 @@ def np_cache_factory(nb_arrs, nb_lists):
             dims = tuple(dims)
             dtypes = tuple(dtypes)
             args_l = tuple(args_l)
-            return cached_wrapper(*args_l, dims=dims, dtypes=dtypes)
+            # Callers get their own copy, lest they modify the cached result
+            return copy.deepcopy(cached_wrapper(*args_l, dims=dims, dtypes=dtypes))
     
         # Copy lru_cache attributes over too
         wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From 910c7cbdb2790a825ab782ffaa12954ab44f356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 11/49] fix: particle IDs were converted to floating point when
 read

---
 cosmic_profiles/gadget/readgadget.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 56dceca..f894808 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -100,8 +100,8 @@ def read_field(snapshot, block, ptype):
         raise Exception('block not implemented in readgadget!')
 
     if fformat=="binary":
-        array = readsnap.read_block(filename, block, parttype=ptype)/unit_fac
-        return array
+        array = readsnap.read_block(filename, block, parttype=ptype)
+        return array if block=="ID  " else array/unit_fac
     else:
         prefix = 'PartType%d/'%ptype
         f = h5py.File(filename, 'r')
@@ -112,7 +112,9 @@ def read_field(snapshot, block, ptype):
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-            array = f[prefix+suffix][:]/unit_fac
+            array = f[prefix+suffix][:]
+            if block!="ID  ": # dividing would turn IDs into floats, which cannot hold IDs above 2**53
+                array = array/unit_fac
         f.close()
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
@@ -166,7 +168,8 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Format I or format II Gadget files
         if fformat=="binary":
-            array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
+            field = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            array[offset:offset+Nall[pt]] = field if block=="ID  " else field/unit_fac
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
-- 
2.43.0


From e27fefdf1f10cbac860d52af64d1f3abb7036e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 12/49] fix: a missing dataset was replaced by the mass table
 whatever the block

---
 cosmic_profiles/gadget/readgadget.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index f894808..ea5e276 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -107,7 +107,7 @@ def read_field(snapshot, block, ptype):
         f = h5py.File(filename, 'r')
         
         if '%s%s'%(prefix,suffix) not in f:
-            if Masses[ptype] != 0.0:
+            if block=="MASS" and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
-- 
2.43.0


From 4cb302ccc444f4f81406d5d2153e0d28f0afcfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 13/49] fix: a snapshot file without any particle of a type
 could not be read

---
 cosmic_profiles/gadget/readgadget.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index ea5e276..a4370ff 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -106,7 +106,10 @@ def read_field(snapshot, block, ptype):
         prefix = 'PartType%d/'%ptype
         f = h5py.File(filename, 'r')
         
-        if '%s%s'%(prefix,suffix) not in f:
+        if '%s%s'%(prefix,suffix) not in f and Npart[ptype] == 0:
+            # Gadget writes no group for a particle type that is not in this file
+            array = np.zeros((0,3) if suffix in ["Coordinates","Velocities"] else 0, dtype=np.uint32 if block=="ID  " else np.float64)
+        elif '%s%s'%(prefix,suffix) not in f:
             if block=="MASS" and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
@@ -152,15 +155,15 @@ def read_block(snapshot, block, ptype, verbose=False):
         dtype=np.float64
     elif block=="ID  ":  
         unit_fac = 1
-        dtype=read_field(filename, block, ptype[0]).dtype
+        dtype=None # that of the IDs found in the files
     elif block=="VEL ":  
         unit_fac = v_target_over_curr
         dtype=np.dtype((np.float64,3))
     else: 
         raise Exception('block not implemented in readgadget!')
 
-    # Define the array containing the data
-    array = np.zeros(Ntotal, dtype=dtype)
+    # Define the list containing the data
+    fields = []
 
     # Do a loop over the different particle types
     offset = 0
@@ -169,12 +172,12 @@ def read_block(snapshot, block, ptype, verbose=False):
         # Format I or format II Gadget files
         if fformat=="binary":
             field = readsnap.read_block(snapshot, block, pt, verbose=verbose)
-            array[offset:offset+Nall[pt]] = field if block=="ID  " else field/unit_fac
+            fields.append(field if block=="ID  " else field/unit_fac)
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
         elif filenum==1:
-            array[offset:offset+Nall[pt]] = read_field(snapshot, block, pt)
+            fields.append(read_field(snapshot, block, pt))
             offset += Nall[pt]
 
         # Multi-file hdf5 snapshot
@@ -188,10 +191,17 @@ def read_block(snapshot, block, ptype, verbose=False):
 
                 # Read number of particles in the file and read the data
                 npart = header(filename).npart[pt]
-                array[offset:offset+npart] = read_field(filename, block, pt)
+                fields.append(read_field(filename, block, pt))
                 offset += npart   
 
     if offset!=Ntotal:  
         raise Exception('not all particles read!!!!')
+    if dtype is None: # Files without any particle of these types do not tell
+        dtype = np.result_type(*([field.dtype for field in fields if len(field)>0] or [field.dtype for field in fields]))
+    array = np.zeros(Ntotal, dtype=dtype)
+    offset = 0
+    for field in fields:
+        array[offset:offset+len(field)] = field
+        offset += len(field)
             
     return array
\ No newline at end of file
-- 
2.43.0


From 83d472a4c76acb2834ad2ace7efeb7dbd11a3f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 14/49] fix: short reads and incomplete snapshots gave repeated
 or uninitialised data

---
 cosmic_profiles/gadget/readgadget.py | 4 ++++
 cosmic_profiles/gadget/readsnap.py   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index a4370ff..45f0381 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -114,6 +114,8 @@ def read_field(snapshot, block, ptype):
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
+        elif len(f[prefix+suffix]) != Npart[ptype]:
+            raise Exception('Block %s of %s does not hold the number of particles that the header promises'%(block,filename))
         else:
             array = f[prefix+suffix][:]
             if block!="ID  ": # dividing would turn IDs into floats, which cannot hold IDs above 2**53
@@ -198,6 +200,8 @@ def read_block(snapshot, block, ptype, verbose=False):
         raise Exception('not all particles read!!!!')
     if dtype is None: # Files without any particle of these types do not tell
         dtype = np.result_type(*([field.dtype for field in fields if len(field)>0] or [field.dtype for field in fields]))
+    if sum(len(field) for field in fields) != Ntotal:
+        raise Exception('not all particles read!!!!')
     array = np.zeros(Ntotal, dtype=dtype)
     offset = 0
     for field in fields:
diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 5575124..d13eaff 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -321,6 +321,8 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
         else:
           allpartnum += nall[j]
 
+  species_start = np.copy(species_offset)
+
   # Define the array containing the information
   data = np.empty(allpartnum,dt)
 
@@ -364,6 +366,8 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     f.seek(offset + add_offset*np.dtype(dt).itemsize, os.SEEK_CUR)  
     curdat = np.fromfile(f,dtype=dt,count=actual_curpartnum) # Read data
     f.close()  
+    if len(curdat) != actual_curpartnum:
+      raise IOError("%s: block %s ends early, the file is truncated or could not be read"%(curfilename,block))
     if swap:  curdat.byteswap(True)  
           
     for j in range(6):
@@ -381,6 +385,9 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
 
     if single_file:  break
 
+  # The files together must hold what the header promises, otherwise data would be left undefined
+  if not single_file and np.any((species_offset-species_start)[actual_data_for_type] != nall[actual_data_for_type]):
+    raise IOError("%s: the files do not hold the number of particles that the header promises"%filename)
 
   if physical_velocities and block=="VEL " and redshift!=0:
     data *= math.sqrt(time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
-- 
2.43.0


From d7939d8020e6ca28f8ce3cfa3fea630d5f15c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 15/49] fix: 64-bit particle IDs of binary snapshots were cut
 to 32 bits

---
 cosmic_profiles/gadget/readsnap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index d13eaff..0431288 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -353,10 +353,10 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       
     offset,blocksize = find_block(curfilename,format,swap,block,block_num)
     
-    if i==0: # Fix data type for ID if long IDs are used
-      if block=="ID  ":
-        if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
-          dt = np.uint64 
+    if block=="ID  " and dt == np.uint32: # Fix data type for ID if long IDs are used
+      if curpartnum > 0 and blocksize == np.dtype(dt).itemsize*curpartnum * 2:
+        dt = np.uint64 
+        data = data.astype(dt)
         
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-- 
2.43.0


From 2e402d43be5f83d678ce48130d89b08c6694252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 16/49] fix: no block of a format 2 snapshot was ever found

---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 0431288..b2b549e 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -118,7 +118,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
     if format==2:
       f.seek(4, os.SEEK_CUR)
       curblock = f.read(4)
-      if (block == curblock):
+      if (block.encode() == curblock):
         found = True
       f.seek(8, os.SEEK_CUR)  
     else:
-- 
2.43.0


From 7a8ada0b9bf0b9a56931a6ca394443b6bf02f5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 17/49] fix: failed or short reads within a binary snapshot
 header went unnoticed

---
 cosmic_profiles/gadget/readsnap.py | 44 +++++++++++++++++-------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index b2b549e..9e26cff 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -29,6 +29,14 @@ import os
 import sys
 import math
   
+# ----- np.fromfile returns fewer items, silently, if the file ends or a read fails -----
+
+def read_items(f, dtype, count):
+  items = np.fromfile(f,dtype=dtype,count=count)
+  if len(items) != count:
+    raise IOError("%s: could not be read, the file may be truncated"%f.name)
+  return items
+
 # ----- Class for snapshot header ----- 
 
 class snapshot_header:
@@ -44,7 +52,7 @@ class snapshot_header:
       
     self.filename = filename  
     f = open(curfilename,'rb')    
-    blocksize = np.fromfile(f,dtype=np.int32,count=1)
+    blocksize = read_items(f,dtype=np.int32,count=1)
     if blocksize[0] == 8:
       swap = 0
       format = 2
@@ -69,19 +77,19 @@ class snapshot_header:
     if format==2:
       f.seek(16, os.SEEK_CUR)
     
-    self.npart = np.fromfile(f,dtype=np.int32,count=6)
-    self.massarr = np.fromfile(f,dtype=np.float64,count=6)
-    self.time = (np.fromfile(f,dtype=np.float64,count=1))[0]
-    self.redshift = (np.fromfile(f,dtype=np.float64,count=1))[0]
-    self.sfr = (np.fromfile(f,dtype=np.int32,count=1))[0]
-    self.feedback = (np.fromfile(f,dtype=np.int32,count=1))[0]
-    self.nall = np.fromfile(f,dtype=np.uint32,count=6)
-    self.cooling = (np.fromfile(f,dtype=np.int32,count=1))[0]
-    self.filenum = (np.fromfile(f,dtype=np.int32,count=1))[0]
-    self.boxsize = (np.fromfile(f,dtype=np.float64,count=1))[0]
-    self.omega_m = (np.fromfile(f,dtype=np.float64,count=1))[0]
-    self.omega_l = (np.fromfile(f,dtype=np.float64,count=1))[0]
-    self.hubble = (np.fromfile(f,dtype=np.float64,count=1))[0]
+    self.npart = read_items(f,dtype=np.int32,count=6)
+    self.massarr = read_items(f,dtype=np.float64,count=6)
+    self.time = (read_items(f,dtype=np.float64,count=1))[0]
+    self.redshift = (read_items(f,dtype=np.float64,count=1))[0]
+    self.sfr = (read_items(f,dtype=np.int32,count=1))[0]
+    self.feedback = (read_items(f,dtype=np.int32,count=1))[0]
+    self.nall = read_items(f,dtype=np.uint32,count=6)
+    self.cooling = (read_items(f,dtype=np.int32,count=1))[0]
+    self.filenum = (read_items(f,dtype=np.int32,count=1))[0]
+    self.boxsize = (read_items(f,dtype=np.float64,count=1))[0]
+    self.omega_m = (read_items(f,dtype=np.float64,count=1))[0]
+    self.omega_l = (read_items(f,dtype=np.float64,count=1))[0]
+    self.hubble = (read_items(f,dtype=np.float64,count=1))[0]
     
     if swap:
       self.npart.byteswap(True)
@@ -125,7 +133,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
       if curblock_num==block_num:
         found = True
         
-    curblocksize = (np.fromfile(f,dtype=np.uint32,count=1))[0]
+    curblocksize = (read_items(f,dtype=np.uint32,count=1))[0]
     if swap:
       curblocksize = curblocksize.byteswap()
     
@@ -148,7 +156,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
       offset = f.tell()
     else:
       f.seek(curblocksize, os.SEEK_CUR)
-      blocksize_check = (np.fromfile(f,dtype=np.uint32,count=1))[0]
+      blocksize_check = (read_items(f,dtype=np.uint32,count=1))[0]
       if swap: blocksize_check = blocksize_check.byteswap()
       if (curblocksize != blocksize_check):
         print("something wrong")
@@ -364,10 +372,8 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     
     f = open(curfilename,'rb')
     f.seek(offset + add_offset*np.dtype(dt).itemsize, os.SEEK_CUR)  
-    curdat = np.fromfile(f,dtype=dt,count=actual_curpartnum) # Read data
+    curdat = read_items(f,dtype=dt,count=actual_curpartnum) # Read data
     f.close()  
-    if len(curdat) != actual_curpartnum:
-      raise IOError("%s: block %s ends early, the file is truncated or could not be read"%(curfilename,block))
     if swap:  curdat.byteswap(True)  
           
     for j in range(6):
-- 
2.43.0


From c8554ac656cf158c016adbb98234c2447dd0b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 18/49] fix: relative CAT_DEST and VIZ_DEST were created next
 to the module, not in the working directory

---
 cosmic_profiles/common/cosmic_base_class.pyx        |  8 ++++----
 cosmic_profiles/dens_profs/dens_profs_tools.py      |  2 +-
 cosmic_profiles/shape_profs/shape_profs_classes.pyx |  4 ++--
 cosmic_profiles/shape_profs/shape_profs_tools.py    | 10 +++++-----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index dcb1a96..ced8f9d 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -468,7 +468,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.CAT_DEST, exist_ok=True)
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -522,7 +522,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.CAT_DEST, exist_ok=True)
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -583,7 +583,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.CAT_DEST, exist_ok=True)
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -641,7 +641,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.CAT_DEST, exist_ok=True)
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8889f1a..1f12c4b 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -155,7 +155,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         best_fit_dict = getModelParsDict(best_fit, method['profile'])
         del r200
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok=True)
         
         # Go to outgoing unit system
         l_internal, m_internal, vel_internal = config.getLMVInternal()
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index ded0520..29a75c0 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -165,7 +165,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
                                 
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.VIZ_DEST, exist_ok=True)
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
@@ -260,7 +260,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
         
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            os.makedirs(self.VIZ_DEST, exist_ok=True)
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index bc6b308..2d1075f 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -149,7 +149,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         ERROR_METHOD = "median_quantile"
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok=True)
         
         # Q
         plt.figure()
@@ -278,7 +278,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok=True)
         
         # T counting
         plt.figure()
@@ -333,7 +333,7 @@ def getGlobalTHist(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s,
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok=True)
         
         # T counting
         plt.figure()
@@ -379,7 +379,7 @@ def getGlobalEpsHist(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SN
     
     if rank == 0:
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok=True)
         
         eps = getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER)
         plt.figure()
@@ -424,7 +424,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        os.makedirs(VIZ_DEST, exist_ok=True)
         
         # Direct fitting result prep, needed for both D and A
         eps = getEpsilon(idx_cat_new, obj_size_new, xyz, masses, L_BOX, CENTER)
-- 
2.43.0


From bc7c9ab4b16592670263aa7eee0dabd8655222ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 19/49] fix: a dumped catalogue with one radius was reloaded as
 one object

---
 cosmic_profiles/common/cosmic_base_class.pyx | 114 ++++++-------------
 1 file changed, 36 insertions(+), 78 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index ced8f9d..f1f4a96 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -118,14 +118,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -133,19 +133,10 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
+                if d.size != 0:
                     minor = minor.reshape(minor.shape[0], -1, 3)
                     inter = inter.reshape(inter.shape[0], -1, 3)
                     major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
                 else:
                     minor = np.array([])
                     inter = np.array([])
@@ -191,14 +182,14 @@ cdef class CosmicBase:
             
             if os.path.exists('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
                 
-                d = np.loadtxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                minor = np.loadtxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                inter = np.loadtxt('{0}/inter_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                major = np.loadtxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                obj_masses = np.loadtxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=1)
+                obj_centers = np.loadtxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -206,22 +197,10 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if len(d.shape) != 0 and d.shape[0] != 0 and d.ndim == 1:
+                if d.size != 0:
                     minor = minor.reshape(minor.shape[0], -1, 3)
                     inter = inter.reshape(inter.shape[0], -1, 3)
                     major = major.reshape(major.shape[0], -1, 3)
-                    d = d.reshape(-1, 1)
-                    q = q.reshape(-1, 1)
-                    s = s.reshape(-1, 1)
-                elif d.ndim == 0: # 1 object. Even in case of 0 objects, ndim will be 1
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, 1)
-                    q = q.reshape(1, 1)
-                    s = s.reshape(1, 1)
                 else:
                     assert d.size == 0
                     minor = np.array([])
@@ -287,14 +266,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -302,19 +281,10 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
+                if d.size != 0:
                     minor = minor.reshape(minor.shape[0], -1, 3)
                     inter = inter.reshape(inter.shape[0], -1, 3)
                     major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
                 else:
                     minor = np.array([])
                     inter = np.array([])
@@ -363,14 +333,14 @@ cdef class CosmicBase:
             
             if os.path.exists('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
                 
-                d = np.loadtxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                minor = np.loadtxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                inter = np.loadtxt('{0}/inter_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                major = np.loadtxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                obj_masses = np.loadtxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=1)
+                obj_centers = np.loadtxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -378,22 +348,10 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if len(d.shape) != 0 and d.shape[0] != 0 and d.ndim == 1:
+                if d.size != 0:
                     minor = minor.reshape(minor.shape[0], -1, 3)
                     inter = inter.reshape(inter.shape[0], -1, 3)
                     major = major.reshape(major.shape[0], -1, 3)
-                    d = d.reshape(-1, 1)
-                    q = q.reshape(-1, 1)
-                    s = s.reshape(-1, 1)
-                elif d.ndim == 0: # 1 object. Even in case of 0 objects, ndim will be 1
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, 1)
-                    q = q.reshape(1, 1)
-                    s = s.reshape(1, 1)
                 else:
                     assert d.size == 0
                     minor = np.array([])
-- 
2.43.0


From 41c0fa816af2baad91d981af30a9099d0457cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 20/49] fix: a dump that was cut short was later taken for a
 complete catalogue

---
 cosmic_profiles/common/cosmic_base_class.pyx | 28 +++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index f1f4a96..16268c5 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -427,7 +427,10 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             os.makedirs(self.CAT_DEST, exist_ok=True)
-            np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
+            d_file = '{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)
+            # d_file marks a complete catalogue: it goes first and comes back, as a whole, last
+            if os.path.exists(d_file):
+                os.remove(d_file)
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
             np.savetxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
@@ -435,6 +438,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt(d_file+'.part', d, fmt='%1.7e')
+            os.replace(d_file+'.part', d_file)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
         
     def _dumpShapeCatGlobalBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -481,7 +486,10 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             os.makedirs(self.CAT_DEST, exist_ok=True)
-            np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
+            d_file = '{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)
+            # d_file marks a complete catalogue: it goes first and comes back, as a whole, last
+            if os.path.exists(d_file):
+                os.remove(d_file)
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
             np.savetxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
@@ -489,6 +497,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt(d_file+'.part', d, fmt='%1.7e')
+            os.replace(d_file+'.part', d_file)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatLocalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced, bint shell_based):
@@ -542,7 +552,10 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             os.makedirs(self.CAT_DEST, exist_ok=True)
-            np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
+            d_file = '{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)
+            # d_file marks a complete catalogue: it goes first and comes back, as a whole, last
+            if os.path.exists(d_file):
+                os.remove(d_file)
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
             np.savetxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
@@ -550,6 +563,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt(d_file+'.part', d, fmt='%1.7e')
+            os.replace(d_file+'.part', d_file)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatGlobalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -600,7 +615,10 @@ cdef class CosmicBase:
             
             # Create CAT_DEST if not available
             os.makedirs(self.CAT_DEST, exist_ok=True)
-            np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
+            d_file = '{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)
+            # d_file marks a complete catalogue: it goes first and comes back, as a whole, last
+            if os.path.exists(d_file):
+                os.remove(d_file)
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
             np.savetxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
@@ -608,6 +626,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            np.savetxt(d_file+'.part', d, fmt='%1.7e')
+            os.replace(d_file+'.part', d_file)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _plotShapeProfsBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, bint reduced, bint shell_based, int nb_bins, str suffix = ''):
-- 
2.43.0


From 31f3153d7af1d257292b6572e696caefd0315730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 21/49] fix: a dumped catalogue was returned for other objects,
 other parameters and in other units

---
 cosmic_profiles/common/cosmic_base_class.pyx | 47 ++++++++++++--------
 cosmic_profiles/common/python_routines.py    | 34 +++++++++++++-
 2 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 16268c5..c7dc0f0 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -4,7 +4,7 @@
 
 import numpy as np
 cimport cython
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat
+from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat, catRequest, unitsOfDumpedCat
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs
 from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs
@@ -117,7 +117,9 @@ cdef class CosmicBase:
         """
         if rank == 0:
             
-            if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
+            request = catRequest(r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, self.CENTER, self.L_BOX)
+            units = unitsOfDumpedCat('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), request)
+            if units is not None:
                 d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
@@ -128,8 +130,8 @@ cdef class CosmicBase:
                 obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
-                l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-                m_curr_over_target = m_internal/config.OutUnitMass_in_g
+                l_curr_over_target = l_internal/units[0]
+                m_curr_over_target = m_internal/units[1]
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
@@ -180,7 +182,9 @@ cdef class CosmicBase:
             (number_of_objs, 3) double array, (number_of_objs,) double array"""
         if rank == 0:
             
-            if os.path.exists('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
+            request = catRequest(r200.base, idx_cat.base, obj_size.base, IT_TOL, IT_WALL, IT_MIN, reduced, self.CENTER, self.L_BOX)
+            units = unitsOfDumpedCat('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), request)
+            if units is not None:
                 
                 d = np.loadtxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 q = np.loadtxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
@@ -192,8 +196,8 @@ cdef class CosmicBase:
                 obj_centers = np.loadtxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
-                l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-                m_curr_over_target = m_internal/config.OutUnitMass_in_g
+                l_curr_over_target = l_internal/units[0]
+                m_curr_over_target = m_internal/units[1]
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
@@ -265,7 +269,9 @@ cdef class CosmicBase:
         """
         if rank == 0:
             
-            if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
+            request = catRequest(r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, self.CENTER, self.L_BOX)
+            units = unitsOfDumpedCat('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), request)
+            if units is not None:
                 d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
@@ -276,8 +282,8 @@ cdef class CosmicBase:
                 obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
-                l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-                m_curr_over_target = m_internal/config.OutUnitMass_in_g
+                l_curr_over_target = l_internal/units[0]
+                m_curr_over_target = m_internal/units[1]
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
@@ -331,7 +337,9 @@ cdef class CosmicBase:
             (number_of_objs, 3) double array, (number_of_objs,) double array"""
         if rank == 0:
             
-            if os.path.exists('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
+            request = catRequest(r200.base, idx_cat.base, obj_size.base, IT_TOL, IT_WALL, IT_MIN, reduced, self.CENTER, self.L_BOX)
+            units = unitsOfDumpedCat('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), request)
+            if units is not None:
                 
                 d = np.loadtxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 q = np.loadtxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
@@ -343,8 +351,8 @@ cdef class CosmicBase:
                 obj_centers = np.loadtxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
-                l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-                m_curr_over_target = m_internal/config.OutUnitMass_in_g
+                l_curr_over_target = l_internal/units[0]
+                m_curr_over_target = m_internal/units[1]
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
@@ -409,7 +417,6 @@ cdef class CosmicBase:
         """
         if rank == 0:
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatLocalBase(xyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, suffix)
-            del idx_cat
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
@@ -438,7 +445,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
-            np.savetxt(d_file+'.part', d, fmt='%1.7e')
+            request = catRequest(r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, self.CENTER, self.L_BOX)
+            np.savetxt(d_file+'.part', d, fmt='%1.7e', header='{0} {1!r} {2!r}'.format(request, float(config.OutUnitLength_in_cm), float(config.OutUnitMass_in_g)))
             os.replace(d_file+'.part', d_file)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
         
@@ -497,7 +505,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
-            np.savetxt(d_file+'.part', d, fmt='%1.7e')
+            request = catRequest(r200.base, idx_cat.base, obj_size.base, IT_TOL, IT_WALL, IT_MIN, reduced, self.CENTER, self.L_BOX)
+            np.savetxt(d_file+'.part', d, fmt='%1.7e', header='{0} {1!r} {2!r}'.format(request, float(config.OutUnitLength_in_cm), float(config.OutUnitMass_in_g)))
             os.replace(d_file+'.part', d_file)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
@@ -563,7 +572,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
-            np.savetxt(d_file+'.part', d, fmt='%1.7e')
+            request = catRequest(r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, self.CENTER, self.L_BOX)
+            np.savetxt(d_file+'.part', d, fmt='%1.7e', header='{0} {1!r} {2!r}'.format(request, float(config.OutUnitLength_in_cm), float(config.OutUnitMass_in_g)))
             os.replace(d_file+'.part', d_file)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
@@ -626,7 +636,8 @@ cdef class CosmicBase:
             np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
             np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
             np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
-            np.savetxt(d_file+'.part', d, fmt='%1.7e')
+            request = catRequest(r200.base, idx_cat.base, obj_size.base, IT_TOL, IT_WALL, IT_MIN, reduced, self.CENTER, self.L_BOX)
+            np.savetxt(d_file+'.part', d, fmt='%1.7e', header='{0} {1!r} {2!r}'.format(request, float(config.OutUnitLength_in_cm), float(config.OutUnitMass_in_g)))
             os.replace(d_file+'.part', d_file)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 0844f30..ef6e7d0 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -2,6 +2,8 @@
 # -*- coding: utf-8 -*-
 
 import time
+import os
+import hashlib
 from scipy.spatial import cKDTree
 from scipy.interpolate import interp1d
 import matplotlib.pyplot as plt
@@ -696,4 +698,34 @@ def checkDensFitMethod(method):
     if 'min_method' in method:
         assert method['min_method'] == 'Nelder-Mead' or method['min_method'] == 'L-BFGS-B' or method['min_method'] == 'TNC' or method['min_method'] == 'SLSQP' or method['min_method'] == 'Powell' or method['min_method'] == 'trust-constr', "Note: method['min_method'] must be one of `Nelder-Mead`, `L-BFGS-B`, `TNC`, `SLSQP`, `Powell`, and `trust-constr` methods"
     
-default_katz_config = {'ROverR200': np.logspace(-1.5,0,70), 'IT_TOL': 1e-2, 'IT_WALL': 100, 'IT_MIN': 10, 'REDUCED': False, 'SHELL_BASED': False}
\ No newline at end of file
+default_katz_config = {'ROverR200': np.logspace(-1.5,0,70), 'IT_TOL': 1e-2, 'IT_WALL': 100, 'IT_MIN': 10, 'REDUCED': False, 'SHELL_BASED': False}
+
+def catRequest(*args):
+    """ Fingerprint of the arguments a shape catalogue is calculated from
+    
+    :param args: arrays, numbers and strings
+    :return: fingerprint, without blanks
+    :rtype: string"""
+    digest = hashlib.sha1()
+    for arg in args:
+        digest.update(np.ascontiguousarray(arg).tobytes() if isinstance(arg, np.ndarray) else repr(arg).encode())
+        digest.update(b'|')
+    return digest.hexdigest()
+
+def unitsOfDumpedCat(d_file, request):
+    """ Find out whether a shape catalogue that answers ``request`` has been dumped
+    
+    :param d_file: name of the file that completes the dumped catalogue
+    :type d_file: string
+    :param request: fingerprint as returned by ``catRequest()``
+    :type request: string
+    :return: length unit in cm and mass unit in g of the dumped catalogue, 
+        None if there is none or if it has been dumped for other objects or parameters
+    :rtype: 2-tuple of floats"""
+    if not os.path.exists(d_file):
+        return None
+    with open(d_file) as f:
+        words = f.readline().split()
+    if len(words) != 4 or words[0] != '#' or words[1] != request:
+        return None
+    return float(words[2]), float(words[3])
-- 
2.43.0


From 1af80420c4ee96ffdc5e77914a1e86d2fabba9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 22/49] fix: mass conversions look up the internal mass unit
 under its name, E+10Msun/h

---
 cosmic_profiles/common/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 24264c4..0da9c14 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -166,7 +166,7 @@ def MassInternalToOut(mass_arr):
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10M_sun/h']/OutUnitMass_in_g)
+    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -196,7 +196,7 @@ def MassInToInternal(mass_arr):
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10M_sun/h'])
+    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
-- 
2.43.0


From adf4028d15bff1cec30a563b0c6662ff09486cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 23/49] fix: a rejected unit-system change leaves little_h as
 it was

---
 cosmic_profiles/common/config.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 0da9c14..f45229e 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -9,8 +9,11 @@ size = comm.Get_size()
 
 def getAdmissibleLMV():
     global LittleH
-    length_in_cm_d = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'kpc/h': 3.085678e21/LittleH, 'Mpc/h': 3.085678e24/LittleH, 'Gpc/h': 3.085678e27/LittleH, 'pc': 3.085678e18, 'pc/h': 3.085678e18/LittleH}
-    mass_in_g_d = {'Msun': 1.989e33, 'E+10Msun': 1.989e43, 'Msun/h': 1.989e33/LittleH, 'E+10Msun/h': 1.989e43/LittleH}
+    return getAdmissibleLMVFor(LittleH)
+
+def getAdmissibleLMVFor(little_h):
+    length_in_cm_d = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'kpc/h': 3.085678e21/little_h, 'Mpc/h': 3.085678e24/little_h, 'Gpc/h': 3.085678e27/little_h, 'pc': 3.085678e18, 'pc/h': 3.085678e18/little_h}
+    mass_in_g_d = {'Msun': 1.989e33, 'E+10Msun': 1.989e43, 'Msun/h': 1.989e33/little_h, 'E+10Msun/h': 1.989e43/little_h}
     velocity_in_cm_per_s_d = {'km/s': 1e5}
     return length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d
 
@@ -101,9 +104,8 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     global InUnitMass_in_g
     global InUnitVelocity_in_cm_per_s
     global LittleH
-    LittleH = little_h
     
-    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMVFor(little_h)
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -113,6 +115,7 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     if type(velocity_in_cm_per_s) == str:
         assert velocity_in_cm_per_s in velocity_in_cm_per_s_d.keys(), "Unit not allowed for velocity_in_cm_per_s. Choose from {} or provide vel in cm/s".format(list(velocity_in_cm_per_s_d.keys()))
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
+    LittleH = little_h # Only now is it clear that nothing has been rejected
     InUnitLength_in_cm = length_in_cm
     InUnitMass_in_g = mass_in_g
     InUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
@@ -133,9 +136,8 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     global OutUnitMass_in_g
     global OutUnitVelocity_in_cm_per_s
     global LittleH
-    LittleH = little_h
     
-    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMVFor(little_h)
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -145,6 +147,7 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     if type(velocity_in_cm_per_s) == str:
         assert velocity_in_cm_per_s in velocity_in_cm_per_s_d.keys(), "Unit not allowed for velocity_in_cm_per_s. Choose from {} or provide vel in cm/s".format(list(velocity_in_cm_per_s_d.keys()))
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
+    LittleH = little_h # Only now is it clear that nothing has been rejected
     OutUnitLength_in_cm = length_in_cm
     OutUnitMass_in_g = mass_in_g
     OutUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
-- 
2.43.0


From 940ec8dd22ec281734b5da2420fbb9ee43b9fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 24/49] fix: Gadget objects read their files again with
 whatever input units were in force

---
 .../shape_profs/shape_profs_classes.pyx       | 42 ++++++-------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 29a75c0..0188742 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -537,6 +537,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
     cdef str GROUP_DEST
     cdef str RVIR_OR_R200
     cdef str OBJ_TYPE
+    cdef object IN_VELOCITY # Velocity unit the files were declared to be in at construction
     
     def __init__(self, SNAP_DEST, GROUP_DEST, OBJ_TYPE, SNAP, VIZ_DEST, CAT_DEST, RVIR_OR_R200 = 'Rvir', MIN_NUMBER_PTCS = 200, CENTER = 'mode'):
         """
@@ -564,6 +565,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         self.GROUP_DEST = GROUP_DEST
         self.RVIR_OR_R200 = RVIR_OR_R200
         self.OBJ_TYPE = OBJ_TYPE
+        self.IN_VELOCITY = config.InUnitVelocity_in_cm_per_s
         SUFFIX = '_{}_'.format(OBJ_TYPE)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         l_curr_over_target = config.InUnitLength_in_cm/l_internal
@@ -733,8 +735,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :return xyz, masses: positions in config.OutUnitLength_in_cm and masses 
             in config.OutUnitMass_in_g
         :rtype: (N2,3) floats, (N2,) floats"""
-        xyz = readgadget.read_block(self.SNAP_DEST,"POS ",ptype=[getPartType(self.OBJ_TYPE)])
-        masses = readgadget.read_block(self.SNAP_DEST,"MASS",ptype=[getPartType(self.OBJ_TYPE)])
+        xyz, masses = self._getXYZMasses()
         if rank == 0:
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -749,12 +750,10 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         
         :return xyz, masses: positions in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N2,3) floats, (N2,) floats"""
-        xyz = readgadget.read_block(self.SNAP_DEST,"POS ",ptype=[getPartType(self.OBJ_TYPE)])
-        masses = readgadget.read_block(self.SNAP_DEST,"MASS",ptype=[getPartType(self.OBJ_TYPE)])
+        # As read at construction: the files are not read again, the input units may have changed
         if rank == 0:
-            return xyz, masses
+            return self.xyz.base, self.masses.base
         else:
-            del xyz; del masses
             return None, None
     
     def getVelXYZ(self): # Public Method
@@ -762,7 +761,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         
         :return velxyz: velocity array in config.OutUnitVelocity_in_cm_per_s
         :rtype: (N2,3) floats"""
-        velxyz = readgadget.read_block(self.SNAP_DEST,"VEL ",ptype=[getPartType(self.OBJ_TYPE)])
+        velxyz = self._getVelXYZ()
         if rank == 0:
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             v_curr_over_target = vel_internal/config.OutUnitVelocity_in_cm_per_s
@@ -778,7 +777,8 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :rtype: (N2,3) floats"""
         velxyz = readgadget.read_block(self.SNAP_DEST,"VEL ",ptype=[getPartType(self.OBJ_TYPE)])
         if rank == 0:
-            return velxyz
+            # The files are in the units in force at construction, but were converted from those in force now
+            return velxyz*(self.IN_VELOCITY/config.InUnitVelocity_in_cm_per_s)
         else:
             del velxyz
             return None
@@ -789,21 +789,12 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :return obj_r200: R200 value of parent halos in config.OutUnitLength_in_cm
         :rtype: (N1,) floats"""
         
-        # Import hdf5 data
-        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE))
-        # Raise Error message if empty
-        if len(nb_shs) == 0:
-            raise ValueError("No subhalos found in HDF5 files.")
+        # As read at construction: the files are not read again, the input units may have changed
         if rank == 0:
-            # Construct catalogue
-            obj_cat, obj_r200, obj_size = calcObjCat(nb_shs, sh_len, fof_sizes, group_r200, self.MIN_NUMBER_PTCS)
-            del nb_shs; del sh_len; del fof_sizes; del group_r200; del obj_cat; del obj_size
-            self.r200 = obj_r200
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-            return obj_r200*l_curr_over_target
+            return self.r200.base*l_curr_over_target
         else:
-            del nb_shs; del sh_len; del fof_sizes; del group_r200
             return None
         
     def getIdxCat(self): # Public Method
@@ -813,19 +804,10 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             obj_size: number of particles in each object
         :rtype: (N3) integers and (N1,) integers"""
         
-        # Import hdf5 data
-        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE))
-        # Raise Error message if empty
-        if len(nb_shs) == 0:
-            raise ValueError("No subhalos found in HDF5 files.")
+        # As read at construction: the files are not read again, the input units may have changed
         if rank == 0:
-            # Construct catalogue
-            obj_cat, obj_r200, obj_size = calcObjCat(nb_shs, sh_len, fof_sizes, group_r200, self.MIN_NUMBER_PTCS)
-            self.r200 = obj_r200
-            del nb_shs; del sh_len; del fof_sizes; del group_r200
-            return obj_cat, obj_size
+            return self.idx_cat.base.copy(), self.obj_size.base.copy()
         else:
-            del nb_shs; del sh_len; del fof_sizes; del group_r200
             return None, None
         
     def getObjInfoGadget(self): # Public Method
-- 
2.43.0


From 707d90ccd44c1688fa9f024e2c197a9cf03667e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 25/49] fix: a profile that cannot be fitted was reported with
 arbitrary parameters as converged

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 1f12c4b..5efdd1d 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -261,6 +261,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     # Discard nan values in median
     R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
     median = median[~np.isnan(median)]
+    fittable = median.shape[0] > 0 and r200 > 0 and bool(np.all((median > 0) & np.isfinite(median)))
     # Set initial guess and minimize scalar function
     try:
         if method['profile'] == 'einasto':
@@ -317,6 +318,8 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
             iguess = np.array([0.1, r200/5])
             res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
+        if not (fittable and np.isfinite(res.fun)): # The minimizer returns an arbitrary point in this case
+            raise ValueError("Density profile cannot be fitted.")
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
         best_fit = iguess*np.nan
-- 
2.43.0


From 6b20c7cbbac359e4fbddb8d0388f39602114a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 26/49] fix: plotLocalEpsHist always failed, and would have
 overwritten the global histogram

---
 cosmic_profiles/common/python_routines.py        | 8 ++++----
 cosmic_profiles/shape_profs/shape_profs_tools.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index ef6e7d0..da0f237 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -596,15 +596,15 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
     for idx in range(len(obj_size_in)): # Calculate centers of objects
         xyz_ = respectPBCNoRef(xyz[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], L_BOX)
         if CENTER == 'mode':
-            centers.base[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
+            centers[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
         else:
-            centers.base[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
+            centers[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
     remnant = []
     for idx in range(len(obj_size_in)):
         obj = cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]
-        xyz_ = respectPBCNoRef(xyz[obj])
+        xyz_ = respectPBCNoRef(xyz[obj], L_BOX)
         tree = cKDTree(xyz_, leafsize=2, balanced_tree = False)
-        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, n_jobs=-1)
+        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, workers=-1)
         if all_nn_idxs != []:
             cat_out = np.hstack((cat_out, np.array(obj)[all_nn_idxs]))
             obj_size_out[idx] = len(all_nn_idxs)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 2d1075f..a0a89c8 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -421,7 +421,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
     
     if rank == 0:
         # Update h_cat so that only particles within r200 are considered
-        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
+        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
         os.makedirs(VIZ_DEST, exist_ok=True)
@@ -434,4 +434,4 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         plt.ylabel('Normalized Bin Count')
         plt.grid(axis='y', alpha=0.75)
         plt.xlim(0.0, 1.0)
-        plt.savefig("{0}/EpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
\ No newline at end of file
+        plt.savefig("{0}/LocalEpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
\ No newline at end of file
-- 
2.43.0


From 623e462011a5c649295a1989e22a34c7b17f302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 27/49] fix: density plots of one object type overwrote those
 of another

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 5efdd1d..4105594 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -183,7 +183,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.xlabel(r"$r/R_{200}$")
         plt.ylabel(r"$\rho$ [${}$]".format(dens_label))
         plt.legend(loc="upper right", fontsize="x-small")
-        plt.savefig("{}/RhoProf_{}.pdf".format(VIZ_DEST, SNAP), bbox_inches="tight")
+        plt.savefig("{}/RhoProf{}{}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
             obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
@@ -208,7 +208,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
             plt.xlabel(r"$r/R_{200}$")
             plt.ylabel(r"$\rho$ [${}$]".format(dens_label))
             plt.legend(loc="upper right", fontsize="x-small")
-            plt.savefig("{}/RhoProfM{:.2f}_{}.pdf".format(VIZ_DEST, np.float32(np.log10(max_min_m[group])), SNAP), bbox_inches="tight")
+            plt.savefig("{}/RhoProfM{:.2f}{}{}.pdf".format(VIZ_DEST, np.float32(np.log10(max_min_m[group])), suffix, SNAP), bbox_inches="tight")
         del y; del err_low; del err_high
         return
 
-- 
2.43.0


From bb521b4dccaa2d89f464c11f74093d975e55e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 28/49] fix: mass-split density plots left out the objects at
 the edges of the mass bins

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 4105594..b34e160 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -131,7 +131,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         
         # Mass splitting
         max_min_m, obj_m_groups, obj_center_groups, idx_groups = M_split(MASS_UNIT*obj_masses, obj_centers, start_time, NB_BINS = nb_bins)
-        del obj_centers; del obj_center_groups; del idx_groups
+        del obj_centers; del obj_center_groups
         print_status(rank, start_time, "The number of objects considered is {0}".format(r200s.shape[0]))
         print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(np.sum(np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[0] and obj_masses[i]*MASS_UNIT < max_min_m[1]) else 0 for i in range(r200s.shape[0])]))))
         print_status(rank, start_time, "The number of mass bins is {0}".format(len(obj_m_groups)))
@@ -186,7 +186,8 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.savefig("{}/RhoProf{}{}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
-            obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
+            obj_pass_m = np.zeros((r200s.shape[0],), dtype = np.int32)
+            obj_pass_m[idx_groups[group]] = 1
             # Find profile median
             y = [list(dens_profs[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200.shape[0])]
             prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
-- 
2.43.0


From bfd2c9113abe11ba33bd7da4aa7c1d6770a20bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:05 +0000
Subject: [PATCH 29/49] fix: plotDensProfs accepted profiles that do not match
 the radii or objects

---
 cosmic_profiles/common/cosmic_base_class.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index c7dc0f0..f159aaf 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -1098,6 +1098,8 @@ cdef class CosmicBase:
         print_status(rank,self.start_time,'Starting plotDensProfs() with snap {0}'.format(self.SNAP))
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `plotDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
+        if len(dens_profs_fit) != len(obj_numbers) or dens_profs.shape[1] != len(r_over_r200) or dens_profs_fit.shape[1] != len(r_over_r200_fit):
+            raise ValueError("The density profiles handed over to the `plotDensProfs()` function are inconsistent with the `obj_numbers` argument or with the radii.")
         if type(obj_numbers) == list:
             obj_numbers = np.int32(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
-- 
2.43.0


From afb5d040fa574c9f9d5a9146eb3da54c6744ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 30/49] fix: object numbers that are no integers were cut to
 integers instead of refused

---
 cosmic_profiles/common/cosmic_base_class.pyx  | 12 +++----
 cosmic_profiles/common/python_routines.py     | 14 +++++++-
 .../dens_profs/dens_profs_classes.pyx         |  6 ++--
 .../shape_profs/shape_profs_classes.pyx       | 32 +++++++++----------
 4 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index f159aaf..e23c5e8 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -4,7 +4,7 @@
 
 import numpy as np
 cimport cython
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat, catRequest, unitsOfDumpedCat
+from cosmic_profiles.common.python_routines import print_status, isValidSelection, toSelection, getSubSetIdxCat, catRequest, unitsOfDumpedCat
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs
 from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs
@@ -921,7 +921,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -965,7 +965,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -1009,7 +1009,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `fitDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1055,7 +1055,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `estConcentrations()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1101,7 +1101,7 @@ cdef class CosmicBase:
         if len(dens_profs_fit) != len(obj_numbers) or dens_profs.shape[1] != len(r_over_r200) or dens_profs_fit.shape[1] != len(r_over_r200_fit):
             raise ValueError("The density profiles handed over to the `plotDensProfs()` function are inconsistent with the `obj_numbers` argument or with the radii.")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index da0f237..7ecd6a8 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -611,6 +611,18 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
             remnant.append(idx)            
     return cat_out, obj_size_out[remnant]
 
+def toSelection(obj_numbers):
+    """ Turn list of object numbers into array, leaving the numbers as they are
+    
+    :param obj_numbers: list of object indices of interest
+    :type obj_numbers: list of int
+    :return: object indices of interest
+    :rtype: (N,) integers, if ``obj_numbers`` holds integers only"""
+    selection = np.array(obj_numbers)
+    if selection.dtype.kind == 'f' and np.all(selection == selection.round()) and np.all(np.abs(selection) < 2**31):
+        return np.int32(selection)
+    return selection
+
 def isValidSelection(obj_numbers, nb_objects):
     """ Trivial function to check whether selection of objects is valid
     
@@ -625,7 +637,7 @@ def isValidSelection(obj_numbers, nb_objects):
     if len(obj_numbers) == 0:
         raise ValueError("Choose at least one halo for your object selection (obj_numbers). Please provide a list of halo indices.")
     # Check for non-integers
-    if len(np.where(obj_numbers != obj_numbers.round())[0]) != 0:
+    if obj_numbers.dtype.kind not in 'iu':
         raise ValueError("Please supply integers only for your object selection!")
     # Check for negative integers
     if len(np.where(obj_numbers < 0)[0]) != 0:
diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 8f78968..9706222 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -5,7 +5,7 @@
 import numpy as np
 from cosmic_profiles.common.cosmic_base_class cimport CosmicBase
 from cosmic_profiles.common import config
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config, checkDensFitMethod
+from cosmic_profiles.common.python_routines import print_status, isValidSelection, toSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config, checkDensFitMethod
 from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
 from cosmic_profiles.gadget.gen_catalogues import calcObjCat
 from cosmic_profiles.gadget import readgadget
@@ -103,7 +103,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in config.OutUnitLength_in_cm and masses in config.OutUnitMass_in_g
         :rtype: structured array, containing (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -128,7 +128,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 0188742..5b5dba7 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -16,7 +16,7 @@ import subprocess
 import os
 currentdir = os.path.dirname(os.path.abspath(inspect.getfile(inspect.currentframe())))
 from cosmic_profiles.dens_profs.dens_profs_classes cimport DensProfsBase
-from cosmic_profiles.common.python_routines import print_status, set_axes_equal, fibonacci_ellipsoid, respectPBCNoRef, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config
+from cosmic_profiles.common.python_routines import print_status, set_axes_equal, fibonacci_ellipsoid, respectPBCNoRef, isValidSelection, toSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getGlobalEpsHist, getLocalEpsHist
 from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
@@ -86,7 +86,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         print_status(rank,self.start_time,'Starting getShapeCatLocal() with snap {0}'.format(self.SNAP))
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -121,7 +121,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             3 x (number_of_objs, 3) double arrays"""
         print_status(rank,self.start_time,'Starting getShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -153,7 +153,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizLocalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         D_BINS = ROverR200.shape[0]-1
         if rank == 0:
@@ -249,7 +249,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizGlobalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -325,7 +325,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotGlobalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -343,7 +343,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotLocalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -363,7 +363,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotLocalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -384,7 +384,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotGlobalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -403,7 +403,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotShapeProfs() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -420,7 +420,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -437,7 +437,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -609,7 +609,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -651,7 +651,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -686,7 +686,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
@@ -712,7 +712,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = toSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
-- 
2.43.0


From 0b6b141e1202fd776752a07ed7dc831ae4acc912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 31/49] fix: genHalo took an unknown profile for NFW

---
 cosmic_profiles/mock_tools/mock_halo_gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/mock_tools/mock_halo_gen.py b/cosmic_profiles/mock_tools/mock_halo_gen.py
index 9dba9f6..a084302 100644
--- a/cosmic_profiles/mock_tools/mock_halo_gen.py
+++ b/cosmic_profiles/mock_tools/mock_halo_gen.py
@@ -36,6 +36,8 @@ def genHalo(tot_mass, res, model_pars, profile, a, b, c):
         mass_ptc: mass of each DM ptc in units of M_sun/h, rho_s: ``rho_s`` parameter in profile model
     :rtype: 3 (N,) float arrays, 2 floats
     """
+    if profile not in ('einasto', 'alpha_beta_gamma', 'hernquist', 'nfw'):
+        raise ValueError("The profile should be one of `einasto`, `alpha_beta_gamma`, `hernquist`, `nfw`.")
     print('Starting genHalo()')
         
     if rank == 0:
-- 
2.43.0


From 08fd8278bf4c421dea6c100588b6874362b36075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 32/49] fix: genHalo wrote rho_s into the caller's dictionary

---
 cosmic_profiles/mock_tools/mock_halo_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/mock_tools/mock_halo_gen.py b/cosmic_profiles/mock_tools/mock_halo_gen.py
index a084302..b4c74ec 100644
--- a/cosmic_profiles/mock_tools/mock_halo_gen.py
+++ b/cosmic_profiles/mock_tools/mock_halo_gen.py
@@ -60,7 +60,7 @@ def genHalo(tot_mass, res, model_pars, profile, a, b, c):
                 r_s = model_pars['r_s']
                 return 4*np.pi*r**2/((r/r_s)*(1+r/r_s)**2)
         rho_s = tot_mass/quad(getMassIntegrand0, 1e-8, a[-1], args=(profile, model_pars))[0]
-        model_pars['rho_s'] = rho_s
+        model_pars = dict(model_pars, rho_s = rho_s)
         
         # Determine number of particles in second shell (first proper shell)
         def getMassIntegrand(r, model_pars):
-- 
2.43.0


From e72978ec42ae529cd993a4b75c6e8dd265970df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 33/49] fix: an unknown CENTER was taken for the center of mass

---
 cosmic_profiles/common/cosmic_base_class.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index e23c5e8..03f40bc 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -50,6 +50,8 @@ cdef class CosmicBase:
         :type CAT_DEST: string
         :param SUFFIX: either '_dm_' or '_gx_' or '' (latter for CosmicProfsDirect)
         :type SUFFIX: string"""
+        if CENTER not in ('mode', 'com'):
+            raise ValueError("CENTER should be either 'mode' or 'com'.")
         self.SNAP = SNAP
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         l_curr_over_target = config.InUnitLength_in_cm/l_internal
-- 
2.43.0


From cd6a3daefeb3c3d73316c1a17d326634c17e2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 34/49] fix: DensShapeProfs accepted index catalogues and radii
 that do not fit its particles

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 5b5dba7..5f4795f 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -492,6 +492,12 @@ cdef class DensShapeProfs(DensShapeProfsBase):
             r200 = np.array([r200])
         if not hasattr(idx_cat[0], "__len__"): # If list not list of lists then
             idx_cat = [idx_cat]
+        if len(r200) != len(idx_cat):
+            raise ValueError("The number of radii r200 must be equal to the number of objects in idx_cat.")
+        for obj in idx_cat:
+            obj = np.array(obj)
+            if len(obj) > 0 and (np.any(obj != np.int32(obj)) or np.min(obj) < 0 or np.max(obj) >= xyz.shape[0]):
+                raise ValueError("The entries of idx_cat must be integers between 0 and xyz.shape[0]-1.")
         cdef int nb_objs = len(idx_cat)
         cdef int p
         cdef int[:] obj_pass = np.zeros((nb_objs,), dtype = np.int32)
-- 
2.43.0


From 7a064127bb57e3fda6b6dc92e6e5156c51d321cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 35/49] fix: vizLocalShapes/vizGlobalShapes drew objects
 crossing the box boundary a box length away from their center and ellipsoids

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 5f4795f..c7860f0 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -187,6 +187,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
                 obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                if self.L_BOX != 0.0: # The center has been moved into the box, hence use the periodic image of the particles that surrounds it
+                    box = config.LengthInternalToOut(self.L_BOX)
+                    obj = obj+box*np.round((center-np.average(obj, axis = 0))/box)
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
@@ -282,6 +285,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
                 obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                if self.L_BOX != 0.0: # The center has been moved into the box, hence use the periodic image of the particles that surrounds it
+                    box = config.LengthInternalToOut(self.L_BOX)
+                    obj = obj+box*np.round((center-np.average(obj, axis = 0))/box)
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
-- 
2.43.0


From 08c0c49f665914be39e368308979175b51790237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 36/49] fix: plotLocalTHist dropped objects whose shape
 determination failed at any other radius

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index a0a89c8..9361416 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -270,7 +270,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
     if rank == 0:
         idx = np.zeros((d.shape[0],), dtype = np.int32)
         for obj in range(idx.shape[0]):
-            idx[obj] = np.argmin(abs(d[obj] - r200[obj]*frac_r200))        
+            idx[obj] = np.argmin(abs(r_over_r200 - frac_r200)) # d is not defined where the shape determination has failed
         
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
-- 
2.43.0


From 971389fbf9c9415e0cc426ef5579be25bd82b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:32 +0000
Subject: [PATCH 37/49] fix: ellipticity histograms raised ZeroDivisionError if
 a single particle of an object was left

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 9361416..873c992 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -55,7 +55,10 @@ def getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, angle=0.0):
             qxx = shape_tensor[0,0]
             qyy = shape_tensor[1,1]
             qxy = shape_tensor[0,1]
-            eps.append((qxx-qyy)/(qxx+qyy) + complex(0,1)*2*qxy/(qxx+qyy))
+            if xyz_.shape[0] < 2 or qxx+qyy == 0.0: # The ellipticity of a point is not defined
+                eps.append(complex(np.nan, np.nan))
+            else:
+                eps.append((qxx-qyy)/(qxx+qyy) + complex(0,1)*2*qxy/(qxx+qyy))
         eps = np.array(eps)
         return eps
     else:
-- 
2.43.0


From 211e80a800701f386efbd1c0153ad9cc7b71c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 38/49] fix: remember group catalogues by absolute path, so
 that a relative path never yields the catalogue of another working directory

---
 cosmic_profiles/gadget/read_fof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 2620fe0..3a410c5 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -5,6 +5,7 @@ import numpy as np
 import h5py
 from cosmic_profiles.common.caching import lru_cache
 import glob
+import os
 from mpi4py import MPI
 from cosmic_profiles.common import config
 import re
@@ -136,5 +137,5 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         getFoFSHData.inner = lru_cache(maxsize = config.CACHE_MAXSIZE)(inner)
     l_internal, m_internal, vel_internal = config.getLMVInternal()
     l_curr_over_target = config.InUnitLength_in_cm/l_internal
-    nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
+    nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData.inner(os.path.abspath(HDF5_GROUP_DEST), RVIR_OR_R200, PART_TYPE, l_curr_over_target)
     return nb_shs.copy(), sh_len.copy(), fof_sizes.copy(), group_r200.copy()
\ No newline at end of file
-- 
2.43.0


From 3ff766a74d310efaba224ee6e2b5b3aa0db55457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 39/49] fix: keep reading the files a Gadget object was opened
 with when the working directory changes

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index c7860f0..55ed5a2 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -573,8 +573,8 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :param CENTER: shape quantities will be calculated with respect to CENTER = 'mode' (point of highest density)
             or 'com' (center of mass) of each halo
         :type CENTER: str"""
-        self.SNAP_DEST = SNAP_DEST
-        self.GROUP_DEST = GROUP_DEST
+        self.SNAP_DEST = os.path.abspath(SNAP_DEST) # Files are also read later on, when the working directory may be another one
+        self.GROUP_DEST = os.path.abspath(GROUP_DEST)
         self.RVIR_OR_R200 = RVIR_OR_R200
         self.OBJ_TYPE = OBJ_TYPE
         self.IN_VELOCITY = config.InUnitVelocity_in_cm_per_s
-- 
2.43.0


From 45f33d30ec2250bfbe7bfaba05e811606706045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:07 +0000
Subject: [PATCH 40/49] fix: fitDensProfs raised TypeError on all ranks but the
 first

---
 cosmic_profiles/dens_profs/dens_profs_classes.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 9706222..8a32069 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -174,6 +174,8 @@ cdef class DensProfsBase(CosmicBase):
         :rtype: structured array, containing (N3, n) floats, where n is the number of free parameters in the model ``method``"""
         checkDensFitMethod(method)
         best_fits = self._fitDensProfsBase(self.r200.base, self.obj_size.base, np.float64(dens_profs), np.float64(r_over_r200), method, obj_numbers)
+        if rank != 0: # Only rank = 0 fits
+            return None
         model_pars = {'einasto': [('alpha', "f8"), ('r_s', "f8")], 'nfw': [('r_s', "f8")], 'hernquist': [('r_s', "f8")], 'alpha_beta_gamma': [('alpha', "f8"), ('beta', "f8"), ('gamma', "f8"), ('r_s', "f8")]}
         FITS_PROF_DTYPE = [("rho_s", "f8")] + [tuple_ for tuple_ in model_pars[method['profile']]]
         FITS_PROF_DTYPE+=[("is_conv", "bool")]
-- 
2.43.0


From 1aaff57fbca45dadb54fa88704603facddee34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:07 +0000
Subject: [PATCH 41/49] fix: getObjInfoGadget counted particles instead of
 objects, or raised ValueError

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 55ed5a2..277aa95 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -835,7 +835,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         print_status(rank, self.start_time, "The total number of objects is {0}".format(len(nb_shs)))
         print_status(rank, self.start_time, "The total number of SHs (subhalos) is {0}".format(len(sh_len)))
         print_status(rank, self.start_time, "The number of objects that have no SH is {0}".format(nb_shs[nb_shs == 0].shape[0]))
-        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len([x for x in self.idx_cat.base if x != []])))
+        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(self.obj_size.base.shape[0]))
         del nb_shs; del sh_len; del fof_sizes; del group_r200
         
     def getHeader(self): # Header
-- 
2.43.0


From 321a46f1943ec6a9d00b57402283c421504cadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:07 +0000
Subject: [PATCH 42/49] fix: density fits did not keep the given parameters
 fixed

---
 .../dens_profs/dens_profs_tools.py            | 44 ++++++++++++++++---
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index b34e160..8e980bd 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -230,6 +230,31 @@ def toMinimize(model_pars_arr, median, rbin_centers, profile):
     psi_2 = np.sum(np.array([(np.log(median[i])-np.log(prof_models[profile](rbin, getModelParsDict(model_pars_arr, profile))))**2/rbin_centers.shape[0] for i, rbin in enumerate(rbin_centers)]))
     return psi_2
 
+def minimizeFreePars(iguess, bounds, min_method, args):
+    """ Minimize ``toMinimize()`` over those parameters whose bounds leave them free
+    
+    :param iguess: initial guess of all parameters
+    :type iguess: (n,) floats
+    :param bounds: lower and upper bound of each parameter, equal if it is kept fixed
+    :type bounds: list of 2-tuples of floats
+    :param min_method: minimization method
+    :type min_method: string
+    :param args: further arguments of ``toMinimize()``
+    :type args: tuple
+    :return pars, fun: all parameters at the minimum and value of ``toMinimize()`` there
+    :rtype: (n,) floats, float"""
+    free = np.array([lower < upper for lower, upper in bounds])
+    pars = np.where(free, iguess, np.array([lower for lower, upper in bounds]))
+    if not np.any(free):
+        return pars, toMinimize(pars, *args)
+    def toMinimizeFree(free_pars):
+        all_pars = pars.copy()
+        all_pars[free] = free_pars
+        return toMinimize(all_pars, *args)
+    res = optimize.minimize(toMinimizeFree, pars[free], method = min_method, bounds = [bound for bound, is_free in zip(bounds, free) if is_free])
+    pars[free] = res.x
+    return pars, res.fun
+
 def fitDensProf(ROverR200, method, median_r200_obj_nb):
     """
     Fit density profile according to model provided
@@ -263,6 +288,11 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
     median = median[~np.isnan(median)]
     fittable = median.shape[0] > 0 and r200 > 0 and bool(np.all((median > 0) & np.isfinite(median)))
+    rho_s_lbound = 1e-7
+    rho_s_rbound = np.inf
+    if 'rho_s' in method and fittable:
+        rho_s_lbound = method['rho_s']/np.average(median) # The rescaled median is fitted
+        rho_s_rbound = rho_s_lbound
     # Set initial guess and minimize scalar function
     try:
         if method['profile'] == 'einasto':
@@ -279,8 +309,8 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]
+            best_fit, fun = minimizeFreePars(iguess, bounds, min_method, (median/np.average(median), R_to_min, method['profile'])) # Only hand over rescaled median!
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
                 alpha_lbound = method['alpha']
@@ -307,8 +337,8 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]
+            best_fit, fun = minimizeFreePars(iguess, bounds, min_method, (median/np.average(median), R_to_min, method['profile'])) # Only hand over rescaled median!
         else:
             if 'r_s' in method:
                 r_s_lbound = method['r_s']
@@ -317,9 +347,9 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
-        if not (fittable and np.isfinite(res.fun)): # The minimizer returns an arbitrary point in this case
+            bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]
+            best_fit, fun = minimizeFreePars(iguess, bounds, min_method, (median/np.average(median), R_to_min, method['profile'])) # Only hand over rescaled median!
+        if not (fittable and np.isfinite(fun)): # The minimizer returns an arbitrary point in this case
             raise ValueError("Density profile cannot be fitted.")
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
-- 
2.43.0


From df45bd3d7c4e4ec3e1812e8b2761b74ef63468ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:07 +0000
Subject: [PATCH 43/49] fix: parameters kept fixed in density fits were taken
 in internal units

---
 cosmic_profiles/common/cosmic_base_class.pyx |  5 ++++-
 cosmic_profiles/common/python_routines.py    | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 03f40bc..9acb29c 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -4,7 +4,7 @@
 
 import numpy as np
 cimport cython
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, toSelection, getSubSetIdxCat, catRequest, unitsOfDumpedCat
+from cosmic_profiles.common.python_routines import print_status, isValidSelection, toSelection, getSubSetIdxCat, catRequest, unitsOfDumpedCat, methodToInternal
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs
 from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs
@@ -1017,6 +1017,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = methodToInternal(method, m_curr_over_target*l_curr_over_target**(-3), l_curr_over_target)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1063,6 +1064,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = methodToInternal(method, m_curr_over_target*l_curr_over_target**(-3), l_curr_over_target)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1110,6 +1112,7 @@ cdef class CosmicBase:
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs_ = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
         dens_profs_fit_ = dens_profs_fit.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs_fit is in M_sun*h^2/(Mpc)**3
+        method = methodToInternal(method, m_curr_over_target*l_curr_over_target**(-3), l_curr_over_target)
         obj_centers, obj_masses = self._getMassesCenters(obj_numbers) # In units of Mpc/h (internal length units) and 10^10*M_sun*h^2/(Mpc)**3
         
         if rank == 0:
diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 7ecd6a8..3d59c01 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -710,6 +710,24 @@ def checkDensFitMethod(method):
     if 'min_method' in method:
         assert method['min_method'] == 'Nelder-Mead' or method['min_method'] == 'L-BFGS-B' or method['min_method'] == 'TNC' or method['min_method'] == 'SLSQP' or method['min_method'] == 'Powell' or method['min_method'] == 'trust-constr', "Note: method['min_method'] must be one of `Nelder-Mead`, `L-BFGS-B`, `TNC`, `SLSQP`, `Powell`, and `trust-constr` methods"
     
+def methodToInternal(method, dens_curr_over_target, l_curr_over_target):
+    """ Convert the density profile parameters that shall be kept fixed to internal units
+    
+    :param method: describes density profile model assumed for fitting, dimensionful parameters in outgoing units
+    :type method: dictionary
+    :param dens_curr_over_target: outgoing density unit over M_sun*h^2/(Mpc)**3
+    :type dens_curr_over_target: float
+    :param l_curr_over_target: outgoing length unit over Mpc/h (internal length unit)
+    :type l_curr_over_target: float
+    :return: same as ``method``, with dimensionful parameters in M_sun*h^2/(Mpc)**3 and Mpc/h
+    :rtype: dictionary"""
+    method = dict(method)
+    if 'rho_s' in method:
+        method['rho_s'] = method['rho_s']*dens_curr_over_target
+    if 'r_s' in method:
+        method['r_s'] = method['r_s']*l_curr_over_target
+    return method
+
 default_katz_config = {'ROverR200': np.logspace(-1.5,0,70), 'IT_TOL': 1e-2, 'IT_WALL': 100, 'IT_MIN': 10, 'REDUCED': False, 'SHELL_BASED': False}
 
 def catRequest(*args):
-- 
2.43.0


From d0366336a09b3f4125c8b770a7c240ddb00fd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:07 +0000
Subject: [PATCH 44/49] fix: genHalo printed a line on every rank

---
 cosmic_profiles/mock_tools/mock_halo_gen.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cosmic_profiles/mock_tools/mock_halo_gen.py b/cosmic_profiles/mock_tools/mock_halo_gen.py
index b4c74ec..01566e4 100644
--- a/cosmic_profiles/mock_tools/mock_halo_gen.py
+++ b/cosmic_profiles/mock_tools/mock_halo_gen.py
@@ -38,9 +38,8 @@ def genHalo(tot_mass, res, model_pars, profile, a, b, c):
     """
     if profile not in ('einasto', 'alpha_beta_gamma', 'hernquist', 'nfw'):
         raise ValueError("The profile should be one of `einasto`, `alpha_beta_gamma`, `hernquist`, `nfw`.")
-    print('Starting genHalo()')
-        
     if rank == 0:
+        print('Starting genHalo()')
         # Determine rho_s in units of M_sun*h^2/Mpc^3
         def getMassIntegrand0(r, profile, model_pars):
             if profile == 'einasto':
-- 
2.43.0


From f56c2900c722c81ed305f64ab4ac46d4b2a44ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:46 +0000
Subject: [PATCH 45/49] fix: axis components of exactly zero were reported as
 NaN

---
 .../shape_profs/shape_profs_algos.pyx         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index f6d8fa1..25a5779 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -616,12 +616,12 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
     minor = np.transpose(np.stack((minor_x.base,minor_y.base,minor_z.base)),(1,2,0))
     inter = np.transpose(np.stack((inter_x.base,inter_y.base,inter_z.base)),(1,2,0))
     major = np.transpose(np.stack((major_x.base,major_y.base,major_z.base)),(1,2,0))
+    minor[d.base==0.0] = np.nan # Unclassified; a classified object may well have an axis with a component of 0.0
+    inter[d.base==0.0] = np.nan
+    major[d.base==0.0] = np.nan
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -724,12 +724,12 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
     minor = np.hstack((np.reshape(minor_x.base, (minor_x.base.shape[0],1)), np.reshape(minor_y.base, (minor_y.base.shape[0],1)), np.reshape(minor_z.base, (minor_z.base.shape[0],1))))
     inter = np.hstack((np.reshape(inter_x.base, (inter_x.base.shape[0],1)), np.reshape(inter_y.base, (inter_y.base.shape[0],1)), np.reshape(inter_z.base, (inter_z.base.shape[0],1))))
     major = np.hstack((np.reshape(major_x.base, (major_x.base.shape[0],1)), np.reshape(major_y.base, (major_y.base.shape[0],1)), np.reshape(major_z.base, (major_z.base.shape[0],1))))
+    minor[d.base==0.0] = np.nan # Unclassified; a classified object may well have an axis with a component of 0.0
+    inter[d.base==0.0] = np.nan
+    major[d.base==0.0] = np.nan
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -847,12 +847,12 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
     minor = np.transpose(np.stack((minor_x.base,minor_y.base,minor_z.base)), (1,2,0))
     inter = np.transpose(np.stack((inter_x.base,inter_y.base,inter_z.base)), (1,2,0))
     major = np.transpose(np.stack((major_x.base,major_y.base,major_z.base)), (1,2,0))
+    minor[d.base==0.0] = np.nan # Unclassified; a classified object may well have an axis with a component of 0.0
+    inter[d.base==0.0] = np.nan
+    major[d.base==0.0] = np.nan
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -963,12 +963,12 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
     minor = np.hstack((np.reshape(minor_x.base, (minor_x.base.shape[0],1)), np.reshape(minor_y.base, (minor_y.base.shape[0],1)), np.reshape(minor_z.base, (minor_z.base.shape[0],1))))
     inter = np.hstack((np.reshape(inter_x.base, (inter_x.base.shape[0],1)), np.reshape(inter_y.base, (inter_y.base.shape[0],1)), np.reshape(inter_z.base, (inter_z.base.shape[0],1))))
     major = np.hstack((np.reshape(major_x.base, (major_x.base.shape[0],1)), np.reshape(major_y.base, (major_y.base.shape[0],1)), np.reshape(major_z.base, (major_z.base.shape[0],1))))
+    minor[d.base==0.0] = np.nan # Unclassified; a classified object may well have an axis with a component of 0.0
+    inter[d.base==0.0] = np.nan
+    major[d.base==0.0] = np.nan
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
-- 
2.43.0


From f5c22bba7b76f7c7d3930aaf36266b9d9b4d0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:46 +0000
Subject: [PATCH 46/49] fix: a degenerate object made shape requests fail for
 all objects

---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 25a5779..1bbcd70 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -98,6 +98,9 @@ cdef double[:] runShellAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] x
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not (eigval[2] > 0.0 and eigval[0]/eigval[2] > 0.0): # Degenerate (e.g. coplanar) point cloud, no ellipsoid to iterate on
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -223,6 +226,9 @@ cdef double[:] runEllAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] xyz
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not (eigval[2] > 0.0 and eigval[0]/eigval[2] > 0.0): # Degenerate (e.g. coplanar) point cloud, no ellipsoid to iterate on
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -344,6 +350,9 @@ cdef double[:] runEllVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:,:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not (eigval[2] > 0.0 and eigval[0]/eigval[2] > 0.0): # Degenerate (e.g. coplanar) point cloud, no ellipsoid to iterate on
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -467,6 +476,9 @@ cdef double[:] runShellVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not (eigval[2] > 0.0 and eigval[0]/eigval[2] > 0.0): # Degenerate (e.g. coplanar) point cloud, no ellipsoid to iterate on
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
-- 
2.43.0


From d765f2d24a7e84fcefffb4fb148c96907b219ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:46 +0000
Subject: [PATCH 47/49] fix: a particle at the center made reduced shape
 requests fail

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index db71e36..480c4f7 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -50,7 +50,7 @@ cdef class CythonHelpers:
                     for run in range(nb_pts):
                         if reduced == False:
                             shape_tensor[i,j] = shape_tensor[i,j] + <complex>(masses[select[run]]*(nns[select[run],i]-center[i])*(nns[select[run],j]-center[j])/mass_tot)
-                        else:
+                        elif r_ell[select[run]] > 0.0: # A particle right at the center has no direction
                             shape_tensor[i,j] = shape_tensor[i,j] + <complex>(masses[select[run]]*(nns[select[run],i]-center[i])*(nns[select[run],j]-center[j])/(mass_tot*r_ell[select[run]]**2))
                     if i > j:
                         shape_tensor[j,i] = shape_tensor[i,j]
-- 
2.43.0


From c38d0dea11f8ef36786c3a26fc1da6ad7afc5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:21 +0000
Subject: [PATCH 48/49] fix: finding the mode of an object failed if five
 particles were at one point

---
 cosmic_profiles/common/python_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 3d59c01..a62efdd 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -301,7 +301,7 @@ def calcMode(xyz, masses, rad):
     distances_all = np.linalg.norm(xyz-com,axis=1)
     xyz_constrain = xyz[distances_all < rad]
     masses_constrain = masses[distances_all < rad]
-    if xyz_constrain.shape[0] < 5: # If only < 5 particles left, return
+    if xyz_constrain.shape[0] < 5 or not np.any(distances_all > 0.0): # If only < 5 particles left or all at the same point, return
         return com
     else:
         rad *= 0.83 # Reduce radius by 17 %
-- 
2.43.0


From e676fb56e7c5b45aefc891f2621816f3b47114d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:25 +0000
Subject: [PATCH 49/49] fix: kernel-based density requests failed with a
 particle at the center or an object without R200

---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 50c9f35..7ae7422 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -274,7 +274,8 @@ def calcDensProfsKernelBased(double[:,:] xyz, double[:] masses, double[:] r200s,
         hs = 0.005*r200s[p]*(dists.base/(0.1*r200s[p]))**(0.5)
         for r_idx in prange(r_res, schedule = 'dynamic', nogil = True):
             for n in range(obj_size[p]):
-                dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
+                if hs[n] > 0.0: # A particle right at the center has a kernel of zero width, an object without R_200 has none at all
+                    dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
     del obj_size; del idx_cat; del shell; del xyz_obj; del m_obj; del centers
     del dists; del hs
     return dens_profs.base
\ No newline at end of file
-- 
2.43.0

