From 0e25b59a5a78c0142cc5035df005de391b9d90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 01/34] fix: ellipsoidal density profiles no longer overwrite
 the object index list

calcDensProfsEllDirectBinning replaced the particle indices of every object by
copies of one element of the flattened index array, so that all particles of an
object collapsed onto one and the profiles came out empty.
---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 987ecf0..2b8b9ae 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -167,7 +167,6 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] inter_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
-        idx_cat.base[offsets[p]:offsets[p+1]] = np.array(idx_cat[p])
         r_vec = np.float64(a.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
-- 
2.43.0


From 66f21fef4e41ae2f9a48f96b909ed9aa9aa5e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 02/34] fix: mass conversions use the existing unit key
 E+10Msun/h

MassInternalToOut and MassInToInternal raised KeyError('E+10M_sun/h').
---
 cosmic_profiles/common/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 24264c4..0da9c14 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -166,7 +166,7 @@ def MassInternalToOut(mass_arr):
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10M_sun/h']/OutUnitMass_in_g)
+    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -196,7 +196,7 @@ def MassInToInternal(mass_arr):
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10M_sun/h'])
+    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
-- 
2.43.0


From d253e292b57ad72e70a78dedd99cbcc277d586bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 03/34] fix: move particles of objects cut by the box boundary
 to their periodic image

The compiled respectPBCNoRef mirrored coordinates at the box centre instead of
translating them by the box length, and judged z by the distance in y, so that
densities and shapes of objects crossing the boundary were wrong.
---
 .../cython_helpers/helper_class.pxd           |  2 +-
 .../cython_helpers/helper_class.pyx           | 25 ++++++++-----------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pxd b/cosmic_profiles/cython_helpers/helper_class.pxd
index a55c64d..ac6826b 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pxd
+++ b/cosmic_profiles/cython_helpers/helper_class.pxd
@@ -20,7 +20,7 @@ cdef class CythonHelpers:
     cdef void ZHEEVR(complex[::1,:] H, double * eigvals, complex[::1,:] Z, int nrows) nogil
 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double L_BOX) nogil
     
     @staticmethod
     cdef double[:] calcDensProfBruteForceSph(double[:,:] xyz, double[:] masses, double[:] center, float r_200, double[:] ROverR200, double[:] dens_prof, int[:] shell) nogil
diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 99bf90f..0d9cbb3 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -166,12 +166,12 @@ cdef class CythonHelpers:
     @cython.boundscheck(False)
     @cython.wraparound(False) 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil:
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double L_BOX) nogil:
         """
         Modify xyz inplace so that it respects the box periodicity.
         
         If point distro xyz has particles separated in any Cartesian direction
-        by more than L_BOX/2, reflect those particles along L_BOX/2
+        by more than L_BOX/2, translate those particles by L_BOX
         
         :param xyz: coordinates of particles of type 1 or type 4
         :type xyz: (N^3x3) floats
@@ -183,19 +183,16 @@ cdef class CythonHelpers:
         if L_BOX == 0.0:
             return xyz
         cdef int ref = 0
-        cdef float dist_x
-        cdef float dist_y
-        cdef float dist_z
+        cdef double dist
+        cdef int i
+        cdef int k
         for i in range(xyz.shape[0]):
-            dist_x = CythonHelpers.cython_abs(xyz[ref, 0]-xyz[i,0])
-            if dist_x > L_BOX/2:
-                xyz[i,0] = L_BOX-xyz[i,0] # Reflect x-distances along L_BOX/2
-            dist_y = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_y > L_BOX/2:
-                xyz[i,1] = L_BOX-xyz[i,1] # Reflect y-distances along L_BOX/2
-            dist_z = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_z > L_BOX/2:
-                xyz[i,2] = L_BOX-xyz[i,2] # Reflect z-distances along L_BOX/2
+            for k in range(3):
+                dist = xyz[i,k]-xyz[ref,k]
+                if dist > L_BOX/2:
+                    xyz[i,k] = xyz[i,k]-L_BOX # Move to the periodic image next to the reference particle
+                elif dist < -L_BOX/2:
+                    xyz[i,k] = xyz[i,k]+L_BOX
         return xyz
     
     @cython.boundscheck(False)
-- 
2.43.0


From c7cdc64d822b565569417baec11e2ed1819c9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 04/34] fix: unwrap periodic objects about a particle, not an
 average of wrapped positions

For an object split evenly by the boundary the average of up to 50 wrapped
positions lies near the box centre, far from every particle, so no particle was
moved and masses' centres (and all that is measured about them) were wrong.
---
 cosmic_profiles/common/python_routines.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2466ef3..11e843e 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -511,9 +511,7 @@ def respectPBCNoRef(xyz, L_BOX = None):
     :rtype: (N^3x3) floats"""
     if L_BOX != 0.0:
         xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
-        rng = default_rng(seed=0) # Reference particle does not matter, i.e. ref = 0 is an option, but it is better to average over some random particles
-        choose = rng.choice(np.arange(len(xyz)), (min(50,len(xyz)),), replace = False)
-        ref_xyz = np.average(xyz_out[choose], axis = 0)
+        ref_xyz = xyz_out[0].copy() # Which particle serves as reference does not matter
         dist_x = xyz_out[:,0]-ref_xyz[0]
         dist_y = xyz_out[:,1]-ref_xyz[1]
         dist_z = xyz_out[:,2]-ref_xyz[2]
-- 
2.43.0


From 3f5e85f026e1e4e6ee7f40f2cd29cf6ca3647ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 05/34] fix: local velocity dispersion shapes use the
 particles' velocities

The velocity buffer of calcMorphLocalVelDisp was never filled.
---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 88c357e..647d707 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -821,6 +821,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,0] = xyz[idx_cat[offsets[p]+n],0]
             xyz_obj[openmp.omp_get_thread_num(),n,1] = xyz[idx_cat[offsets[p]+n],1]
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
+            vxyz_obj[openmp.omp_get_thread_num(),n,0] = vxyz[idx_cat[offsets[p]+n],0]
+            vxyz_obj[openmp.omp_get_thread_num(),n,1] = vxyz[idx_cat[offsets[p]+n],1]
+            vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
         xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
-- 
2.43.0


From 467f09f64327a5167796db4c1688244f587434cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 06/34] fix: getShapeCatVelGlobal passes the arguments
 _getShapeCatVelGlobalBase takes

It raised TypeError on every call.
---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 82aecca..e960c94 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -656,7 +656,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             suffix = '_v{}_'.format(self.OBJ_TYPE)
-            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, self.CENTER, self.SAFE, REDUCED, suffix)
+            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
-- 
2.43.0


From 010386f1e643b9330cbe8429a4dfccaa6bf15ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 07/34] fix: keep axis components that are exactly zero

Axes aligned with a coordinate direction lost those components to NaN; only the
axes of unconverged shapes are missing now.
---
 .../shape_profs/shape_profs_algos.pyx         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 647d707..29ec939 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -619,9 +619,9 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(q.base)] = np.nan
+    inter[np.isnan(q.base)] = np.nan
+    major[np.isnan(q.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -727,9 +727,9 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(q.base)] = np.nan
+    inter[np.isnan(q.base)] = np.nan
+    major[np.isnan(q.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -850,9 +850,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(q.base)] = np.nan
+    inter[np.isnan(q.base)] = np.nan
+    major[np.isnan(q.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -966,9 +966,9 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(q.base)] = np.nan
+    inter[np.isnan(q.base)] = np.nan
+    major[np.isnan(q.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
-- 
2.43.0


From 6bc3abaa55f59b499ab24daa1bcaf2d10a3a9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 08/34] fix: a dumped local catalogue reloads with one radius
 per halo, too

np.loadtxt dropped the radius axis of an (N,1) catalogue, which was then taken
for one halo with N radii.
---
 cosmic_profiles/common/cosmic_base_class.pyx | 32 ++++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index dcb1a96..69830ff 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -118,14 +118,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -287,14 +287,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-- 
2.43.0


From bc3598b35d6919eb1f26ff2c4e682fa27741adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 09/34] fix: local ellipticity histograms can be drawn again

getCatWithinFracR200 was called without the masses, took the arrays for
memoryviews, left the box length out when unwrapping and used an argument
scipy's cKDTree no longer has.
---
 cosmic_profiles/common/python_routines.py        | 8 ++++----
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 11e843e..4f1dbe3 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -591,15 +591,15 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
     for idx in range(len(obj_size_in)): # Calculate centers of objects
         xyz_ = respectPBCNoRef(xyz[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], L_BOX)
         if CENTER == 'mode':
-            centers.base[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
+            centers[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
         else:
-            centers.base[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
+            centers[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
     remnant = []
     for idx in range(len(obj_size_in)):
         obj = cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]
-        xyz_ = respectPBCNoRef(xyz[obj])
+        xyz_ = respectPBCNoRef(xyz[obj], L_BOX)
         tree = cKDTree(xyz_, leafsize=2, balanced_tree = False)
-        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, n_jobs=-1)
+        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, workers=-1)
         if all_nn_idxs != []:
             cat_out = np.hstack((cat_out, np.array(obj)[all_nn_idxs]))
             obj_size_out[idx] = len(all_nn_idxs)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index bc6b308..37fc824 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -421,7 +421,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
     
     if rank == 0:
         # Update h_cat so that only particles within r200 are considered
-        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
+        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
-- 
2.43.0


From 10de91b3c04edfe6a890e98738791b045a8b46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 10/34] fix: align the signs of principal axes before
 interpolating them

Eigenvectors come with an arbitrary sign at each radius; interpolating them between two radii whose
signs differ gave ellipsoids pointing in unrelated directions.
---
 .../dens_profs/dens_profs_algos.pyx           | 40 ++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 2b8b9ae..a407a3c 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -108,6 +108,25 @@ def calcDensProfsSphDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     del bin_edges; del obj_size; del idx_cat; del shell; del bin_edges_tiled; del xyz_obj; del m_obj; del centers
     return dens_profs.base
    
+def alignAxes(axes):
+    """ Make an axis point the same way at all radii
+
+    Principal axes are defined up to sign only, which matters once they are interpolated between radii.
+
+    :param axes: axis at each radius, NaN where the shape is unconverged
+    :type axes: (N,3) floats
+    :return: axes with signs aligned
+    :rtype: (N,3) floats"""
+    axes = axes.copy()
+    last = -1
+    for i in range(axes.shape[0]):
+        if np.isnan(axes[i]).any():
+            continue
+        if last >= 0 and np.dot(axes[i], axes[last]) < 0:
+            axes[i] = -axes[i]
+        last = i
+    return axes
+
 @cython.embedsignature(True)
 def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r200s, double[:] r_over_r200, double[:,:] a, double[:,:] b, double[:,:] c, double[:,:,:] major, double[:,:,:] inter, double[:,:,:] minor, int[:] idx_cat, int[:] obj_size, double L_BOX, str CENTER):
     """ Calculates ellipsoidal shell-based density profiles for objects defined by indices found in `idx_cat`    
@@ -171,15 +190,18 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
         c_inter = interp1d(r_vec, c.base[p], bounds_error=False, fill_value='extrapolate')
-        majorx_inter = interp1d(r_vec, major.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        majory_inter = interp1d(r_vec, major.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        majorz_inter = interp1d(r_vec, major.base[p,:,2], bounds_error=False, fill_value='extrapolate')
-        interx_inter = interp1d(r_vec, inter.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        intery_inter = interp1d(r_vec, inter.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        interz_inter = interp1d(r_vec, inter.base[p,:,2], bounds_error=False, fill_value='extrapolate')
-        minorx_inter = interp1d(r_vec, minor.base[p,:,0], bounds_error=False, fill_value='extrapolate')
-        minory_inter = interp1d(r_vec, minor.base[p,:,1], bounds_error=False, fill_value='extrapolate')
-        minorz_inter = interp1d(r_vec, minor.base[p,:,2], bounds_error=False, fill_value='extrapolate')
+        major_p = alignAxes(major.base[p])
+        inter_p = alignAxes(inter.base[p])
+        minor_p = alignAxes(minor.base[p])
+        majorx_inter = interp1d(r_vec, major_p[:,0], bounds_error=False, fill_value='extrapolate')
+        majory_inter = interp1d(r_vec, major_p[:,1], bounds_error=False, fill_value='extrapolate')
+        majorz_inter = interp1d(r_vec, major_p[:,2], bounds_error=False, fill_value='extrapolate')
+        interx_inter = interp1d(r_vec, inter_p[:,0], bounds_error=False, fill_value='extrapolate')
+        intery_inter = interp1d(r_vec, inter_p[:,1], bounds_error=False, fill_value='extrapolate')
+        interz_inter = interp1d(r_vec, inter_p[:,2], bounds_error=False, fill_value='extrapolate')
+        minorx_inter = interp1d(r_vec, minor_p[:,0], bounds_error=False, fill_value='extrapolate')
+        minory_inter = interp1d(r_vec, minor_p[:,1], bounds_error=False, fill_value='extrapolate')
+        minorz_inter = interp1d(r_vec, minor_p[:,2], bounds_error=False, fill_value='extrapolate')
         a_interpol.base[p] = a_inter(bin_edges.base*r200s[p])
         b_interpol.base[p] = b_inter(bin_edges.base*r200s[p])
         c_interpol.base[p] = c_inter(bin_edges.base*r200s[p])
-- 
2.43.0


From db22f8631880373dcc539598f99e47f170c646f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 11/34] fix: cached group radii follow the input unit system

---
 cosmic_profiles/gadget/read_fof.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 5fb7510..6db05f6 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -42,7 +42,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target):
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -62,8 +62,6 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = config.InUnitLength_in_cm/l_internal
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
             if 'Group/GroupLenType' in g:
@@ -134,5 +132,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
         getFoFSHData.inner = np_cache_factory(0,0)(inner)
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
\ No newline at end of file
+    # The radii depend on the unit system of the input, so it has to be part of the cache key
+    l_internal, m_internal, vel_internal = config.getLMVInternal()
+    l_curr_over_target = config.InUnitLength_in_cm/l_internal
+    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
\ No newline at end of file
-- 
2.43.0


From 845ddeae7806fe497acfd020180ae2cd3e154ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 12/34] fix: updated cache limits take effect on caches already
 in use

---
 cosmic_profiles/common/caching.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 4781ba1..8ce2eb6 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -269,8 +269,7 @@ def np_cache_factory(nb_arrs, nb_lists):
     def np_cache(function):
         
         GB = 1024**3 # in bytes
-        @lru_cache(maxsize = config.CACHE_MAXSIZE, use_memory_up_to=(config.GBs * GB))
-        def cached_wrapper(*args_cached, dims):
+        def uncached_wrapper(*args_cached, dims):
             args_l = []
             for arg in args_cached:
                 args_l.append(arg)
@@ -280,6 +279,16 @@ def np_cache_factory(nb_arrs, nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
     
+        limits = None
+        cached_wrapper = None
+        def get_cached_wrapper():
+            # Start a new cache whenever the limits have been updated
+            nonlocal limits, cached_wrapper
+            if limits != (config.CACHE_MAXSIZE, config.GBs):
+                limits = (config.CACHE_MAXSIZE, config.GBs)
+                cached_wrapper = lru_cache(maxsize = config.CACHE_MAXSIZE, use_memory_up_to=(config.GBs * GB))(uncached_wrapper)
+            return cached_wrapper
+    
         @wraps(function)
         def wrapper(*args):
             args_l = []
@@ -293,11 +302,11 @@ def np_cache_factory(nb_arrs, nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
             dims = tuple(dims)
             args_l = tuple(args_l)
-            return cached_wrapper(*args_l, dims=dims)
+            return get_cached_wrapper()(*args_l, dims=dims)
     
         # Copy lru_cache attributes over too
-        wrapper.cache_info = cached_wrapper.cache_info
-        wrapper.cache_clear = cached_wrapper.cache_clear
+        wrapper.cache_info = lambda: get_cached_wrapper().cache_info()
+        wrapper.cache_clear = lambda: get_cached_wrapper().cache_clear()
     
         return wrapper
     return np_cache
-- 
2.43.0


From e7d35836f2bd5481b7539cb32b5901454322e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 13/34] fix: ellipsoidal densities only reuse shape catalogues
 of their own object type

---
 cosmic_profiles/common/cosmic_base_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 69830ff..4e1c1bf 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -938,7 +938,7 @@ cdef class CosmicBase:
             isValidSelection(obj_numbers, idx_cat_len)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             if direct_binning:
-                suffix = '_'
+                suffix = self.SUFFIX
                 if spherical == False:
                     d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatLocalBase(xyz.base, masses.base, r200.base[obj_numbers], subset_idx_cat, obj_size.base[obj_numbers], r_over_r200_shape.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, suffix)
                     dens_profs = self._getDensProfsEllDirectBinningBase(xyz.base, masses.base, r200.base[obj_numbers], subset_idx_cat, obj_size.base[obj_numbers], r_over_r200.base, d, d*q, d*s, major, inter, minor)
-- 
2.43.0


From 3318576dbc40c24b719c36a1b1a1b3ac1b5002cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 14/34] fix: density profile fits reach the best fit and honour
 all fixed parameters

---
 .../dens_profs/dens_profs_tools.py            | 105 ++++++++----------
 1 file changed, 45 insertions(+), 60 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8889f1a..47078e1 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -258,67 +258,52 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
         min_method = 'Powell'
     
     R_to_min = ROverR200*r200 # Mpc/h
-    # Discard nan values in median
-    R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
-    median = median[~np.isnan(median)]
-    # Set initial guess and minimize scalar function
+    # Discard nan and zero values in median (there is no logarithm of them)
+    good = ~np.isnan(median) & (median > 0)
+    R_to_min = R_to_min[good]
+    median = median[good]
+    # Set initial guess, parameters that are kept fixed are those provided in ``method``
+    if method['profile'] == 'einasto':
+        names = ['rho_s', 'alpha', 'r_s']
+        iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
+    elif method['profile'] == 'alpha_beta_gamma':
+        names = ['rho_s', 'alpha', 'beta', 'gamma', 'r_s']
+        iguess = np.array([0.1, 1.0, 3.0, 1.0, r200/5]) # NFW
+    else:
+        names = ['rho_s', 'r_s']
+        iguess = np.array([0.1, r200/5])
+    if len(median) == 0:
+        return iguess*np.nan, obj_nb
+    norm = np.average(median)
+    free = np.array([name not in method for name in names])
+    for i, name in enumerate(names):
+        if name in method:
+            iguess[i] = method[name]
+    iguess[0] = iguess[0]/norm if 'rho_s' in method else 1.0
+    # Minimize scalar function. All parameters are positive, so vary the logarithms of the free ones:
+    # no bounds are needed and steps have the right size whatever the units.
+    def getPars(log_pars):
+        pars = iguess.copy()
+        pars[free] = np.exp(log_pars)
+        return pars
+    def toMinimizeLog(log_pars):
+        return toMinimize(getPars(log_pars), median/norm, R_to_min, method['profile']) # Only hand over rescaled median!
     try:
-        if method['profile'] == 'einasto':
-            if 'alpha' in method:
-                alpha_lbound = method['alpha']
-                alpha_rbound = alpha_lbound
-            else:
-                alpha_lbound = 1e-10 # Negative would mean density profile bends upwards in log-log plot
-                alpha_rbound = np.inf
-            if 'r_s' in method:
-                r_s_lbound = method['r_s']
-                r_s_rbound = r_s_lbound
-            else:
-                r_s_lbound = 1e-5
-                r_s_rbound = np.inf
-            iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
-        elif method['profile'] == 'alpha_beta_gamma':
-            if 'alpha' in method:
-                alpha_lbound = method['alpha']
-                alpha_rbound = alpha_lbound
-            else:
-                alpha_lbound = 1e-5
-                alpha_rbound = np.inf
-            if 'beta' in method:
-                beta_lbound = method['beta']
-                beta_rbound = beta_lbound
-            else:
-                beta_lbound = 1e-5
-                beta_rbound = np.inf
-            if 'gamma' in method:
-                gamma_lbound = method['gamma']
-                gamma_rbound = gamma_lbound
-            else:
-                gamma_lbound = 1e-5
-                gamma_rbound = np.inf
-            if 'r_s' in method:
-                r_s_lbound = method['r_s']
-                r_s_rbound = r_s_lbound
-            else:
-                r_s_lbound = 1e-5
-                r_s_rbound = np.inf
-            iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
-        else:
-            if 'r_s' in method:
-                r_s_lbound = method['r_s']
-                r_s_rbound = r_s_lbound
-            else:
-                r_s_lbound = 1e-5
-                r_s_rbound = np.inf
-            iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
-        best_fit[0] *= np.average(median)
-    except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
+        if free[0]: # Best rho_s for the other initial guesses
+            prof_models = {'einasto': getEinastoProf, 'alpha_beta_gamma': getAlphaBetaGammaProf, 'nfw': getNFWProf, 'hernquist': getHernquistProf}
+            iguess[0] = np.exp(np.average(np.log(median/norm)-np.log(prof_models[method['profile']](R_to_min, getModelParsDict(iguess, method['profile'])))))
+        best_log = np.log(iguess[free])
+        psi_2 = toMinimizeLog(best_log)
+        for restart in range(20 if free.any() else 0): # Minimizers occasionally stop early
+            res = optimize.minimize(toMinimizeLog, best_log, method = min_method)
+            improved = res.fun < psi_2*(1-1e-3)
+            if res.fun < psi_2:
+                best_log, psi_2 = res.x, res.fun
+            if not improved:
+                break
+        best_fit = getPars(best_log)
+        best_fit[0] *= norm
+    except ValueError: # Poor density profiles
         best_fit = iguess*np.nan
     return best_fit, obj_nb
 
-- 
2.43.0


From 7449331c9c7e412b72ebd4bec14189fc1a1e16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 15/34] fix: dimensionful parameters kept fixed in a fit are in
 outgoing units

---
 cosmic_profiles/common/cosmic_base_class.pyx   |  5 ++++-
 cosmic_profiles/dens_profs/dens_profs_tools.py | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 4e1c1bf..4bef1f5 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -7,7 +7,7 @@ cimport cython
 from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs
-from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs
+from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs, getMethodInternal
 from cosmic_profiles.shape_profs.shape_profs_algos import calcMorphLocal, calcMorphGlobal, calcMorphLocalVelDisp, calcMorphGlobalVelDisp
 from cosmic_profiles.dens_profs.dens_profs_algos import calcMassesCenters, calcDensProfsSphDirectBinning, calcDensProfsEllDirectBinning, calcDensProfsKernelBased
 import time
@@ -1026,6 +1026,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = getMethodInternal(method, l_curr_over_target, m_curr_over_target*l_curr_over_target**(-3))
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1072,6 +1073,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = getMethodInternal(method, l_curr_over_target, m_curr_over_target*l_curr_over_target**(-3))
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1117,6 +1119,7 @@ cdef class CosmicBase:
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs_ = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
         dens_profs_fit_ = dens_profs_fit.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs_fit is in M_sun*h^2/(Mpc)**3
+        method = getMethodInternal(method, l_curr_over_target, m_curr_over_target*l_curr_over_target**(-3))
         obj_centers, obj_masses = self._getMassesCenters(obj_numbers) # In units of Mpc/h (internal length units) and 10^10*M_sun*h^2/(Mpc)**3
         
         if rank == 0:
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 47078e1..580ae4e 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -307,6 +307,24 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
         best_fit = iguess*np.nan
     return best_fit, obj_nb
 
+def getMethodInternal(method, length_ratio, dens_ratio):
+    """ Bring the dimensionful parameters that ``method`` keeps fixed to internal units
+    
+    :param method: describes density profile model assumed for fitting, fixed parameters in outgoing units
+    :type method: dictionary
+    :param length_ratio: outgoing over internal length unit
+    :type length_ratio: float
+    :param dens_ratio: outgoing over internal density unit
+    :type dens_ratio: float
+    :return: ``method`` with fixed parameters in internal units
+    :rtype: dictionary"""
+    method = dict(method)
+    if 'r_s' in method:
+        method['r_s'] = method['r_s']*length_ratio
+    if 'rho_s' in method:
+        method['rho_s'] = method['rho_s']*dens_ratio
+    return method
+
 def fitDensProfHelper(dens_profs, ROverR200, r200s, method): # method is unhashable so @np_cache_factory(3,0) would fail
     """ Helper function to carry out density profile fitting
     
-- 
2.43.0


From 185d2d16bcc9888004584fedf33ebb215c83551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 16/34] fix: profile fits start from the most promising scale
 radius and stay near it

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 580ae4e..9346f13 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -281,7 +281,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
             iguess[i] = method[name]
     iguess[0] = iguess[0]/norm if 'rho_s' in method else 1.0
     # Minimize scalar function. All parameters are positive, so vary the logarithms of the free ones:
-    # no bounds are needed and steps have the right size whatever the units.
+    # steps have the right size whatever the units. Each minimization explores a factor of e around its start.
     def getPars(log_pars):
         pars = iguess.copy()
         pars[free] = np.exp(log_pars)
@@ -289,13 +289,20 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     def toMinimizeLog(log_pars):
         return toMinimize(getPars(log_pars), median/norm, R_to_min, method['profile']) # Only hand over rescaled median!
     try:
-        if free[0]: # Best rho_s for the other initial guesses
-            prof_models = {'einasto': getEinastoProf, 'alpha_beta_gamma': getAlphaBetaGammaProf, 'nfw': getNFWProf, 'hernquist': getHernquistProf}
-            iguess[0] = np.exp(np.average(np.log(median/norm)-np.log(prof_models[method['profile']](R_to_min, getModelParsDict(iguess, method['profile'])))))
+        prof_models = {'einasto': getEinastoProf, 'alpha_beta_gamma': getAlphaBetaGammaProf, 'nfw': getNFWProf, 'hernquist': getHernquistProf}
+        starts = []
+        for r_s in [r200/5] + [r200/5*factor for factor in [0.25, 0.5, 2.0, 4.0]]: # Start from the most promising scale radius
+            if free[-1]:
+                iguess[-1] = r_s
+            if free[0]: # Best rho_s for the other initial guesses
+                iguess[0] = 1.0
+                iguess[0] = np.exp(np.average(np.log(median/norm)-np.log(prof_models[method['profile']](R_to_min, getModelParsDict(iguess, method['profile'])))))
+            starts.append((toMinimize(iguess, median/norm, R_to_min, method['profile']), iguess.copy()))
+        iguess = min(starts, key = lambda start: start[0])[1]
         best_log = np.log(iguess[free])
         psi_2 = toMinimizeLog(best_log)
         for restart in range(20 if free.any() else 0): # Minimizers occasionally stop early
-            res = optimize.minimize(toMinimizeLog, best_log, method = min_method)
+            res = optimize.minimize(toMinimizeLog, best_log, method = min_method, bounds = [(log_par-1, log_par+1) for log_par in best_log])
             improved = res.fun < psi_2*(1-1e-3)
             if res.fun < psi_2:
                 best_log, psi_2 = res.x, res.fun
-- 
2.43.0


From 069082140207579f4f73691dc0d4924b752c3ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 17/34] fix: mass-binned density profiles use the halos of
 their mass bin

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 9346f13..af18633 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -131,9 +131,9 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         
         # Mass splitting
         max_min_m, obj_m_groups, obj_center_groups, idx_groups = M_split(MASS_UNIT*obj_masses, obj_centers, start_time, NB_BINS = nb_bins)
-        del obj_centers; del obj_center_groups; del idx_groups
+        del obj_centers; del obj_center_groups
         print_status(rank, start_time, "The number of objects considered is {0}".format(r200s.shape[0]))
-        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(np.sum(np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[0] and obj_masses[i]*MASS_UNIT < max_min_m[1]) else 0 for i in range(r200s.shape[0])]))))
+        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(len(obj_m_groups[0])))
         print_status(rank, start_time, "The number of mass bins is {0}".format(len(obj_m_groups)))
         prof_models = {'einasto': getEinastoProf, 'alpha_beta_gamma': getAlphaBetaGammaProf, 'nfw': getNFWProf, 'hernquist': getHernquistProf}
         model_name = {'einasto': 'Einasto', 'alpha_beta_gamma': r'\alpha \beta \gamma', 'nfw': 'NFW', 'hernquist': 'Hernquist'}
@@ -186,7 +186,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.savefig("{}/RhoProf_{}.pdf".format(VIZ_DEST, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
-            obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
+            obj_pass_m = np.int32([1 if i in idx_groups[group] else 0 for i in range(r200s.shape[0])])
             # Find profile median
             y = [list(dens_profs[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200.shape[0])]
             prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
-- 
2.43.0


From 326992f636361fe33723a9f9cffb9a17b024de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 18/34] fix: bootstrap errors of empty bins are missing and an
 empty sample can be split with a vector quantity

---
 cosmic_profiles/common/cosmo_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index c7e9524..17f42f3 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -190,6 +190,9 @@ def getMeanOrMedianAndError(y, ERROR_METHOD, N_REAL=10):
         err_high = np.empty(len(y), dtype = np.float64)
         for random_state in range(N_REAL):
             for d_bin in range(len(y)):
+                if len(y[d_bin]) == 0: # Nothing to resample
+                    mean_l[d_bin].append(np.nan)
+                    continue
                 boot = resample(y[d_bin], replace=True, n_samples=len(y[d_bin]), random_state=random_state)
                 mean_l[d_bin].append(np.average(boot))
         for d_bin in range(len(y)):
@@ -250,7 +253,7 @@ def M_split(m, center, start_time, v = None, NB_BINS = 2):
         chunk_size = len(m)//NB_BINS + 1
     if chunk_size == 0:
         idx_groups = []
-        if v == None:
+        if v is None:
             return max_min_m, m_groups, gx_center_groups, idx_groups
         return max_min_m, m_groups, gx_center_groups, v_groups, idx_groups 
     m_groups = list(getBlocks(list(m_ordered), chunk_size)) # List of lists
@@ -265,6 +268,6 @@ def M_split(m, center, start_time, v = None, NB_BINS = 2):
         
     idx_groups = [[args_sort[i] for i in np.arange(int(np.array([len(m_groups[k]) for k in range(j)]).sum()), int(np.array([len(m_groups[k]) for k in range(j)]).sum())+len(m_groups[j]))] for j in range(len(m_groups))]
     if v_groups == []:
-        assert v == None
+        assert v is None
         return max_min_m, m_groups, gx_center_groups, idx_groups
     return max_min_m, m_groups, gx_center_groups, v_groups, idx_groups
\ No newline at end of file
-- 
2.43.0


From c34d70b67a439e91b5bd3c111b3d1c29bdc9a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 19/34] fix: sample a single Fibonacci point and
 two-dimensional shells

---
 cosmic_profiles/common/python_routines.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 4f1dbe3..db1e43c 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -272,7 +272,7 @@ def fibonacci_sphere(samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
@@ -326,7 +326,7 @@ def fibonacci_ellipsoid(a, b, c, samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
@@ -366,7 +366,7 @@ def drawUniformFromEllipsoid(dims, a, b, c, Nptc, ell_nb):
     # Part 1: Generating uniform random vectors inside the 3-ball
     a_val = a[ell_nb]
     b_val = b[ell_nb]
-    c_val = c[ell_nb]
+    c_val = c[ell_nb] if c is not None else None
     N_reals = Nptc[ell_nb]
     X_tmp = np.zeros((N_reals, dims))
     Z = np.zeros((N_reals, dims))
@@ -448,11 +448,11 @@ def drawUniformFromShell(dims, a, b, c, Nptc, shell_nb):
     x = np.arange(a.shape[0]+1)/(a.shape[0])
     a_inter = interp1d(x, np.hstack((0.0, a)))
     b_inter = interp1d(x, np.hstack((0.0, b)))
-    c_inter = interp1d(x, np.hstack((0.0, c)))
+    c_inter = interp1d(x, np.hstack((0.0, c))) if dims == 3 else np.zeros_like # Flat in 2D
 
     # Part 1: Generating uniform random vectors inside the 3-ball
     a_val = a[shell_nb]
-    c_val = c[shell_nb]
+    c_val = c[shell_nb] if c is not None else None
     N_reals = Nptc[shell_nb]
     X_tmp = np.zeros((N_reals, dims))
     Z = np.zeros((N_reals, dims))
@@ -484,7 +484,7 @@ def drawUniformFromShell(dims, a, b, c, Nptc, shell_nb):
         ptsnew[:,2] = np.arctan2(xyz[:,1], xyz[:,0])
         return ptsnew
     
-    X_sph = transformCartToSpher(X)
+    X_sph = transformCartToSpher(X if dims == 3 else np.hstack((X, np.zeros((N_reals,1)))))
     rand = np.random.uniform(x[shell_nb], x[shell_nb+1], size = X.shape[0])
     a_target = a_inter(rand)
     b_target = b_inter(rand)
@@ -494,7 +494,7 @@ def drawUniformFromShell(dims, a, b, c, Nptc, shell_nb):
     z_new = np.cos(X_sph[:,1])*c_target
     Y = np.hstack((np.reshape(x_new, (x_new.shape[0],1)), np.reshape(y_new, (y_new.shape[0],1)), np.reshape(z_new, (z_new.shape[0],1))))
     # All ptcs pt in Y fulfill inShell(Y[pt], a, b, c, shell_nb) == True.
-    return Y
+    return Y[:,:dims]
 
 def respectPBCNoRef(xyz, L_BOX = None):
     """
-- 
2.43.0


From c1bce93965d245ddd4e8e0a4ff49d781f1b8c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 20/34] fix: particle identifiers are read as integers, without
 loss

---
 cosmic_profiles/gadget/readgadget.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 56dceca..e1233b0 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -100,7 +100,8 @@ def read_field(snapshot, block, ptype):
         raise Exception('block not implemented in readgadget!')
 
     if fformat=="binary":
-        array = readsnap.read_block(filename, block, parttype=ptype)/unit_fac
+        array = readsnap.read_block(filename, block, parttype=ptype)
+        if block!="ID  ":  array = array/unit_fac # Identifiers stay integers
         return array
     else:
         prefix = 'PartType%d/'%ptype
@@ -112,7 +113,8 @@ def read_field(snapshot, block, ptype):
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-            array = f[prefix+suffix][:]/unit_fac
+            array = f[prefix+suffix][:]
+            if block!="ID  ":  array = array/unit_fac # Identifiers stay integers
         f.close()
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
@@ -150,7 +152,7 @@ def read_block(snapshot, block, ptype, verbose=False):
         dtype=np.float64
     elif block=="ID  ":  
         unit_fac = 1
-        dtype=read_field(filename, block, ptype[0]).dtype
+        dtype=np.uint64
     elif block=="VEL ":  
         unit_fac = v_target_over_curr
         dtype=np.dtype((np.float64,3))
@@ -166,7 +168,8 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Format I or format II Gadget files
         if fformat=="binary":
-            array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
+            data = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            array[offset:offset+Nall[pt]] = data if block=="ID  " else data/unit_fac
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
-- 
2.43.0


From b518547022ea0f94ea63ab31a79b99f8ab33f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 21/34] fix: subfiles without particles of a type are read and
 missing blocks are not filled with masses

---
 cosmic_profiles/gadget/readgadget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index e1233b0..22609b9 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -108,7 +108,9 @@ def read_field(snapshot, block, ptype):
         f = h5py.File(filename, 'r')
         
         if '%s%s'%(prefix,suffix) not in f:
-            if Masses[ptype] != 0.0:
+            if Npart[ptype] == 0: # No particles of this type in this (sub)file
+                array = np.zeros((0,3) if block in ["POS ", "VEL "] else 0, np.uint64 if block=="ID  " else np.float64)
+            elif block=="MASS" and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
-- 
2.43.0


From f9d1b6a72cde599858437d9aac8d4a5e84eb3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 22/34] fix: find the blocks of format II snapshots

---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 5575124..a1573e9 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -118,7 +118,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
     if format==2:
       f.seek(4, os.SEEK_CUR)
       curblock = f.read(4)
-      if (block == curblock):
+      if (block.encode() == curblock):
         found = True
       f.seek(8, os.SEEK_CUR)  
     else:
-- 
2.43.0


From 1f99a1782b281b3678a22d6b90a1c95aa5f21232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 23/34] fix: read long identifiers and single-precision blocks
 of binary snapshots

---
 cosmic_profiles/gadget/readsnap.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index a1573e9..9589972 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -351,10 +351,13 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       
     offset,blocksize = find_block(curfilename,format,swap,block,block_num)
     
-    if i==0: # Fix data type for ID if long IDs are used
-      if block=="ID  ":
-        if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
-          dt = np.uint64 
+    # Fix data type if long IDs or single-precision data are used
+    if block=="ID  ":
+      if blocksize == np.dtype(dt).itemsize*curpartnum * 2 and curpartnum > 0:
+        dt = np.uint64 
+        data = data.astype(dt)
+    elif np.dtype(dt).base==np.float64 and blocksize*2 == np.dtype(dt).itemsize*curpartnum and curpartnum > 0:
+      dt = np.dtype((np.float32,np.dtype(dt).shape))
         
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-- 
2.43.0


From dd7249e85ae3d97e9908c10eb2000407c89af0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:26 +0000
Subject: [PATCH 24/34] fix: getObjInfoGadget counts the resolved objects
 instead of failing

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e960c94..59e1621 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -841,7 +841,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         print_status(rank, self.start_time, "The total number of objects is {0}".format(len(nb_shs)))
         print_status(rank, self.start_time, "The total number of SHs (subhalos) is {0}".format(len(sh_len)))
         print_status(rank, self.start_time, "The number of objects that have no SH is {0}".format(nb_shs[nb_shs == 0].shape[0]))
-        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len([x for x in self.idx_cat.base if x != []])))
+        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len(self.obj_size.base)))
         del nb_shs; del sh_len; del fof_sizes; del group_r200
         
     def getHeader(self): # Header
-- 
2.43.0


From 2617f018c77c175bdd3c2cfe2644ed67e1569546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:26 +0000
Subject: [PATCH 25/34] fix: DensShapeProfsGadget can be constructed on
 processes other than the root

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 59e1621..56cae46 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -581,11 +581,12 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             del nb_shs; del sh_len; del fof_sizes; del group_r200
         else:
             del nb_shs; del sh_len; del fof_sizes; del group_r200; del xyz; del masses  
-            obj_cat = None
-            obj_r200 = None
-            obj_size = None
-            xyz = None
-            masses = None
+            # Only the root process holds the catalogue
+            obj_cat = np.empty(0, np.int32)
+            obj_r200 = np.empty(0, np.float64)
+            obj_size = np.empty(0, np.int32)
+            xyz = np.empty((0,3), np.float64)
+            masses = np.empty(0, np.float64)
         # Find L_BOX
         head = readgadget.header(self.SNAP_DEST)
         L_BOX = np.float64(head.boxsize)
-- 
2.43.0


From 3db648b6cf2b25c78064f13e9d28874d8f0608fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:26 +0000
Subject: [PATCH 26/34] fix: fitDensProfs returns on processes other than the
 root

---
 cosmic_profiles/dens_profs/dens_profs_classes.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 8f78968..64940b0 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -174,6 +174,8 @@ cdef class DensProfsBase(CosmicBase):
         :rtype: structured array, containing (N3, n) floats, where n is the number of free parameters in the model ``method``"""
         checkDensFitMethod(method)
         best_fits = self._fitDensProfsBase(self.r200.base, self.obj_size.base, np.float64(dens_profs), np.float64(r_over_r200), method, obj_numbers)
+        if best_fits is None: # Only the root process holds the fits
+            return None
         model_pars = {'einasto': [('alpha', "f8"), ('r_s', "f8")], 'nfw': [('r_s', "f8")], 'hernquist': [('r_s', "f8")], 'alpha_beta_gamma': [('alpha', "f8"), ('beta', "f8"), ('gamma', "f8"), ('r_s', "f8")]}
         FITS_PROF_DTYPE = [("rho_s", "f8")] + [tuple_ for tuple_ in model_pars[method['profile']]]
         FITS_PROF_DTYPE+=[("is_conv", "bool")]
-- 
2.43.0


From c9793d08175008613cc6d12b273b1fd9ab955c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 27/34] fix: create relative output directories where the files
 are written

---
 cosmic_profiles/common/cosmic_base_class.pyx        |  8 ++++----
 cosmic_profiles/dens_profs/dens_profs_tools.py      |  2 +-
 cosmic_profiles/shape_profs/shape_profs_classes.pyx |  4 ++--
 cosmic_profiles/shape_profs/shape_profs_tools.py    | 10 +++++-----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 4bef1f5..3a0ec5b 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -468,7 +468,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -522,7 +522,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -583,7 +583,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -641,7 +641,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index af18633..42d8035 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -155,7 +155,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         best_fit_dict = getModelParsDict(best_fit, method['profile'])
         del r200
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Go to outgoing unit system
         l_internal, m_internal, vel_internal = config.getLMVInternal()
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 56cae46..7420dd7 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -165,7 +165,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
                                 
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
@@ -260,7 +260,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
         
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 37fc824..9f977ed 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -149,7 +149,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         ERROR_METHOD = "median_quantile"
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Q
         plt.figure()
@@ -278,7 +278,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # T counting
         plt.figure()
@@ -333,7 +333,7 @@ def getGlobalTHist(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s,
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # T counting
         plt.figure()
@@ -379,7 +379,7 @@ def getGlobalEpsHist(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SN
     
     if rank == 0:
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         eps = getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER)
         plt.figure()
@@ -424,7 +424,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Direct fitting result prep, needed for both D and A
         eps = getEpsilon(idx_cat_new, obj_size_new, xyz, masses, L_BOX, CENTER)
-- 
2.43.0


From d21138781f6b24892a0079db358c4dd278ffd7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 28/34] fix: unconverged radii do not remove halos from the
 triaxiality and ellipticity histograms

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 9f977ed..c81cf53 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -270,7 +270,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
     if rank == 0:
         idx = np.zeros((d.shape[0],), dtype = np.int32)
         for obj in range(idx.shape[0]):
-            idx[obj] = np.argmin(abs(d[obj] - r200[obj]*frac_r200))        
+            idx[obj] = np.argmin(np.abs(r_over_r200 - frac_r200)) # d[obj] is NaN at unconverged radii        
         
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
-- 
2.43.0


From 06429499ebfc0beaeb88aea39bf9b1254326aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 29/34] fix: draw the particles of halos cut by the boundary
 next to their centre

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 7420dd7..208129b 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -186,7 +186,8 @@ cdef class DensShapeProfsBase(DensProfsBase):
                 for idx, ptc in enumerate(self.idx_cat.base[offsets[obj_number]:offsets[obj_number+1]]):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
-                obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                # Periodic images of the particles closest to the centre, which is inside the box
+                obj = respectPBCNoRef(np.vstack((center, config.LengthInternalToOut(obj))), config.LengthInternalToOut(self.L_BOX))[1:]
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
@@ -281,7 +282,8 @@ cdef class DensShapeProfsBase(DensProfsBase):
                 for idx, ptc in enumerate(self.idx_cat.base[offsets[obj_number]:offsets[obj_number+1]]):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
-                obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                # Periodic images of the particles closest to the centre, which is inside the box
+                obj = respectPBCNoRef(np.vstack((center, config.LengthInternalToOut(obj))), config.LengthInternalToOut(self.L_BOX))[1:]
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
-- 
2.43.0


From 3e3f4a294aa222bc3fddafc9cacdbd22ace3bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 30/34] fix: a refused unit system leaves the little h in force
 unchanged

---
 cosmic_profiles/common/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 0da9c14..00a098f 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -101,9 +101,11 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     global InUnitMass_in_g
     global InUnitVelocity_in_cm_per_s
     global LittleH
+    previous_h = LittleH
     LittleH = little_h
     
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    LittleH = previous_h # Stays in force unless all units are allowed
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -113,6 +115,7 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     if type(velocity_in_cm_per_s) == str:
         assert velocity_in_cm_per_s in velocity_in_cm_per_s_d.keys(), "Unit not allowed for velocity_in_cm_per_s. Choose from {} or provide vel in cm/s".format(list(velocity_in_cm_per_s_d.keys()))
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
+    LittleH = little_h
     InUnitLength_in_cm = length_in_cm
     InUnitMass_in_g = mass_in_g
     InUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
@@ -133,9 +136,11 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     global OutUnitMass_in_g
     global OutUnitVelocity_in_cm_per_s
     global LittleH
+    previous_h = LittleH
     LittleH = little_h
     
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    LittleH = previous_h # Stays in force unless all units are allowed
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -145,6 +150,7 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     if type(velocity_in_cm_per_s) == str:
         assert velocity_in_cm_per_s in velocity_in_cm_per_s_d.keys(), "Unit not allowed for velocity_in_cm_per_s. Choose from {} or provide vel in cm/s".format(list(velocity_in_cm_per_s_d.keys()))
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
+    LittleH = little_h
     OutUnitLength_in_cm = length_in_cm
     OutUnitMass_in_g = mass_in_g
     OutUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
-- 
2.43.0


From d6a8fc83e413f9bc549bb3bd704bda908a2e86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 31/34] fix: non-integers in a list of object numbers are
 refused instead of truncated

---
 cosmic_profiles/common/cosmic_base_class.pyx  | 12 +++----
 cosmic_profiles/common/python_routines.py     | 13 ++++++++
 .../dens_profs/dens_profs_classes.pyx         |  6 ++--
 .../shape_profs/shape_profs_classes.pyx       | 32 +++++++++----------
 4 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 3a0ec5b..a7d8904 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -4,7 +4,7 @@
 
 import numpy as np
 cimport cython
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat
+from cosmic_profiles.common.python_routines import print_status, getIntSelection, isValidSelection, getSubSetIdxCat
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs
 from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs, getMethodInternal
@@ -932,7 +932,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -976,7 +976,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -1020,7 +1020,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `fitDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1067,7 +1067,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `estConcentrations()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1112,7 +1112,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `plotDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index db1e43c..d7a3bbd 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -606,6 +606,19 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
             remnant.append(idx)            
     return cat_out, obj_size_out[remnant]
 
+def getIntSelection(obj_numbers):
+    """ Convert list of object indices to integer array, without truncating non-integers
+    
+    :param obj_numbers: list of object indices of interest
+    :type obj_numbers: list of int
+    :return: object indices of interest
+    :rtype: (N,) ints
+    :raises: ``ValueError`` if there are non-integers in selection of objects"""
+    obj_numbers_int = np.int32(obj_numbers)
+    if not np.array_equal(obj_numbers_int, obj_numbers):
+        raise ValueError("Please supply integers only for your object selection!")
+    return obj_numbers_int
+
 def isValidSelection(obj_numbers, nb_objects):
     """ Trivial function to check whether selection of objects is valid
     
diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 64940b0..cc25e7a 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -5,7 +5,7 @@
 import numpy as np
 from cosmic_profiles.common.cosmic_base_class cimport CosmicBase
 from cosmic_profiles.common import config
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config, checkDensFitMethod
+from cosmic_profiles.common.python_routines import print_status, getIntSelection, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config, checkDensFitMethod
 from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
 from cosmic_profiles.gadget.gen_catalogues import calcObjCat
 from cosmic_profiles.gadget import readgadget
@@ -103,7 +103,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in config.OutUnitLength_in_cm and masses in config.OutUnitMass_in_g
         :rtype: structured array, containing (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -128,7 +128,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 208129b..2245e6f 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -16,7 +16,7 @@ import subprocess
 import os
 currentdir = os.path.dirname(os.path.abspath(inspect.getfile(inspect.currentframe())))
 from cosmic_profiles.dens_profs.dens_profs_classes cimport DensProfsBase
-from cosmic_profiles.common.python_routines import print_status, set_axes_equal, fibonacci_ellipsoid, respectPBCNoRef, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config
+from cosmic_profiles.common.python_routines import print_status, set_axes_equal, fibonacci_ellipsoid, respectPBCNoRef, getIntSelection, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getGlobalEpsHist, getLocalEpsHist
 from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
@@ -86,7 +86,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         print_status(rank,self.start_time,'Starting getShapeCatLocal() with snap {0}'.format(self.SNAP))
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -121,7 +121,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             3 x (number_of_objs, 3) double arrays"""
         print_status(rank,self.start_time,'Starting getShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -153,7 +153,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizLocalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         D_BINS = ROverR200.shape[0]-1
         if rank == 0:
@@ -250,7 +250,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizGlobalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -327,7 +327,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotGlobalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -345,7 +345,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotLocalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -365,7 +365,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotLocalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -386,7 +386,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotGlobalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -405,7 +405,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotShapeProfs() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -422,7 +422,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -439,7 +439,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -610,7 +610,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -652,7 +652,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -687,7 +687,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
@@ -713,7 +713,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = getIntSelection(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
-- 
2.43.0


From f2a1f1f50da25b8a8cca9a3377a14d55fc2fb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:19 +0000
Subject: [PATCH 32/34] fix: memoised functions get arrays without elements in
 their own type

---
 cosmic_profiles/common/caching.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 8ce2eb6..a76c8b9 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -269,12 +269,12 @@ def np_cache_factory(nb_arrs, nb_lists):
     def np_cache(function):
         
         GB = 1024**3 # in bytes
-        def uncached_wrapper(*args_cached, dims):
+        def uncached_wrapper(*args_cached, dims, dtypes):
             args_l = []
             for arg in args_cached:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                args_l[arr_nb] = np.array(args_l[arr_nb]).reshape(dims[arr_nb])
+                args_l[arr_nb] = np.array(args_l[arr_nb], dtype=dtypes[arr_nb]).reshape(dims[arr_nb])
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
@@ -293,16 +293,19 @@ def np_cache_factory(nb_arrs, nb_lists):
         def wrapper(*args):
             args_l = []
             dims = []
+            dtypes = []
             for arg in args:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
                 dims.append(args_l[arr_nb].shape)
+                dtypes.append(args_l[arr_nb].dtype)
                 args_l[arr_nb] = tuple(args_l[arr_nb].flatten())
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
             dims = tuple(dims)
+            dtypes = tuple(dtypes)
             args_l = tuple(args_l)
-            return get_cached_wrapper()(*args_l, dims=dims)
+            return get_cached_wrapper()(*args_l, dims=dims, dtypes=dtypes)
     
         # Copy lru_cache attributes over too
         wrapper.cache_info = lambda: get_cached_wrapper().cache_info()
-- 
2.43.0


From dcc2ece457ddf3bdfef0f03cfcd4c46dbff3d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:19 +0000
Subject: [PATCH 33/34] fix: the ellipticity of a single particle is undefined,
 not an error

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index c81cf53..9d1a49f 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -55,7 +55,7 @@ def getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, angle=0.0):
             qxx = shape_tensor[0,0]
             qyy = shape_tensor[1,1]
             qxy = shape_tensor[0,1]
-            eps.append((qxx-qyy)/(qxx+qyy) + complex(0,1)*2*qxy/(qxx+qyy))
+            eps.append((qxx-qyy)/(qxx+qyy) + complex(0,1)*(2*qxy/(qxx+qyy)))
         eps = np.array(eps)
         return eps
     else:
-- 
2.43.0


From 040593ff3d844dd2e8fa4dfd6200a6de750fa0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:24 +0000
Subject: [PATCH 34/34] fix: kernel-based density profile of a halo with a
 particle exactly at its center

---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index a407a3c..bc9a79d 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -296,7 +296,8 @@ def calcDensProfsKernelBased(double[:,:] xyz, double[:] masses, double[:] r200s,
         hs = 0.005*r200s[p]*(dists.base/(0.1*r200s[p]))**(0.5)
         for r_idx in prange(r_res, schedule = 'dynamic', nogil = True):
             for n in range(obj_size[p]):
-                dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
+                if hs[n] > 0.0: # The kernel of a particle at the very center has no width
+                    dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
     del obj_size; del idx_cat; del shell; del xyz_obj; del m_obj; del centers
     del dists; del hs
     return dens_profs.base
\ No newline at end of file
-- 
2.43.0

