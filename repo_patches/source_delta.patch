From 221563122fcb1a2c164614657578341da5f2ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 01/24] fix: translate particles across the box boundary
 instead of reflecting them (CythonHelpers.respectPBCNoRef)

---
 .../cython_helpers/helper_class.pyx           | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 99bf90f..611f913 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -171,7 +171,8 @@ cdef class CythonHelpers:
         Modify xyz inplace so that it respects the box periodicity.
         
         If point distro xyz has particles separated in any Cartesian direction
-        by more than L_BOX/2, reflect those particles along L_BOX/2
+        by more than L_BOX/2, translate those particles by L_BOX so that they
+        end up next to the first particle
         
         :param xyz: coordinates of particles of type 1 or type 4
         :type xyz: (N^3x3) floats
@@ -187,15 +188,21 @@ cdef class CythonHelpers:
         cdef float dist_y
         cdef float dist_z
         for i in range(xyz.shape[0]):
-            dist_x = CythonHelpers.cython_abs(xyz[ref, 0]-xyz[i,0])
+            dist_x = xyz[i,0]-xyz[ref,0]
             if dist_x > L_BOX/2:
-                xyz[i,0] = L_BOX-xyz[i,0] # Reflect x-distances along L_BOX/2
-            dist_y = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
+                xyz[i,0] = xyz[i,0]-L_BOX # Translate by one box length
+            elif dist_x < -L_BOX/2:
+                xyz[i,0] = xyz[i,0]+L_BOX
+            dist_y = xyz[i,1]-xyz[ref,1]
             if dist_y > L_BOX/2:
-                xyz[i,1] = L_BOX-xyz[i,1] # Reflect y-distances along L_BOX/2
-            dist_z = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
+                xyz[i,1] = xyz[i,1]-L_BOX
+            elif dist_y < -L_BOX/2:
+                xyz[i,1] = xyz[i,1]+L_BOX
+            dist_z = xyz[i,2]-xyz[ref,2]
             if dist_z > L_BOX/2:
-                xyz[i,2] = L_BOX-xyz[i,2] # Reflect z-distances along L_BOX/2
+                xyz[i,2] = xyz[i,2]-L_BOX
+            elif dist_z < -L_BOX/2:
+                xyz[i,2] = xyz[i,2]+L_BOX
         return xyz
     
     @cython.boundscheck(False)
-- 
2.43.0


From 4003a12ec79a069ed9abaafcea163a30d2f1bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 02/24] fix: wrap particles around the first particle so that
 split objects are made whole (respectPBCNoRef)

---
 cosmic_profiles/common/python_routines.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2466ef3..487b94a 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -511,12 +511,10 @@ def respectPBCNoRef(xyz, L_BOX = None):
     :rtype: (N^3x3) floats"""
     if L_BOX != 0.0:
         xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
-        rng = default_rng(seed=0) # Reference particle does not matter, i.e. ref = 0 is an option, but it is better to average over some random particles
-        choose = rng.choice(np.arange(len(xyz)), (min(50,len(xyz)),), replace = False)
-        ref_xyz = np.average(xyz_out[choose], axis = 0)
-        dist_x = xyz_out[:,0]-ref_xyz[0]
-        dist_y = xyz_out[:,1]-ref_xyz[1]
-        dist_z = xyz_out[:,2]-ref_xyz[2]
+        # The first particle is the reference; an average over particles would fall in between the two parts of a split object
+        dist_x = xyz[:,0]-xyz[:1,0]
+        dist_y = xyz[:,1]-xyz[:1,1]
+        dist_z = xyz[:,2]-xyz[:1,2]
         xyz_out[:,0][dist_x > L_BOX/2] = xyz_out[:,0][dist_x > L_BOX/2]-L_BOX
         xyz_out[:,0][dist_x < -L_BOX/2] = xyz_out[:,0][dist_x < -L_BOX/2]+L_BOX
         xyz_out[:,1][dist_y > L_BOX/2] = xyz_out[:,1][dist_y > L_BOX/2]-L_BOX
-- 
2.43.0


From 98e46c2a8f2a32208af7f50dfc28a7d730172df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 03/24] fix: do not overwrite the particle indices in
 calcDensProfsEllDirectBinning

---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 987ecf0..2b8b9ae 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -167,7 +167,6 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] inter_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
-        idx_cat.base[offsets[p]:offsets[p+1]] = np.array(idx_cat[p])
         r_vec = np.float64(a.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
-- 
2.43.0


From 1f4cdee45966372d3ae5ae4551cdee335f78a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 04/24] fix: look up the internal mass unit under its actual
 name (MassInternalToOut, MassInToInternal)

---
 cosmic_profiles/common/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 24264c4..0da9c14 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -166,7 +166,7 @@ def MassInternalToOut(mass_arr):
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10M_sun/h']/OutUnitMass_in_g)
+    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -196,7 +196,7 @@ def MassInToInternal(mass_arr):
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10M_sun/h'])
+    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
-- 
2.43.0


From 5009197f0d98c2a2b9ef4f28e3c98195e5cfe918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 05/24] fix: keep zero components of converged axis vectors,
 mask only the shells that did not converge

---
 .../shape_profs/shape_profs_algos.pyx         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 88c357e..eab5035 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -619,9 +619,9 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -727,9 +727,9 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -847,9 +847,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -963,9 +963,9 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
-- 
2.43.0


From 184266bffe23a95e7bef953536fd1779baf479e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 06/24] fix: hand the particle velocities to
 calcObjMorphLocalVelDisp

---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index eab5035..595a9ad 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -821,6 +821,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,0] = xyz[idx_cat[offsets[p]+n],0]
             xyz_obj[openmp.omp_get_thread_num(),n,1] = xyz[idx_cat[offsets[p]+n],1]
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
+            vxyz_obj[openmp.omp_get_thread_num(),n,0] = vxyz[idx_cat[offsets[p]+n],0]
+            vxyz_obj[openmp.omp_get_thread_num(),n,1] = vxyz[idx_cat[offsets[p]+n],1]
+            vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
         xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
-- 
2.43.0


From 3085dbfa904bd95eaa2ee5ac32bcaa6bc7925029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 07/24] fix: calcMode terminates on coinciding particles

---
 cosmic_profiles/common/cosmo_tools.py     | 2 +-
 cosmic_profiles/common/python_routines.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index c7e9524..73e52a9 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -27,7 +27,7 @@ def calcMode(xyz, masses, rad):
     distances_all = np.linalg.norm(xyz-com,axis=1)
     xyz_constrain = xyz[distances_all < rad]
     masses_constrain = masses[distances_all < rad]
-    if xyz_constrain.shape[0] < 5: # If only < 5 particles left, return
+    if xyz_constrain.shape[0] < 5 or not np.any(distances_all > 0.0): # If only < 5 particles left (or all coincide), return
         return com
     else:
         rad *= 0.83 # Reduce radius by 17 %
diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 487b94a..3483c6c 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -299,7 +299,7 @@ def calcMode(xyz, masses, rad):
     distances_all = np.linalg.norm(xyz-com,axis=1)
     xyz_constrain = xyz[distances_all < rad]
     masses_constrain = masses[distances_all < rad]
-    if xyz_constrain.shape[0] < 5: # If only < 5 particles left, return
+    if xyz_constrain.shape[0] < 5 or not np.any(distances_all > 0.0): # If only < 5 particles left (or all coincide), return
         return com
     else:
         rad *= 0.83 # Reduce radius by 17 %
-- 
2.43.0


From fd89dff9c2c59ed7127283d3e4b1f95900674ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 08/24] fix: make getCatWithinFracR200 (and drawLocalEpsHist)
 run: centers, box size, cKDTree workers, masses

---
 cosmic_profiles/common/python_routines.py        | 8 ++++----
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 3483c6c..39e3020 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -591,15 +591,15 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
     for idx in range(len(obj_size_in)): # Calculate centers of objects
         xyz_ = respectPBCNoRef(xyz[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], L_BOX)
         if CENTER == 'mode':
-            centers.base[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
+            centers[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
         else:
-            centers.base[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
+            centers[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
     remnant = []
     for idx in range(len(obj_size_in)):
         obj = cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]
-        xyz_ = respectPBCNoRef(xyz[obj])
+        xyz_ = respectPBCNoRef(xyz[obj], L_BOX)
         tree = cKDTree(xyz_, leafsize=2, balanced_tree = False)
-        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, n_jobs=-1)
+        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, workers=-1)
         if all_nn_idxs != []:
             cat_out = np.hstack((cat_out, np.array(obj)[all_nn_idxs]))
             obj_size_out[idx] = len(all_nn_idxs)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index bc6b308..37fc824 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -421,7 +421,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
     
     if rank == 0:
         # Update h_cat so that only particles within r200 are considered
-        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
+        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
-- 
2.43.0


From ce1147cfe453eb03335cb095b77e7bb552b50557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 09/24] fix: call _getShapeCatVelGlobalBase with the arguments
 it takes (getShapeCatVelGlobal)

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 82aecca..e960c94 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -656,7 +656,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             suffix = '_v{}_'.format(self.OBJ_TYPE)
-            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, self.CENTER, self.SAFE, REDUCED, suffix)
+            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
-- 
2.43.0


From c6977deb79e50fc9452f23c738efba1d32ea9476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 10/24] fix: M_split accepts a velocity array

---
 cosmic_profiles/common/cosmo_tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index 73e52a9..6248e26 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -250,7 +250,7 @@ def M_split(m, center, start_time, v = None, NB_BINS = 2):
         chunk_size = len(m)//NB_BINS + 1
     if chunk_size == 0:
         idx_groups = []
-        if v == None:
+        if v is None:
             return max_min_m, m_groups, gx_center_groups, idx_groups
         return max_min_m, m_groups, gx_center_groups, v_groups, idx_groups 
     m_groups = list(getBlocks(list(m_ordered), chunk_size)) # List of lists
@@ -264,7 +264,6 @@ def M_split(m, center, start_time, v = None, NB_BINS = 2):
             max_min_m.append(np.float64(m_ordered[i*chunk_size]))
         
     idx_groups = [[args_sort[i] for i in np.arange(int(np.array([len(m_groups[k]) for k in range(j)]).sum()), int(np.array([len(m_groups[k]) for k in range(j)]).sum())+len(m_groups[j]))] for j in range(len(m_groups))]
-    if v_groups == []:
-        assert v == None
+    if v is None:
         return max_min_m, m_groups, gx_center_groups, idx_groups
     return max_min_m, m_groups, gx_center_groups, v_groups, idx_groups
\ No newline at end of file
-- 
2.43.0


From 39cbaa039833d5bfa2e1540aa35b1586709a38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 11/24] fix: format the LAPACK error message

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 611f913..a45eae2 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -159,7 +159,7 @@ cdef class CythonHelpers:
         PyDataMem_FREE(iwork)
         if info != 0:
             if info < 0:
-                raise Exception("Error in parameter : %s" & abs(info))
+                raise Exception("Error in parameter : %s" % abs(info))
             else:
                 raise Exception("Algorithm failed to converge")
                 
-- 
2.43.0


From 5d5f58ca625980c82386c75dd377551676fb0b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 12/24] fix: cosmo_tools.respectPBC translates instead of
 reflecting

---
 cosmic_profiles/common/cosmo_tools.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/common/cosmo_tools.py b/cosmic_profiles/common/cosmo_tools.py
index 6248e26..59529d6 100644
--- a/cosmic_profiles/common/cosmo_tools.py
+++ b/cosmic_profiles/common/cosmo_tools.py
@@ -47,13 +47,16 @@ def respectPBC(xyz, L_BOX):
     :return: updated coordinates of particles of type 1 or type 4
     :rtype: (N,3) floats"""
     xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
-    ref = 0 # Reference particle does not matter
-    dist_x = abs(xyz_out[ref, 0]-xyz_out[:,0])
-    xyz_out[:,0][dist_x > L_BOX/2] = L_BOX-xyz_out[:,0][dist_x > L_BOX/2] # Reflect x-xyz_outition along L_BOX/2
-    dist_y = abs(xyz_out[ref, 1]-xyz_out[:,1])
-    xyz_out[:,1][dist_y > L_BOX/2] = L_BOX-xyz_out[:,1][dist_y > L_BOX/2] # Reflect y-xyz_outition along L_BOX/2
-    dist_z = abs(xyz_out[ref, 2]-xyz_out[:,2])
-    xyz_out[:,2][dist_z > L_BOX/2] = L_BOX-xyz_out[:,2][dist_z > L_BOX/2] # Reflect z-xyz_outition along L_BOX/2
+    # The first particle is the reference
+    dist_x = xyz[:,0]-xyz[:1,0]
+    dist_y = xyz[:,1]-xyz[:1,1]
+    dist_z = xyz[:,2]-xyz[:1,2]
+    xyz_out[:,0][dist_x > L_BOX/2] -= L_BOX # Translate by one box length
+    xyz_out[:,0][dist_x < -L_BOX/2] += L_BOX
+    xyz_out[:,1][dist_y > L_BOX/2] -= L_BOX # Translate by one box length
+    xyz_out[:,1][dist_y < -L_BOX/2] += L_BOX
+    xyz_out[:,2][dist_z > L_BOX/2] -= L_BOX # Translate by one box length
+    xyz_out[:,2][dist_z < -L_BOX/2] += L_BOX
     return xyz_out
     
 def chiSquareToIMultiDim(x, y):  
-- 
2.43.0


From aecd854cfada35ce98ab5f58bf234cb1e87db82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:07 +0000
Subject: [PATCH 13/24] fix: calcLocalSpread is exactly zero for coincident
 particles

The mean was accumulated in single precision from the coordinates themselves, so
that the spread of coincident particles came out as a rounding error instead of
zero; the shape algorithms then divided by zero instead of reporting NaN.
---
 cosmic_profiles/cython_helpers/helper_class.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index a45eae2..d583d3a 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -72,11 +72,11 @@ cdef class CythonHelpers:
         cdef float nns_mean_z = 0
         cdef int i
         for i in range(nns.shape[0]):
-            nns_mean_x += nns[i,0]/nns.shape[0]
-            nns_mean_y += nns[i,1]/nns.shape[0]
-            nns_mean_z += nns[i,2]/nns.shape[0]
+            nns_mean_x += (nns[i,0]-nns[0,0])/nns.shape[0] # Relative to first point, so that coincident points yield exactly zero
+            nns_mean_y += (nns[i,1]-nns[0,1])/nns.shape[0]
+            nns_mean_z += (nns[i,2]-nns[0,2])/nns.shape[0]
         for i in range(nns.shape[0]):
-            loc_spread += sqrt((nns[i,0]-nns_mean_x)**2+(nns[i,1]-nns_mean_y)**2+(nns[i,2]-nns_mean_z)**2)/nns.shape[0]
+            loc_spread += sqrt((nns[i,0]-nns[0,0]-nns_mean_x)**2+(nns[i,1]-nns[0,1]-nns_mean_y)**2+(nns[i,2]-nns[0,2]-nns_mean_z)**2)/nns.shape[0]
         return loc_spread
 
     @cython.boundscheck(False)
-- 
2.43.0


From d9cba0a99d2b1784129ed044db25cf7a60213928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 14/24] fix: degenerate shape tensors are flagged as not
 converged

For coplanar or collinear particles the smallest eigenvalue is zero up to
rounding. A negative rounding error made s NaN, which slipped through the
convergence test such that the entry was reported with a NaN axis ratio; an exact
zero raised a ZeroDivisionError for the whole catalogue.
---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 595a9ad..e31694b 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -98,6 +98,9 @@ cdef double[:] runShellAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] x
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not (eigval[0] > 0.0): # Degenerate shape tensor (e.g. coplanar points), axis ratios undefined
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -223,6 +226,9 @@ cdef double[:] runEllAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] xyz
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not (eigval[0] > 0.0): # Degenerate shape tensor (e.g. coplanar points), axis ratios undefined
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -344,6 +350,9 @@ cdef double[:] runEllVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:,:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not (eigval[0] > 0.0): # Degenerate shape tensor (e.g. coplanar points), axis ratios undefined
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -467,6 +476,9 @@ cdef double[:] runShellVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not (eigval[0] > 0.0): # Degenerate shape tensor (e.g. coplanar points), axis ratios undefined
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
-- 
2.43.0


From 4cf55be032e87fa2b1f72678ce75380d6fcbbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 15/24] fix: honour a fixed normalisation rho_s in density
 profile fits

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8889f1a..bee4ee9 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -263,6 +263,12 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     median = median[~np.isnan(median)]
     # Set initial guess and minimize scalar function
     try:
+        if 'rho_s' in method:
+            rho_s_lbound = method['rho_s']/np.average(median) # Only the rescaled median is fitted
+            rho_s_rbound = rho_s_lbound
+        else:
+            rho_s_lbound = 1e-7
+            rho_s_rbound = np.inf
         if method['profile'] == 'einasto':
             if 'alpha' in method:
                 alpha_lbound = method['alpha']
@@ -277,7 +283,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
@@ -305,7 +311,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         else:
             if 'r_s' in method:
@@ -315,7 +321,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
-- 
2.43.0


From 1432c130547defd69a37fec3d534aadb82fcf3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:23 +0000
Subject: [PATCH 16/24] fix: fixed dimensional parameters of density fits are
 in outgoing units

---
 cosmic_profiles/common/cosmic_base_class.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index dcb1a96..8fdf622 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -1026,6 +1026,11 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = dict(method) # Copy, fixed parameters are provided in outgoing units, too
+        if 'rho_s' in method:
+            method['rho_s'] = method['rho_s']*m_curr_over_target*l_curr_over_target**(-3)
+        if 'r_s' in method:
+            method['r_s'] = method['r_s']*l_curr_over_target
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1072,6 +1077,11 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = dict(method) # Copy, fixed parameters are provided in outgoing units, too
+        if 'rho_s' in method:
+            method['rho_s'] = method['rho_s']*m_curr_over_target*l_curr_over_target**(-3)
+        if 'r_s' in method:
+            method['r_s'] = method['r_s']*l_curr_over_target
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1117,6 +1127,11 @@ cdef class CosmicBase:
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs_ = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
         dens_profs_fit_ = dens_profs_fit.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs_fit is in M_sun*h^2/(Mpc)**3
+        method = dict(method) # Copy, fixed parameters are provided in outgoing units, too
+        if 'rho_s' in method:
+            method['rho_s'] = method['rho_s']*m_curr_over_target*l_curr_over_target**(-3)
+        if 'r_s' in method:
+            method['r_s'] = method['r_s']*l_curr_over_target
         obj_centers, obj_masses = self._getMassesCenters(obj_numbers) # In units of Mpc/h (internal length units) and 10^10*M_sun*h^2/(Mpc)**3
         
         if rank == 0:
-- 
2.43.0


From 9b35d1c9e9b3d5fd59ce872ed02d3c897236868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:03 +0000
Subject: [PATCH 17/24] fix: fits with every parameter fixed return those
 parameters

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index bee4ee9..f5af41c 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -284,7 +284,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
             res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = np.array(res.x)
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
                 alpha_lbound = method['alpha']
@@ -312,7 +312,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
             res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = np.array(res.x)
         else:
             if 'r_s' in method:
                 r_s_lbound = method['r_s']
@@ -322,7 +322,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
             res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            best_fit = np.array(res.x)
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
         best_fit = iguess*np.nan
-- 
2.43.0


From cdd925eb810fde882b5fb7962db2ed20e33c41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:03 +0000
Subject: [PATCH 18/24] fix: do not truncate object selections before
 validating them

---
 cosmic_profiles/common/cosmic_base_class.pyx  | 10 +++----
 .../dens_profs/dens_profs_classes.pyx         |  4 +--
 .../shape_profs/shape_profs_classes.pyx       | 30 +++++++++----------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 8fdf622..c1d33c5 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -932,7 +932,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -976,7 +976,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -1020,7 +1020,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `fitDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1071,7 +1071,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `estConcentrations()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1120,7 +1120,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `plotDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 8f78968..febb7ad 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -103,7 +103,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in config.OutUnitLength_in_cm and masses in config.OutUnitMass_in_g
         :rtype: structured array, containing (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -128,7 +128,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e960c94..1692184 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -86,7 +86,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         print_status(rank,self.start_time,'Starting getShapeCatLocal() with snap {0}'.format(self.SNAP))
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -121,7 +121,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             3 x (number_of_objs, 3) double arrays"""
         print_status(rank,self.start_time,'Starting getShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -153,7 +153,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizLocalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         D_BINS = ROverR200.shape[0]-1
         if rank == 0:
@@ -249,7 +249,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizGlobalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -325,7 +325,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotGlobalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -343,7 +343,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotLocalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -363,7 +363,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotLocalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -384,7 +384,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotGlobalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -403,7 +403,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotShapeProfs() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -420,7 +420,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -437,7 +437,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -607,7 +607,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -649,7 +649,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -684,7 +684,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
@@ -710,7 +710,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = np.array(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
-- 
2.43.0


From 52e82adea32642e6fa206c0d2ae4ea6e7a6036dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 19/24] fix: read back dumped local shape catalogues of one
 radius or one object

---
 cosmic_profiles/common/cosmic_base_class.pyx | 32 ++++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index c1d33c5..c00a066 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -118,14 +118,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -287,14 +287,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin = 2)
                 
                 l_internal, m_internal, vel_internal = config.getLMVInternal()
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
-- 
2.43.0


From 5bfb2a3b0c98f79c31cd74f5d8f18d65773b80be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:21 +0000
Subject: [PATCH 20/24] fix: cached functions receive arrays of the type they
 were called with

np_cache rebuilt array arguments from tuples, so that an empty integer array
became an array of floats (calcObjCat failed if there are no subhalos) and
equal arrays of different types shared their results.
---
 cosmic_profiles/common/caching.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 4781ba1..b6ab71d 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -270,12 +270,12 @@ def np_cache_factory(nb_arrs, nb_lists):
         
         GB = 1024**3 # in bytes
         @lru_cache(maxsize = config.CACHE_MAXSIZE, use_memory_up_to=(config.GBs * GB))
-        def cached_wrapper(*args_cached, dims):
+        def cached_wrapper(*args_cached, dims, dtypes):
             args_l = []
             for arg in args_cached:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                args_l[arr_nb] = np.array(args_l[arr_nb]).reshape(dims[arr_nb])
+                args_l[arr_nb] = np.array(args_l[arr_nb], dtype = dtypes[arr_nb]).reshape(dims[arr_nb])
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
@@ -284,16 +284,19 @@ def np_cache_factory(nb_arrs, nb_lists):
         def wrapper(*args):
             args_l = []
             dims = []
+            dtypes = [] # Equal numbers of different types hash equally, so that the types belong to the key
             for arg in args:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
                 dims.append(args_l[arr_nb].shape)
+                dtypes.append(args_l[arr_nb].dtype)
                 args_l[arr_nb] = tuple(args_l[arr_nb].flatten())
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
             dims = tuple(dims)
+            dtypes = tuple(dtypes)
             args_l = tuple(args_l)
-            return cached_wrapper(*args_l, dims=dims)
+            return cached_wrapper(*args_l, dims=dims, dtypes=dtypes)
     
         # Copy lru_cache attributes over too
         wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From e9ac553c7af8d5980c2da12585304a6aa6aa043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:54 +0000
Subject: [PATCH 21/24] fix: genHalo leaves the caller's parameter dictionary
 unchanged

---
 cosmic_profiles/mock_tools/mock_halo_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/mock_tools/mock_halo_gen.py b/cosmic_profiles/mock_tools/mock_halo_gen.py
index 9dba9f6..64cac42 100644
--- a/cosmic_profiles/mock_tools/mock_halo_gen.py
+++ b/cosmic_profiles/mock_tools/mock_halo_gen.py
@@ -58,7 +58,7 @@ def genHalo(tot_mass, res, model_pars, profile, a, b, c):
                 r_s = model_pars['r_s']
                 return 4*np.pi*r**2/((r/r_s)*(1+r/r_s)**2)
         rho_s = tot_mass/quad(getMassIntegrand0, 1e-8, a[-1], args=(profile, model_pars))[0]
-        model_pars['rho_s'] = rho_s
+        model_pars = dict(model_pars, rho_s = rho_s)
         
         # Determine number of particles in second shell (first proper shell)
         def getMassIntegrand(r, model_pars):
-- 
2.43.0


From 8b9c5f6f200f1958e15164e6d1b3fb4782a6698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:11 +0000
Subject: [PATCH 22/24] fix: snapshot files without particles of a type, and
 missing blocks other than the masses, in HDF5 snapshots

---
 cosmic_profiles/gadget/readgadget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 56dceca..aa91c3b 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -107,7 +107,9 @@ def read_field(snapshot, block, ptype):
         f = h5py.File(filename, 'r')
         
         if '%s%s'%(prefix,suffix) not in f:
-            if Masses[ptype] != 0.0:
+            if Npart[ptype] == 0: # Files without particles of this type do not contain its group
+                array = np.zeros((0,3) if block in ("POS ","VEL ") else 0, np.uint64 if block=="ID  " else np.float64)
+            elif block=="MASS" and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
-- 
2.43.0


From 1c2a6fa986577ab50e59da3dea35f36cf72ee5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:11 +0000
Subject: [PATCH 23/24] fix: blocks of binary snapshots of format 2 were never
 found

---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 5575124..a1573e9 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -118,7 +118,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
     if format==2:
       f.seek(4, os.SEEK_CUR)
       curblock = f.read(4)
-      if (block == curblock):
+      if (block.encode() == curblock):
         found = True
       f.seek(8, os.SEEK_CUR)  
     else:
-- 
2.43.0


From dac2fca9eedc33f3c6a129aec94e1337321b605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:11 +0000
Subject: [PATCH 24/24] fix: particle IDs beyond the precision of a float or
 beyond 32 bits were changed

---
 cosmic_profiles/gadget/readgadget.py | 10 ++++++----
 cosmic_profiles/gadget/readsnap.py   |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index aa91c3b..862eaaa 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -100,8 +100,8 @@ def read_field(snapshot, block, ptype):
         raise Exception('block not implemented in readgadget!')
 
     if fformat=="binary":
-        array = readsnap.read_block(filename, block, parttype=ptype)/unit_fac
-        return array
+        array = readsnap.read_block(filename, block, parttype=ptype)
+        return array if block=="ID  " else array/unit_fac # IDs do not fit into a float
     else:
         prefix = 'PartType%d/'%ptype
         f = h5py.File(filename, 'r')
@@ -114,7 +114,8 @@ def read_field(snapshot, block, ptype):
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-            array = f[prefix+suffix][:]/unit_fac
+            array = f[prefix+suffix][:]
+            if block!="ID  ":  array = array/unit_fac # IDs do not fit into a float
         f.close()
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
@@ -168,7 +169,8 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Format I or format II Gadget files
         if fformat=="binary":
-            array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
+            data = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            array[offset:offset+Nall[pt]] = data if block=="ID  " else data/unit_fac
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index a1573e9..6b3db25 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -355,6 +355,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       if block=="ID  ":
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
+          data = np.empty(allpartnum,dt)
         
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-- 
2.43.0

