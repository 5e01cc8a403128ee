From 088dc095e0eb9aa44e787de9596031eb1f2c6ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:14 +0000
Subject: [PATCH 01/58] fix: let periodic runs use the box-shear helper without
 JIT compilation

shear_basis_vectors is decorated before settings switches Numba off, so its
first call failed to compile and every periodic simulation stopped there.
---
 stokesian_dynamics/functions/shared.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index ba09bbf..f1aa985 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -424,7 +424,6 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
             new_dumbbell_sizes, new_dumbbell_positions, new_dumbbell_deltax)
 
 
-@njit(cache=True)
 def shear_basis_vectors(basis_canonical, box_dimensions,
                         Ot_infinity, Et_infinity):
     """Shear the basis vectors representing the periodic box."""
-- 
2.43.0


From 640d7daed6b3717335aee574baa2111216c6601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:17 +0000
Subject: [PATCH 02/58] fix: subtract the wavespace self-term from the periodic
 rotation mobility

The rotation-torque block kept the smooth part of each sphere's own field, so
rotation in a periodic box depended on the Ewald splitting parameter.
---
 .../functions/generate_Minfinity_periodic.py             | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index d1ce422..2f2734a 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -640,7 +640,7 @@ def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
 
 
 @njit(cache=True)
-def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
+def M22(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
         num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix c. Same form as PhD thesis
@@ -673,8 +673,9 @@ def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
         for q in range(num_K_points):
             sum_ck += cktilde(K_lmn[q], Ks_lmn[q], a1, a1, i, j, RR_K[q], c)
         sum_ck *= 1./L**3
-        # (5) = 0
-        return c_aa + sum_cr + sum_ck
+        # (5)
+        c_k0 = c*kronmatrix[i][j]*40*lamb**3/(3*spi)
+        return c_aa + sum_cr + sum_ck - c_k0
 
 
 @njit(cache=True)
@@ -993,7 +994,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[C_c[0]:C_c[0]+3,
                       C_c[1]:C_c[1]+3] = np.array([[
-                          M22(i, j, r, s, a1, a2, erfcs, L,
+                          M22(i, j, r, s, a1, a2, erfcs, L, lamb,
                               X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                               K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_Xdash_points, num_K_points,
-- 
2.43.0


From 342c614248a6ad89fdb7b591847c0f4f1f6a6bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:17 +0000
Subject: [PATCH 03/58] fix: use the right radii for sphere-bead coupling in
 periodic boxes

The radii were passed in the wrong order for the torque and stresslet blocks
between spheres and dumbbell beads; the unbounded version has them as here.
---
 .../functions/generate_Minfinity_periodic.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 2f2734a..c7965e9 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1088,12 +1088,12 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2,
+                          M12(j, i, mr, s, a2, a1,
                               X_lmn, num_X_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1123,11 +1123,11 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, X_lmn, num_X_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 029694aaded0aaccb2205a1deb684c1e11e18b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:33 +0000
Subject: [PATCH 04/58] fix: include the wavespace part of the odd mobility
 blocks in periodic boxes

Force-rotation and force-stresslet coupling in a periodic box used only the
real-space half of the Ewald sum. The wavespace half is odd in k and pairs with
the sine of the phase, so it does not cancel.
---
 .../functions/generate_Minfinity_periodic.py  | 110 ++++++++++++------
 1 file changed, 77 insertions(+), 33 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index c7965e9..fc27312 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -434,8 +434,8 @@ def mr(r, s, a1, a2, i, j, k, l, erfcs, c, mu):
 
 
 # === FOURIER TRANSFORMED J^k(k) ===
-# The only ones required are Jtilde, DD_Jtilde, D_Rtilde, D_Ktilde, LapJ_tilde,
-# DLapK_tilde.
+# The only ones required are Jtilde, D_Jtilde, DD_Jtilde, D_Rtilde, D_Ktilde,
+# LapJ_tilde, DLapK_tilde.
 
 @njit(cache=True)
 def Jtilde(ki, kj, ss, i, j, RR):
@@ -444,6 +444,13 @@ def Jtilde(ki, kj, ss, i, j, RR):
     return -((i == j)*ss**2 - ki*kj)*RR
 
 
+@njit(cache=True)
+def D_Jtilde(kkl, kki, kkj, ss, i, j, RR):
+    """Fourier transform of derivative of wavespace Oseen tensor,
+    D_l J^k_ij(k), divided by i. See PhD thesis section A.2.7."""
+    return kkl * Jtilde(kki, kkj, ss, i, j, RR)
+
+
 @njit(cache=True)
 def DD_Jtilde(kkm, kkl, kki, kkj, ss, i, j, RR):
     """Fourier transform of 2nd derivative of wavespace Oseen tensor,
@@ -503,6 +510,26 @@ def aktilde(kk, ss, a1, a2, i, j, RR, c):
               + (a1**2 + a2**2)/6. * Lap_Jtilde(kki, kkj, ss, i, j, RR))
 
 
+@njit(cache=True)
+def btktilde(kk, ss, a1, a2, i, j, RR, c):
+    """Element ij of the wavespace periodic version of Minfinity submatrix
+    b tilde, divided by i. See docstring for aktilde."""
+    k = (j+1) % 3
+    l = (j+2) % 3
+    return -0.5*c*(1 - a1**2/6.*ss**2)*(
+        D_Jtilde(kk[k], kk[i], kk[l], ss, i, l, RR)
+        - D_Jtilde(kk[l], kk[i], kk[k], ss, i, k, RR))
+
+
+@njit(cache=True)
+def gtktilde(kk, ss, a1, a2, i, j, k, RR, c):
+    """Element ijk of the uncontracted wavespace periodic version of Minfinity
+    submatrix g tilde, divided by i. See docstring for aktilde."""
+    return -0.5*c*(1 - (a1**2/6. + a2**2/10.)*ss**2)*(
+        D_Jtilde(kk[k], kk[i], kk[j], ss, i, j, RR)
+        + D_Jtilde(kk[j], kk[i], kk[k], ss, i, k, RR))
+
+
 @njit(cache=True)
 def cktilde(kk, ss, a1, a2, i, j, RR, c):
     """Element ij of the wavespace periodic version of Minfinity submatrix c.
@@ -598,43 +625,51 @@ def M11(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
 
 
 @njit(cache=True)
-def M12(i, j, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M12(i, j, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix b tilde. Same form as PhD thesis
     (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_btr
-        bt = 0.
+        sum_btr = 0.
         for q in range(num_X_points):
-            bt += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q], c,
-                      mu)
-        return bt
+            sum_btr += btr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, erfcs_lmn[q],
+                           c, mu)
         # (4)
-        # I think sum_btk always ends up being 0 (given that it's imaginary,
-        # over the sum it looks like it cancels out)
-        # Imaginary part of e(i*k.r) always cancels out over the sum I think
-        # (should probably try to show this but I'm pretty certain)
-        # return sum_btr
+        # btk is imaginary and odd in k, so pairs with the imaginary part of
+        # e(i*k.r)
+        sum_btk = 0.
+        for q in range(num_K_points):
+            sum_btk -= (math.sin(np.dot(K_lmn[q], r))
+                        * btktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, RR_K[q],
+                                   c))
+        sum_btk *= 1./L**3
+        return sum_btr + sum_btk
     else:
         return 0
 
 
 @njit(cache=True)
-def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
+def M13(i, j, k, r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K, num_X_points,
+        num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ijk of uncontracted Minfinity submatrix g tilde. Same form as
     PhD thesis (2.155)-(2.156), and see note at bottom of page."""
     if s > 1e-10:
         # (2)
-        # Return value below is just sum_gtr
-        gt = 0.
+        sum_gtr = 0.
         for q in range(num_X_points):
-            gt += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k, erfcs_lmn[q],
-                      c, mu)
-        return gt
+            sum_gtr += gtr(r + X_lmn[q], s_lmn[q], a1, a2, i, j, k,
+                           erfcs_lmn[q], c, mu)
         # (4)
-        # I think gtk always ends up being 0 (given that it's imaginary, over
-        # the sum it looks like it cancels out)
-        # return sum_gtr
+        # gtk is imaginary and odd in k, so pairs with the imaginary part of
+        # e(i*k.r)
+        sum_gtk = 0.
+        for q in range(num_K_points):
+            sum_gtk -= (math.sin(np.dot(K_lmn[q], r))
+                        * gtktilde(K_lmn[q], Ks_lmn[q], a1, a2, i, j, k,
+                                   RR_K[q], c))
+        sum_gtk *= 1./L**3
+        return sum_gtr + sum_gtk
     else:
         return 0
 
@@ -987,8 +1022,9 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[Bt_c[0]:Bt_c[0]+3,
                       Bt_c[1]:Bt_c[1]+3] = np.array([[
-                          M12(i, j, r, s, a1, a2,
-                              X_lmn, num_X_points,
+                          M12(i, j, r, s, a1, a2, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
@@ -1001,7 +1037,8 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                               c, mu, s_lmn, erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn)
+            args = (r, s, a1, a2, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, s_lmn, erfcs_lmn)
             for i in range(3):
                 Minfinity[Gt_c[0]+i,
                           Gt_c[1]:Gt_c[1]+5] = con_M13_row(i, args)
@@ -1043,12 +1080,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                 m_erfcs_lmn = [generate_erfcs(S, lamb) for S in m_s_lmn]
                 Minfinity[Bt21_c[0]:Bt21_c[0]+3,
                           Bt21_c[1]:Bt21_c[1]+3] = np.array([[
-                              M12(i, j, mr, s, a2, a1,
-                                  X_lmn, num_X_points,
+                              M12(i, j, mr, s, a2, a1, L,
+                                  X_lmn, K_lmn, Ks_lmn, RR_K,
+                                  num_X_points, num_K_points,
                                   c, mu, m_s_lmn, m_erfcs_lmn)
                               for j in range(3)] for i in range(3)])
 
-                args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu,
+                args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                        num_X_points, num_K_points, c, mu,
                         m_s_lmn, m_erfcs_lmn)
                 for i in range(3):
                     Minfinity[Gt21_c[0]+i,
@@ -1088,12 +1127,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a2, a1,
-                              X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1123,11 +1164,14 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a2, a1, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, L,
+                              X_lmn, K_lmn, Ks_lmn, RR_K,
+                              num_X_points, num_K_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, L, X_lmn, K_lmn, Ks_lmn, RR_K,
+                    num_X_points, num_K_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 75a0a52747105e8a83d3e9e9cf7622642a53f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:03 +0000
Subject: [PATCH 05/58] fix: let runs with only dumbbells proceed when no
 strain is imposed

Without spheres the strain list is empty unless the input is a shear flow.
The background flow of dumbbells and the periodic solve both read its first
entry, so every such run stopped with an IndexError. The periodic solve never
used the value it was given.
---
 stokesian_dynamics/functions/timestepping.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 613320a..a2708f3 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -290,7 +290,7 @@ def generate_output_FTSUOE(
                 cutoff_factor=cutoff_factor, printout=printout,
                 use_drag_Minfinity=use_drag_Minfinity,
                 use_Minfinity_only=use_Minfinity_only, frameno=frameno, mu=mu,
-                O_infinity=O_infinity, E_infinity=Ea_in[0],
+                O_infinity=O_infinity,
                 timestep=timestep,
                 centre_of_background_flow=centre_of_background_flow,
                 Ot_infinity=Ot_infinity, Et_infinity=Et_infinity)
@@ -710,10 +710,12 @@ def add_background_flow_dumbbells(Ub_out_k1, HalfDUb_out_k1, Ea_out_k1,
     O_infinity_cross_deltax_k1 = np.cross(O_infinity_k1, dumbbell_deltax)
     E_infinity_dot_xbar_k1 = np.empty([num_dumbbells, 3])
     E_infinity_dot_deltax_k1 = np.empty([num_dumbbells, 3])
+    # If there are no spheres, Ea_out is empty unless a shear is imposed.
+    E_infinity_k1 = Ea_out_k1[0] if len(Ea_out_k1) > 0 else np.zeros([3, 3])
     for i in range(num_dumbbells):
-        E_infinity_dot_xbar_k1[i] = np.dot(Ea_out_k1[0],
+        E_infinity_dot_xbar_k1[i] = np.dot(E_infinity_k1,
                                            dumbbell_positions[i] - centre_of_background_flow)
-        E_infinity_dot_deltax_k1[i] = np.dot(Ea_out_k1[0], dumbbell_deltax[i])
+        E_infinity_dot_deltax_k1[i] = np.dot(E_infinity_k1, dumbbell_deltax[i])
 
     Ub_out_plus_infinities_k1 = (Ub_out_k1 + U_infinity_k1
                                  + O_infinity_cross_xbar_k1
-- 
2.43.0


From f22c1b7716e6950c51560ecd7322ebf13bb08a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:03 +0000
Subject: [PATCH 06/58] fix: give drag-only particles the Stokes drag in both
 domains

The drag-only approximation left out the factor 6 pi that the full long-range
matrix and the short-range correction both carry, so an isolated sphere moved
6 pi times too fast. The periodic version also indexed the radii with floats
and stopped with an IndexError.
---
 .../functions/generate_grand_resistance_matrix.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index b7737d2..f9fef01 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -60,7 +60,7 @@ def generate_grand_resistance_matrix(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu*np.diag(
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
             [sphere_sizes[i//3] for i in range(3*num_spheres)]
             + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
             + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
@@ -169,12 +169,12 @@ def generate_grand_resistance_matrix_periodic(
             element_sizes, element_positions, element_deltax, num_elements,
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
-        Minfinity_inverse = mu * np.diag(
-            [sphere_sizes[i/3] for i in range(3*num_spheres)]
-            + [1/0.75 * sphere_sizes[i/3]**3 for i in range(3*num_spheres)]
-            + [1/0.9 * sphere_sizes[i/5]**3 for i in range(5*num_spheres)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)])
+        Minfinity_inverse = 6*np.pi*mu*np.diag(
+            [sphere_sizes[i//3] for i in range(3*num_spheres)]
+            + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
+            + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)])
         Minfinity_elapsed_time = 0
         Minfinity_inverse_elapsed_time = 0
 
-- 
2.43.0


From a8fd72252f84f01fea014c3bdc019f03cbd5d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:03 +0000
Subject: [PATCH 07/58] fix: pick the resistance scalar table the drag settings
 ask for

The test was the wrong way round: asking for the drag-only table loaded the
full one and asking for the full one looked for the drag-only file.
---
 stokesian_dynamics/resistance_scalars/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index 74fada9..c65a037 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -23,7 +23,7 @@ lam_range_with_reciprocals.sort()
 
 # The resistance scalars already have R2Binfinity subtracted off. Decide here
 # whether this is with the full R2Binfinity or the drag-only R2Binfinity.
-if not use_drag_Minfinity or (use_drag_Minfinity and use_drag_R2Binfinity):
+if not (use_drag_Minfinity and use_drag_R2Binfinity):
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d.npy'
 else:
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d_drag.npy'
-- 
2.43.0


From e3fe5833827a5bd670fd462268e058b47ee8b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:03 +0000
Subject: [PATCH 08/58] fix: fill in the solution when extracting dumbbell
 forces on walls

With the extraction on, the UFTE solve never unpacked its answer and reshaped
with a float, so every such run stopped with an error.
---
 stokesian_dynamics/functions/timestepping.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index a2708f3..8ade6bd 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -380,16 +380,16 @@ def generate_output_FTSUOE(
             else:
                 velocity_vector = np.linalg.solve(grand_resistance_matrix_ufte,
                                                   force_vector)
-                (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
-                    posdata, velocity_vector)
-                Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
-                Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
-                Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
-                Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
-                (Ta_out, Ea_out, Fb_out, DFb_out) = (
-                    Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
+            (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
+                posdata, velocity_vector)
+            Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
+            Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
+            Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
+            Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
+            (Ta_out, Ea_out, Fb_out, DFb_out) = (
+                Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
 
             if extract_force_on_wall_due_to_dumbbells:
                 # For finding effect of the dumbbells on the measured Force on the walls.
@@ -401,7 +401,7 @@ def generate_output_FTSUOE(
                 force_on_wall_due_to_dumbbells_flat = np.dot(
                     force_on_wall_due_to_dumbbells_matrix, dumbbell_forces)
                 force_on_wall_due_to_dumbbells = force_on_wall_due_to_dumbbells_flat.reshape(
-                    len(force_on_wall_due_to_dumbbells_flat)/3, 3)
+                    len(force_on_wall_due_to_dumbbells_flat)//3, 3)
 
         elif input_form == 'ufteu':
             num_fixed_velocity_spheres = (num_spheres
-- 
2.43.0


From 73210bee460103629c59019ac455bd10a7e01780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:19 +0000
Subject: [PATCH 09/58] fix: honour the sixth command-line argument

The default for extracting dumbbell forces on walls was assigned after the
command line had been read, so it always replaced the value given there.
---
 stokesian_dynamics/settings.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/settings.py b/stokesian_dynamics/settings.py
index 9f8c847..83ca4bd 100755
--- a/stokesian_dynamics/settings.py
+++ b/stokesian_dynamics/settings.py
@@ -35,6 +35,11 @@ num_frames = 100
 # How to solve the equation U=MF. {'fts','fte','ufte','ufteu','duf'}
 input_form = 'fte'
 
+# Work out the force on any particles whose velocities are specified in the
+# input file. (Typical use case: these 'fixed' particles are acting as walls.)
+# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
+extract_force_on_wall_due_to_dumbbells = False
+
 # ----------------------------------------------------------------------------|
 # BASIC SETTINGS: OVERRIDES FROM COMMAND LINE
 
@@ -121,11 +126,6 @@ if start_saving_after_first_n_timesteps > num_frames:
     print("WARNING: start_saving_after_first_n_timesteps > num_frames. "
           + "Saving will fail.")
 
-# Work out the force on any particles whose velocities are specified in the
-# input file. (Typical use case: these 'fixed' particles are acting as walls.)
-# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
-extract_force_on_wall_due_to_dumbbells = False
-
 # Just use diagonal terms of Minfinity. Good(?) approximation for dense
 # suspensions only.
 use_drag_Minfinity = False
-- 
2.43.0


From c8cefe9def21a1c22afd269b2c61d9bc4468d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:19 +0000
Subject: [PATCH 10/58] fix: start Adams-Bashforth runs with dumbbells from the
 right frame

The start-up test for dumbbells subtracted a file name from a frame number, so
every such run stopped with a TypeError.
---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 96a4ddb..5a629c6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
-                if timestepping_scheme == "euler" or frameno - checkpoint_filename == 0:
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From b5db4fa0e13c6034b04384b212d10ada9ba57c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:19 +0000
Subject: [PATCH 11/58] fix: find close pairs of large particles in periodic
 boxes

The first pass kept pairs closer than the scaled cutoff in absolute units, so
pairs of particles with a mean radius above one lost their short-range
correction although they were within the cutoff.
---
 stokesian_dynamics/functions/shared.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index f1aa985..141c4d5 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -457,7 +457,9 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
             basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
-        # This lists pairs that are closer than 4 units, regardless of size ratio.
+        # This lists pairs that are closer than the cutoff for the largest
+        # particles, regardless of size ratio.
+        max_cutoff = cutoff * np.max(bead_sizes)
         for i in range(len(unsheared_positions)):
             sphere_position = unsheared_positions[i]
             sheared_centred_box = np.dot(np.mod(np.dot(unsheared_positions-sphere_position,
@@ -466,10 +468,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
                                          sheared_basis_vectors)
             # Shear again
             # Take particles only within a cube of the correct radius:
-            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff)
+            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= max_cutoff)
             # Take particles only within a sphere of the correct radius:
             particles_in_radius = np.where(
-                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff)
+                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= max_cutoff)
             particles_in_radius_ids = particles_in_cube[0][particles_in_radius][
                 particles_in_cube[0][particles_in_radius] >= i]
             closer_than_cutoff_pairs += [(i, j) for j in particles_in_radius_ids]
-- 
2.43.0


From c24f29d2cca755d825a37bbf03316d37c2d1a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:50 +0000
Subject: [PATCH 12/58] fix: use the nearest image of close pairs in slanted
 periodic boxes

Reducing the separation to one copy of a slanted box does not always give the
nearest image, so some pairs within the cutoff lost their short-range
correction depending on how far the box had been sheared.
---
 stokesian_dynamics/functions/shared.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 141c4d5..36c9c9a 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -457,6 +457,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
             basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
+        neighbouring_boxes = np.dot(np.array([[i, j, k] for i in (0, -1, 1)
+                                              for j in (0, -1, 1)
+                                              for k in (0, -1, 1)]),
+                                    sheared_basis_vectors)
         # This lists pairs that are closer than the cutoff for the largest
         # particles, regardless of size ratio.
         max_cutoff = cutoff * np.max(bead_sizes)
@@ -467,6 +471,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
                                                 [1, 1, 1]) - 0.5,
                                          sheared_basis_vectors)
             # Shear again
+            # In a slanted box, the nearest image may be in a neighbouring box
+            images = sheared_centred_box[:, None] + neighbouring_boxes
+            nearest = np.argmin(np.linalg.norm(images, axis=2), axis=1)
+            sheared_centred_box = images[np.arange(len(images)), nearest]
             # Take particles only within a cube of the correct radius:
             particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= max_cutoff)
             # Take particles only within a sphere of the correct radius:
-- 
2.43.0


From 97a0d405636501fad0a504b223731bf0af5742bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:43 +0000
Subject: [PATCH 13/58] fix: evaluate the background flow at the Runge-Kutta
 stage positions

Stages two to four added the background flow at the positions the frame
started from, and the dumbbells' second stage used the first stage's strain, so
in any shear flow the scheme was not fourth order. Stage positions are no
longer wrapped into the periodic box, because a wrapped copy moves with a
different background velocity from the particle being advanced.
---
 stokesian_dynamics/run_simulation.py | 38 +++++-----------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5a629c6..830c30d 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -354,10 +354,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 sphere_rotations_k1 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k1,
                     sphere_rotations_k1, Oa_out_plus_infinities_k1, timestep/2)
-                if periodic:
-                    sphere_positions_k1 = wrap_around(
-                        sphere_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -369,10 +365,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k1, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k1, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k1 = wrap_around(
-                        dumbbell_positions_k1, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             posdata_k1 = (sphere_sizes, sphere_positions_k1,
                           sphere_rotations_k1, dumbbell_sizes,
@@ -400,31 +392,23 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k2, Oa_out_plus_infinities_k2 = add_background_flow_spheres(
                     Ua_out_k2, Oa_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k1, centre_of_background_flow)
                 sphere_positions_k2 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k2, timestep/2)
                 sphere_rotations_k2 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k2,
                     sphere_rotations_k2, Oa_out_plus_infinities_k2, timestep/2)
-                if periodic:
-                    sphere_positions_k2 = wrap_around(
-                        sphere_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
-                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k1, U_infinity_k2, O_infinity_k2,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
+                    dumbbell_positions_k1, dumbbell_deltax_k1, centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
                 dumbbell_deltax_k2 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k2, timestep/2)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k2, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k2 = wrap_around(
-                        dumbbell_positions_k2, box_bottom_left, box_top_right,
-                        Ot_infinity_k2, Et_infinity_k2)
 
             posdata_k2 = (sphere_sizes, sphere_positions_k2,
                           sphere_rotations_k2, dumbbell_sizes,
@@ -449,31 +433,23 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k3, Oa_out_plus_infinities_k3 = add_background_flow_spheres(
                     Ua_out_k3, Oa_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k2, centre_of_background_flow)
                 sphere_positions_k3 = euler_timestep(
                     sphere_positions, Ua_out_plus_infinities_k3, timestep)
                 sphere_rotations_k3 = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, sphere_positions_k3,
                     sphere_rotations_k3, Oa_out_plus_infinities_k3, timestep)
-                if periodic:
-                    sphere_positions_k3 = wrap_around(
-                        sphere_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k3, HalfDUb_out_plus_infinities_k3 = add_background_flow_dumbbells(
                     Ub_out_k3, HalfDUb_out_k3, Ea_out_k3, U_infinity_k3, O_infinity_k3,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k2, dumbbell_deltax_k2, centre_of_background_flow)
                 dumbbell_positions_k3 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k3, timestep)
                 dumbbell_deltax_k3 = euler_timestep(
                     dumbbell_deltax, 2*HalfDUb_out_plus_infinities_k3, timestep)
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, dumbbell_deltax_k3, explosion_protection)
-                if periodic:
-                    dumbbell_positions_k3 = wrap_around(
-                        dumbbell_positions_k3, box_bottom_left, box_top_right,
-                        Ot_infinity_k3, Et_infinity_k3)
 
             posdata_k3 = (sphere_sizes, sphere_positions_k3,
                           sphere_rotations_k3, dumbbell_sizes,
@@ -497,11 +473,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k4, Oa_out_plus_infinities_k4 = add_background_flow_spheres(
                     Ua_out_k4, Oa_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    sphere_positions, centre_of_background_flow)
+                    sphere_positions_k3, centre_of_background_flow)
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k4, HalfDUb_out_plus_infinities_k4 = add_background_flow_dumbbells(
                     Ub_out_k4, HalfDUb_out_k4, Ea_out_k4, U_infinity_k4, O_infinity_k4,
-                    dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
+                    dumbbell_positions_k3, dumbbell_deltax_k3, centre_of_background_flow)
             for i in range(len(gen_times)):
                 gen_times[i] = gen_times[i] + gen_times_2[i]
 
-- 
2.43.0


From 0ef42484c4f4a46afdd07c468a984144b60ebe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:43 +0000
Subject: [PATCH 14/58] fix: keep orientation markers on spheres that cross the
 periodic boundary

Euler and Adams-Bashforth steps moved the markers with the unwrapped centre and
then wrapped only the centre, leaving the markers a box length away.
---
 stokesian_dynamics/run_simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 830c30d..d0b12a6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -271,9 +271,12 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
                 if periodic:
+                    unwrapped_sphere_positions = new_sphere_positions
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
                         Ot_infinity_k1, Et_infinity_k1)
+                    new_sphere_rotations += (new_sphere_positions
+                                             - unwrapped_sphere_positions)[:, None]
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
-- 
2.43.0


From b3c2f8e99b48f9ad1a8e6e542887bfaed92d9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:43 +0000
Subject: [PATCH 15/58] fix: wrap particles with the box of the time they have
 reached

Positions at the end of a step were wrapped with the box of the start of the
step. In a sheared box that is a different lattice, so a particle crossing the
boundary was displaced relative to the others.
---
 stokesian_dynamics/run_simulation.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index d0b12a6..3a5f545 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -248,6 +248,12 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 input_form, cutoff_factor, printout, use_drag_Minfinity,
                 use_Minfinity_only, extract_force_on_wall_due_to_dumbbells,
                 last_velocities, last_velocity_vector)
+            if periodic:
+                # Particles are wrapped into the box as it is after the timestep
+                Ot_infinity_next, Et_infinity_next = input_ftsuoe(
+                    input_number, posdata, frameno + 1, timestep,
+                    last_velocities, input_form=input_form,
+                    skip_computation=True)[16:18]
             # Euler/AB2 timestepping k1
             if (num_spheres > 0):
                 Ua_out_plus_infinities_k1, Oa_out_plus_infinities_k1 = add_background_flow_spheres(
@@ -274,7 +280,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                     unwrapped_sphere_positions = new_sphere_positions
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_next, Et_infinity_next)
                     new_sphere_rotations += (new_sphere_positions
                                              - unwrapped_sphere_positions)[:, None]
 
@@ -297,7 +303,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_next, Et_infinity_next)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
@@ -506,7 +512,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_sphere_positions = wrap_around(
                         new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_k4, Et_infinity_k4)
                 new_sphere_rotations = euler_timestep_rotation(
                     sphere_positions, sphere_rotations, new_sphere_positions,
                     new_sphere_rotations, Oa_out_blended, timestep)
@@ -529,7 +535,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if periodic:
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
+                        Ot_infinity_k4, Et_infinity_k4)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_blended, 0, 0, Oa_out_blended]
-- 
2.43.0


From 5bf5c288cc4d1be654a6fb0943f98996622d6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:43 +0000
Subject: [PATCH 16/58] fix: keep the previous velocity of wrapped particles
 consistent

Adams-Bashforth steps use the velocity of the previous step. After a particle
is wrapped, that velocity still held the background flow at the other side of
the box, which kicked particles crossing a sheared boundary.
---
 stokesian_dynamics/run_simulation.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 3a5f545..438e66e 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -283,6 +283,14 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                         Ot_infinity_next, Et_infinity_next)
                     new_sphere_rotations += (new_sphere_positions
                                              - unwrapped_sphere_positions)[:, None]
+                    # The particle now in the box is an image with its own
+                    # background velocity
+                    Ua_out_plus_infinities_k1, Oa_out_plus_infinities_k1 = add_background_flow_spheres(
+                        Ua_out_k1, Oa_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
+                        sphere_positions + new_sphere_positions - unwrapped_sphere_positions,
+                        centre_of_background_flow)
+                    if fully_2d_problem:
+                        Ua_out_plus_infinities_k1[:, 1] = 0
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
@@ -301,9 +309,14 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 error = did_something_go_wrong_with_dumbells(
                     error, dumbbell_deltax, new_dumbbell_deltax, explosion_protection)
                 if periodic:
+                    unwrapped_dumbbell_positions = new_dumbbell_positions
                     new_dumbbell_positions = wrap_around(
                         new_dumbbell_positions, box_bottom_left, box_top_right,
                         Ot_infinity_next, Et_infinity_next)
+                    Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
+                        Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
+                        dumbbell_positions + new_dumbbell_positions - unwrapped_dumbbell_positions,
+                        dumbbell_deltax, centre_of_background_flow)
 
             if num_spheres > 0 and num_dumbbells == 0:
                 last_velocities = [Ua_out_plus_infinities_k1, 0, 0, Oa_out_plus_infinities_k1]
-- 
2.43.0


From 9374bec8db077bf082f17643544f55dff57c3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:32 +0000
Subject: [PATCH 17/58] fix: wrap particles into the periodic box given,
 wherever it is centred

Particles were wrapped into a box centred on the origin even when the corners
given for the periodic box put it somewhere else.
---
 stokesian_dynamics/functions/timestepping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 8ade6bd..32955c6 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -671,10 +671,11 @@ def wrap_around(new_sphere_positions, box_bottom_left, box_top_right,
     basis_canonical = np.diag(box_dimensions)  # which equals np.array([[Lx,0,0],[0,Ly,0],[0,0,Lz]])
     sheared_basis_vectors = shear_basis_vectors(
         basis_canonical, box_dimensions, Ot_infinity, Et_infinity)
+    box_centre = 0.5*(box_bottom_left + box_top_right)
     # Hence
-    new_sphere_positions = np.dot(np.mod(np.dot(new_sphere_positions,
+    new_sphere_positions = np.dot(np.mod(np.dot(new_sphere_positions - box_centre,
                                                 np.linalg.inv(sheared_basis_vectors)) + 0.5,
-                                         [1, 1, 1]) - 0.5, sheared_basis_vectors)
+                                         [1, 1, 1]) - 0.5, sheared_basis_vectors) + box_centre
     return new_sphere_positions
 
 
-- 
2.43.0


From 0724bc9b8ba832437e9589825a705eeeb30e207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:32 +0000
Subject: [PATCH 18/58] fix: check the size ratios of dumbbells before starting
 a run

Only spheres were checked against the table, so a run with an unsupported bead
size started and then stopped with an IndexError once a bead came close to
another particle.
---
 stokesian_dynamics/run_simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 438e66e..5636b39 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -758,10 +758,10 @@ if num_spheres > 0 and input_form in ["fts"]:
      skip_computation=True, input_form=input_form)
 
 # Are all size ratios in the XYZ table for R2Bexact?
-sphere_sizes_unique = list(set(sphere_sizes))
+element_sizes_unique = list(set(element_sizes))
 size_ratios = list(set([i/j
-                        for i in sphere_sizes_unique
-                        for j in sphere_sizes_unique]))
+                        for i in element_sizes_unique
+                        for j in element_sizes_unique]))
 for size_ratio in size_ratios:
     if not np.any(np.isclose(size_ratio, lam_range_with_reciprocals)):
         throw_error("Particle size ratio " + str(size_ratio) + " not in the "
-- 
2.43.0


From 02dddaf70cb943a3220f19d50e8ab023ce0959c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:32 +0000
Subject: [PATCH 19/58] fix: save complete output for every choice of saving
 interval

The final state was only saved when the last frame happened to fall on the
saving interval. Runs stopped with an error when the first frame to save was
not a multiple of the interval, or when only positions or only forces were
saved.
---
 stokesian_dynamics/run_simulation.py | 29 +++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5636b39..e8a5c78 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -74,6 +74,13 @@ error = False
 previous_step_posdata = posdata
 previous_timestamp = time.time()
 saved_element_positions = np.array([])
+saved_sphere_rotations = np.array([])
+saved_deltax = np.array([])
+saved_Fa_out = np.array([])
+saved_Fb_out = np.array([])
+saved_DFb_out = np.array([])
+saved_Sa_out = np.array([])
+saved_force_on_wall_due_to_dumbbells = np.array([])
 times = [0 for _ in range(num_frames)]
 output_folder = "output"
 legion_random_id = ""
@@ -601,7 +608,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_positions_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_element_positions) == 0:  # first frame saved, usually 0
                 saved_element_positions = np.array([element_positions])
                 saved_sphere_rotations = np.array([sphere_rotations])
                 saved_deltax = np.array([dumbbell_deltax])
@@ -612,21 +619,21 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                                                    np.array([sphere_rotations]), 0)
                 saved_deltax = np.append(np.copy(saved_deltax),
                                          np.array([dumbbell_deltax]), 0)
-            if frameno == num_frames - 1:  # if final frame, add the final position as well
-                new_element_positions = np.append(new_sphere_positions,
-                                                  new_dumbbell_positions, 0)
-                saved_element_positions = np.append(np.copy(saved_element_positions),
-                                                    np.array([new_element_positions]), 0)
-                saved_sphere_rotations = np.append(np.copy(saved_sphere_rotations),
-                                                   np.array([new_sphere_rotations]), 0)
-                saved_deltax = np.append(np.copy(saved_deltax),
-                                         np.array([new_dumbbell_deltax]), 0)
+        if len(saved_element_positions) > 0 and frameno == num_frames - 1:  # if final frame, add the final position as well
+            new_element_positions = np.append(new_sphere_positions,
+                                              new_dumbbell_positions, 0)
+            saved_element_positions = np.append(np.copy(saved_element_positions),
+                                                np.array([new_element_positions]), 0)
+            saved_sphere_rotations = np.append(np.copy(saved_sphere_rotations),
+                                               np.array([new_sphere_rotations]), 0)
+            saved_deltax = np.append(np.copy(saved_deltax),
+                                     np.array([new_dumbbell_deltax]), 0)
         if (
             save_forces_every_n_timesteps > 0
             and frameno % save_forces_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_Fa_out) == 0:  # first frame saved, usually 0
                 saved_Fa_out = np.array([Fa_out])
                 saved_Fb_out = np.array([Fb_out])
                 saved_DFb_out = np.array([DFb_out])
-- 
2.43.0


From abc0b00d6f8c4cd5cf98b5d3caa1c870840b4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:32 +0000
Subject: [PATCH 20/58] fix: do not overwrite the output of a run from the same
 minute

Output names carry the start time to the minute, so repeating a run within a
minute replaced the earlier output file.
---
 stokesian_dynamics/run_simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index e8a5c78..fbb3d03 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -792,6 +792,12 @@ if error == 0:
                     + setup_descdash + str(setup_description)
                     + input_descdash + str(input_description)
                     + descdash + str(desc))
+        # Don't overwrite an output file started earlier in the same minute
+        filename_without_suffix = filename
+        suffix = 1
+        while os.path.exists(output_folder + '/' + filename + legion_random_id + '.npz'):
+            suffix += 1
+            filename = filename_without_suffix + "-" + str(suffix)
     else:
         filename = checkpoint_filename.replace("output\\", "").replace("output/", "").replace("_TEMP.npz", "")
         with np.load(checkpoint_filename) as saved_data:
-- 
2.43.0


From e7d57c6a9f0262a031b1b5b5124a365afdd0986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:32 +0000
Subject: [PATCH 21/58] fix: resume interrupted runs from the state they had
 reached

The last positions in a backup are those at the start of its last frame, but
the run resumed one frame later, with reset orientation markers, and with the
oldest of several backups. Saving intervals were not taken into account. Backups
with negative setup or input numbers in their name, or with a damaged force
record, stopped the program.
---
 stokesian_dynamics/run_simulation.py   | 11 +++++++++
 stokesian_dynamics/setups/positions.py | 34 +++++++++++++++++---------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index fbb3d03..eff24e5 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -810,6 +810,17 @@ if error == 0:
             saved_deltax = saved_data['deltax']
             saved_force_on_wall_due_to_dumbbells = saved_data[
                 'force_on_wall_due_to_dumbbells']
+        # Forces may have been saved for frames which will now be repeated
+        num_saved_forces = len([
+            i for i in range(start_saving_after_first_n_timesteps,
+                             min(checkpoint_start_from_frame, num_frames - 1) + 1)
+            if i % save_forces_every_n_timesteps == 0])
+        saved_Fa_out = saved_Fa_out[:num_saved_forces]
+        saved_Fb_out = saved_Fb_out[:num_saved_forces]
+        saved_DFb_out = saved_DFb_out[:num_saved_forces]
+        saved_Sa_out = saved_Sa_out[:num_saved_forces]
+        saved_force_on_wall_due_to_dumbbells = (
+            saved_force_on_wall_due_to_dumbbells[:num_saved_forces])
 
     warning_formatting_start = "\033[43m\033[30m"
     warning_formatting_end = "\033[39m\033[49m"
diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index bb6b78d..bdf408e 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,7 +12,10 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
-from settings import setup_number, input_number, num_frames, timestep
+import re
+from settings import (setup_number, input_number, num_frames, timestep,
+                      start_saving_after_first_n_timesteps,
+                      save_positions_every_n_timesteps)
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
                                         randomise_dumbbells)
@@ -198,14 +201,14 @@ checkpoint_start_from_frame = 0
 # Otherwise read in list of temporary files
 checkpoint_start_from_frame = 0
 for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
-    checkpoint_setup_number = int(filename.split("-")[1][1:])
-    checkpoint_input_number = int(filename.split("-")[2][1:])
-    checkpoint_num_frames = int(filename.split("-")[3][:-2])
-    if filename.split("-")[4][-1] == "e":
-        raw_timestep = filename.split("-")[4][1:] + "-" + filename.split("-")[5]
-    else:
-        raw_timestep = filename.split("-")[4][1:]
-    checkpoint_timestep = float(raw_timestep.replace("p", "."))
+    filename_parts = re.search(
+        r"-s(-?\d+)-i(-?\d+)-(\d+)fr-t([\dp]+(?:e[-+]?\d+)?)-M", filename)
+    if filename_parts is None:
+        continue
+    checkpoint_setup_number = int(filename_parts[1])
+    checkpoint_input_number = int(filename_parts[2])
+    checkpoint_num_frames = int(filename_parts[3])
+    checkpoint_timestep = float(filename_parts[4].replace("p", "."))
     if (checkpoint_setup_number == setup_number
         and checkpoint_input_number == input_number
         and checkpoint_num_frames == num_frames
@@ -215,6 +218,9 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             with np.load(filename) as data1:
                 positions_centres = data1['centres']
                 positions_deltax = data1['deltax']
+                positions_rotations = data1['sphere_rotations']
+                for name in data1.files:
+                    data1[name]  # Fails here if any of the file is corrupt
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
@@ -224,19 +230,23 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             dumbbell_deltax = positions_deltax[-1, :, :]
             sphere_sizes = ignored_posdata[0]
             dumbbell_sizes = ignored_posdata[3]
-            sphere_rotations = add_sphere_rotations_to_positions(
-                sphere_positions, sphere_sizes, np.array([[1,0,0],[0,0,1]]))
+            sphere_rotations = positions_rotations[-1]
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
             checkpoint_filename = filename
-            checkpoint_start_from_frame = positions_centres.shape[0]
+            # The last saved positions are those at the start of this frame
+            checkpoint_start_from_frame = save_positions_every_n_timesteps*(
+                -(-start_saving_after_first_n_timesteps
+                  // save_positions_every_n_timesteps)
+                + positions_centres.shape[0] - 1)
 
             word_checkpoint = "\033[42m\033[01m CHECKPOINT FOUND \033[0m\033[49m "
             print(
                 f"{word_checkpoint}Continuing file '{checkpoint_filename}' "
                 + f"from frame {str(checkpoint_start_from_frame + 1)}/{num_frames}"
             )
+            break
         except Exception:
             print("Checkpoint possibly found but the file was corrupt "
                   + "(normally because power was lost midway through saving). "
-- 
2.43.0


From 45a188ed1ab67149592a4e11f3ff89e5969d0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:32 +0000
Subject: [PATCH 22/58] fix: allow matrices to be printed out again

Printing levels of two and above stopped with an error, because the printed
matrix is no longer sparse and the mobility matrix is not always generated.
---
 .../functions/generate_grand_resistance_matrix.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index f9fef01..1b9a644 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -84,7 +84,7 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = time.time() - R2Bexact_start_time
         if printout > 1:
             print("R2Bexact")
-            print(np.array_str(R2Bexact.toarray(), max_line_width=100000))
+            print(np.array_str(R2Bexact, max_line_width=100000))
 
         grand_resistance_matrix = R2Bexact  # shallow copy for better naming
         grand_resistance_matrix += Minfinity_inverse  # in-place addition
@@ -100,7 +100,7 @@ def generate_grand_resistance_matrix(
 
     if (printout > 1):
         print("M infinity")
-        print(np.array_str(Minfinity, max_line_width=100000))
+        print(np.array_str(np.linalg.inv(Minfinity_inverse), max_line_width=100000))
         print("\n\nGrand resistance matrix")
         print(np.array_str(grand_resistance_matrix, max_line_width=100000))
         save_matrix(grand_resistance_matrix, "Grand Resistance Matrix",
-- 
2.43.0


From 095fe6da68b269ee0d3240dcc9c160f919da7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:20 +0000
Subject: [PATCH 23/58] fix: keep converted matrices accurate for large
 particles and viscosities

Converting the resistance matrix to the FTE, UFTE, UFTEU and DUF forms relied
on blocks cancelling to zero, but they only cancelled to rounding error. With
radii of 100 this error was as large as the blocks that replace them, and the
computed velocities were wrong. Set these blocks to zero exactly.
---
 .../functions/simulation_tools.py             | 45 +++++++++++++------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/stokesian_dynamics/functions/simulation_tools.py b/stokesian_dynamics/functions/simulation_tools.py
index f36ad10..cc3a514 100755
--- a/stokesian_dynamics/functions/simulation_tools.py
+++ b/stokesian_dynamics/functions/simulation_tools.py
@@ -216,6 +216,17 @@ def vec_mat_cross(A, B, C, matrix_size, items_in_vector, starts, crosspoint):
     return D
 
 
+def zero_cross(D, starts, crosspoint):
+    '''Return matrix D with zeros in the cross which vec_mat_cross fills.
+
+    M - vecmat_mat_vecmat is zero there, but only up to a rounding error, which
+    can be larger than the elements vec_mat_cross puts there.
+    '''
+    D[starts[crosspoint]:starts[crosspoint+1], :] = 0
+    D[:, starts[crosspoint]:starts[crosspoint+1]] = 0
+    return D
+
+
 def fts_to_fte_matrix(posdata, grand_mobility_matrix):
     '''Convert mobility matrix expecting to multiply a grand force vector of
     FTS form to one expecting FTE form.
@@ -262,8 +273,9 @@ def fts_to_fte_matrix(posdata, grand_mobility_matrix):
             vec2 = [g, h, m]
 
     return (
-        M
-        - vecmat_mat_vecmat(vec1, m_inv, vec2, C5, items_in_vector, starts)
+        zero_cross(
+            M - vecmat_mat_vecmat(vec1, m_inv, vec2, C5, items_in_vector, starts),
+            starts, crosspoint)
         - vec_mat_cross(
             vec1, m_inv, vec2, C5, items_in_vector, starts, crosspoint
         )
@@ -330,8 +342,9 @@ def fte_to_ufte_matrix(num_fixed_velocity_spheres, posdata,
             vec2 = [axx, axr, btx, gtx]
 
     return (
-        M
-        - vecmat_mat_vecmat(vec1, axx_inv, vec2, C5, items_in_vector, starts)
+        zero_cross(
+            M - vecmat_mat_vecmat(vec1, axx_inv, vec2, C5, items_in_vector, starts),
+            starts, crosspoint)
         - vec_mat_cross(
             vec1, axx_inv, vec2, C5, items_in_vector, starts, crosspoint
         )
@@ -406,9 +419,10 @@ def ufte_to_ufteu_matrix(num_fixed_velocity_dumbbells,
     vec1 = [m14xx, m14rx, m24x, m34x, m44xx, m44rx, m54xx, m54rx]  # down
     vec2 = [m41xx, m41rx, m42x, m43x, m44xx, m44xr, m45xx, m45xr]  # across
 
-    MUFTEU1 = (M
-               - vecmat_mat_vecmat(vec1, m44xx_inv, vec2, C5, items_in_vector,
-                                   starts)
+    MUFTEU1 = (zero_cross(
+                   M - vecmat_mat_vecmat(vec1, m44xx_inv, vec2, C5, items_in_vector,
+                                         starts),
+                   starts, crosspoint)
                - vec_mat_cross(vec1, m44xx_inv, vec2, C5, items_in_vector,
                                starts, crosspoint))
 
@@ -439,8 +453,9 @@ def ufte_to_ufteu_matrix(num_fixed_velocity_dumbbells,
     vec2 = [m51xx, m51rx, m52x, m53x, m54xx, m54xr, m55xx, m55xr]  # across
 
     return (
-        M
-        - vecmat_mat_vecmat(vec1, m55xx_inv, vec2, C5, items_in_vector, starts)
+        zero_cross(
+            M - vecmat_mat_vecmat(vec1, m55xx_inv, vec2, C5, items_in_vector, starts),
+            starts, crosspoint)
         - vec_mat_cross(
             vec1, m55xx_inv, vec2, C5, items_in_vector, starts, crosspoint
         )
@@ -499,9 +514,10 @@ def fts_to_duf_matrix(num_fixed_velocity_dumbbells, posdata,
     vec1 = [m44xx, m44rx, m54xx, m54rx]  # down
     vec2 = [m44xx, m44xr, m45xx, m45xr]  # across
 
-    MDUF1 = (M
-             - vecmat_mat_vecmat(vec1, m44xx_inv, vec2, C5, items_in_vector,
-                                 starts)
+    MDUF1 = (zero_cross(
+                 M - vecmat_mat_vecmat(vec1, m44xx_inv, vec2, C5, items_in_vector,
+                                       starts),
+                 starts, crosspoint)
              - vec_mat_cross(vec1, m44xx_inv, vec2, C5, items_in_vector,
                              starts, crosspoint))
 
@@ -524,8 +540,9 @@ def fts_to_duf_matrix(num_fixed_velocity_dumbbells, posdata,
     vec2 = [m54xx, m54xr, m55xx, m55xr]  # across
 
     return (
-        M
-        - vecmat_mat_vecmat(vec1, m55xx_inv, vec2, C5, items_in_vector, starts)
+        zero_cross(
+            M - vecmat_mat_vecmat(vec1, m55xx_inv, vec2, C5, items_in_vector, starts),
+            starts, crosspoint)
         - vec_mat_cross(
             vec1, m55xx_inv, vec2, C5, items_in_vector, starts, crosspoint
         )
-- 
2.43.0


From 947b6183fe828151a3f457276f53df3df11993c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:26 +0000
Subject: [PATCH 24/58] fix: honour opposite_direction for side-on oscillatory
 shear

---
 stokesian_dynamics/setups/functions_inputs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_inputs.py b/stokesian_dynamics/setups/functions_inputs.py
index c93e8d1..f38935e 100644
--- a/stokesian_dynamics/setups/functions_inputs.py
+++ b/stokesian_dynamics/setups/functions_inputs.py
@@ -123,14 +123,14 @@ def oscillatory_shear(amplitude, period, frameno, timestep, phase=0,
     else:
         opposite_minus = 1
     if unused_axis == 1:
-        O_infinity = np.array([0, transpose_minus*0.5*gammadot, 0])
-        Ot_infinity = np.array([0, transpose_minus*0.5*gamma, 0])
-        E_infinity = [[0, 0, 0.5*gammadot],
+        O_infinity = np.array([0, opposite_minus*transpose_minus*0.5*gammadot, 0])
+        Ot_infinity = np.array([0, opposite_minus*transpose_minus*0.5*gamma, 0])
+        E_infinity = [[0, 0, opposite_minus*0.5*gammadot],
                       [0, 0, 0],
-                      [0.5*gammadot, 0, 0]]
-        Et_infinity = [[0, 0, 0.5*gamma],
+                      [opposite_minus*0.5*gammadot, 0, 0]]
+        Et_infinity = [[0, 0, opposite_minus*0.5*gamma],
                        [0, 0, 0],
-                       [0.5*gamma, 0, 0]]
+                       [opposite_minus*0.5*gamma, 0, 0]]
         Ea_in = [E_infinity for _ in range(max(1, num_spheres))]
     elif unused_axis == 2:
         O_infinity = np.array([0, 0, opposite_minus*transpose_minus*-0.5*gammadot])
-- 
2.43.0


From e1958bb1000222800c9a37d3ac9e7c826c0d61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:58 +0000
Subject: [PATCH 25/58] fix: explain an unrecognised timestepping scheme

---
 stokesian_dynamics/run_simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index eff24e5..7dbca73 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -838,6 +838,8 @@ if error == 0:
         timestep_method = "AB2"
     elif timestepping_scheme == "rk4":
         timestep_method = "RK4"
+    else:
+        throw_error("Timestepping scheme not recognised. Choose 'euler', 'ab2' or 'rk4'.")
 
     matrix_size = sizeof_fmt(48 * (11 * num_spheres + 6 * num_dumbbells)**2)
 
-- 
2.43.0


From 9da132f4d8fb5e0015746e09506e841b61806af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:58 +0000
Subject: [PATCH 26/58] fix: explain an unrecognised input form

---
 stokesian_dynamics/run_simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 7dbca73..b9bdb3c 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -746,6 +746,10 @@ error = 0
  element_sizes, element_positions, element_deltax, num_elements,
  num_elements_array, element_type, uv_start, uv_size,
  element_start_count) = posdata_data(posdata)
+if input_form not in ["fts", "fte", "ufte", "ufteu", "duf",
+                      "RPY_dumbbells_only", "stokes_drag_dumbbells_only"]:
+    throw_error("Input form not recognised. Choose 'fts', 'fte', 'ufte', "
+                + "'ufteu' or 'duf'.")
 if num_spheres == 0 and input_form not in ["fts", "duf", "RPY_dumbbells_only",
                                            "stokes_drag_dumbbells_only"]:
     error = throw_error("If you have only dumbbells, you need to use the FTS, "
-- 
2.43.0


From 0ceb2e40eca3d12e2631b45f7f9d7df8f612411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:58 +0000
Subject: [PATCH 27/58] fix: explain missing forces instead of failing in the
 solver

---
 stokesian_dynamics/functions/simulation_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/simulation_tools.py b/stokesian_dynamics/functions/simulation_tools.py
index cc3a514..a85ad22 100755
--- a/stokesian_dynamics/functions/simulation_tools.py
+++ b/stokesian_dynamics/functions/simulation_tools.py
@@ -131,7 +131,8 @@ def construct_force_vector_from_fts(posdata, f_spheres, t_spheres, s_spheres,
         fd = [item for sublist in f_dumbbells for item in sublist]
         dfd = [item for sublist in deltaf_dumbbells for item in sublist]
         force_vector = fs + ts + ss + fd + dfd
-    return force_vector
+    # Raises an error if any of the values have not been provided
+    return np.array(force_vector, float)
 
 
 def deconstruct_velocity_vector_for_fts(posdata, velocity_vector):
-- 
2.43.0


From 68b48bf22b4b42d1bf31302dd8b990d7e2463c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:59 +0000
Subject: [PATCH 28/58] fix: allow a single sphere to be placed at random

---
 stokesian_dynamics/setups/functions_positions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0269ebc..645840e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -62,12 +62,13 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
 
     random_sphere_positions = sphere_positions_out[
         current_sphere_positions.shape[0]:all_sphere_sizes.shape[0]]
-    distance_matrix = np.linalg.norm(
-        random_sphere_positions-random_sphere_positions[:, None], axis=2)
-    min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
-    two_closest_elements = np.where(distance_matrix == min_element_distance)
-    print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
-    print("Closest two spheres: " + str(two_closest_elements[0]))
+    if len(random_sphere_sizes) > 1:
+        distance_matrix = np.linalg.norm(
+            random_sphere_positions-random_sphere_positions[:, None], axis=2)
+        min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
+        two_closest_elements = np.where(distance_matrix == min_element_distance)
+        print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
+        print("Closest two spheres: " + str(two_closest_elements[0]))
 
     box_dimensions = abs(np.asarray(random_box_top_right)
                          - np.asarray(random_box_bottom_left))
-- 
2.43.0


From 4295fc5f3db3dd3dc83cc1d8c4adbee2c0b61578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:00 +0000
Subject: [PATCH 29/58] fix: remove leftover debugging shell from periodic
 dumbbell placement

---
 stokesian_dynamics/setups/functions_positions.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 645840e..e77d7f5 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -265,19 +265,6 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                 if bingo == 1:
                     break
 
-        q = 1000
-        qq = 1000
-        for m in [-1, 0, 1]:
-            for n in [-1, 0, 1]:
-                dxy = np.array([m*Dx, 0, n*Dz])
-                for p in bead_positions[:i]:
-                    q = min(q, np.linalg.norm(proposed_bead2_position - (p+dxy)))
-                    qq = min(qq, np.linalg.norm(proposed_bead1_position - (p+dxy)))
-        if min(q, qq) < 0.2:
-            print(min(q, qq))
-            from IPython import embed
-            embed()
-
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-- 
2.43.0


From 70be5e1a363f823c6eac558725901dcf414c7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:00 +0000
Subject: [PATCH 30/58] fix: leave y alone when wrapping randomly placed
 dumbbells

---
 stokesian_dynamics/setups/functions_positions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index e77d7f5..e73f085 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -272,10 +272,12 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
         dumbbell_positions[i] = 0.5*(proposed_bead1_position+proposed_bead2_position)
         dumbbell_deltax[i] = (proposed_bead2_position-proposed_bead1_position)
 
-        # Move the dumbbell_positions (centre) to inside the periodic box
-        dumbbell_positions[i] = (np.mod(
-            dumbbell_positions[i]-random_box_bottom_left, [Dx, 1e6, Dz]
-        ) + random_box_bottom_left)
+        # Move the dumbbell_positions (centre) to inside the periodic box. The
+        # box is not periodic in y.
+        for axis, length in [(0, Dx), (2, Dz)]:
+            dumbbell_positions[i, axis] = np.mod(
+                dumbbell_positions[i, axis] - random_box_bottom_left[axis],
+                length) + random_box_bottom_left[axis]
 
     print(" succeeded.")
 
-- 
2.43.0


From 71ca4a66d6ee34a5af550ad161af636bba363d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:00 +0000
Subject: [PATCH 31/58] fix: return the beads placed inside a quadrilateral

---
 stokesian_dynamics/setups/functions_positions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index e73f085..31b1e54 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -361,9 +361,10 @@ def randomise_beads_inside_quadrilateral(quadrilateral, dumbbell_sizes,
         sys.stdout.flush()
         bead_positions[i] = proposed_bead1_position
 
-    pos3 = bead_positions.reshape([2, bead_positions.shape[0]/2, 3])
-    pos3_dumbbell = 0.5*(pos3[0] + pos3[1])
-    pos3_deltax = 0.5*(pos3[1] - pos3[0])
+    # Beads 2i and 2i+1 were placed with the size of dumbbell i
+    pos3 = bead_positions.reshape([num_dumbbells, 2, 3])
+    pos3_dumbbell = 0.5*(pos3[:, 0] + pos3[:, 1])
+    pos3_deltax = pos3[:, 1] - pos3[:, 0]
 
     print("... succeeded.")
 
-- 
2.43.0


From 0efa3f80cdff9997d32d8032adf3f06addaad2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:39 +0000
Subject: [PATCH 32/58] fix: start again when random sphere placement runs out
 of room

---
 stokesian_dynamics/setups/functions_positions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 31b1e54..91d4491 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -38,8 +38,9 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
                                        random_sphere_sizes])
     print("Randomly distributing " + str(len(random_sphere_sizes))
           + " spheres (using a naive method in Python)... ", end=" ")
-    for i in range(len(random_sphere_sizes)):
-        while True:
+    i = 0
+    while i < len(random_sphere_sizes):
+        for _ in range(10000):
             proposed_sphere_position = random_point_in_box(
                 random_box_bottom_left, random_box_top_right)
             too_close = 0
@@ -56,8 +57,14 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
                 sys.stdout.write(symbol)
                 sys.stdout.flush()
                 break
+        if too_close > 0:
+            # No room for this sphere, so start again
+            sphere_positions_out = current_sphere_positions
+            i = 0
+            continue
         sphere_positions_out = np.append(sphere_positions_out,
                                          [proposed_sphere_position], axis=0)
+        i = i + 1
     print(" succeeded.")
 
     random_sphere_positions = sphere_positions_out[
-- 
2.43.0


From 33e8f6c3eb9ec9067bac3c0a80ba2748cdc6206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:39 +0000
Subject: [PATCH 33/58] fix: split the fed beads into dumbbells with
 whole-number indices

---
 stokesian_dynamics/functions/shared.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 36c9c9a..0a8be79 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -411,9 +411,9 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
         new_bead_positions = np.concatenate([new_bead_positions, readd_beads], axis=0)
 
     # form back into dumbbells
-    beads1 = new_bead_positions[:new_bead_positions.shape[0]/2]
-    beads2 = new_bead_positions[new_bead_positions.shape[0]/2:
-                                (new_bead_positions.shape[0]/2)*2]
+    beads1 = new_bead_positions[:new_bead_positions.shape[0]//2]
+    beads2 = new_bead_positions[new_bead_positions.shape[0]//2:
+                                (new_bead_positions.shape[0]//2)*2]
     new_dumbbell_positions = 0.5*(beads1+beads2)
     new_dumbbell_deltax = beads2-beads1
     new_dumbbell_sizes = np.array(
-- 
2.43.0


From f645d2c70ac206a73ba628cad1e910e1962d7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:39 +0000
Subject: [PATCH 34/58] fix: feed nothing in when there are no particles to
 replace

---
 stokesian_dynamics/functions/shared.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 0a8be79..d35eae7 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -354,6 +354,8 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
         + height_from_reference_particle_to_bottom_bead
         + height_needed_below)]
     num_deleted_beads_from_top = num_beads_before - keep_bead_positions.shape[0]
+    if num_deleted_beads_from_top == 0:
+        return posdata
     # Prepare beads to add below. Read in a full block of beads.
     (add_sphere_sizes, add_sphere_positions, add_sphere_rotations,
         add_dumbbell_sizes, add_dumbbell_positions,
-- 
2.43.0


From 6518c05896be72b35e8712c4365c34fee568bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:20 +0000
Subject: [PATCH 35/58] fix: let compiled runs contain dumbbells only

With no spheres the stresslets were passed on as a one-dimensional array,
which the compiled condensing function does not accept.
---
 stokesian_dynamics/functions/simulation_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/simulation_tools.py b/stokesian_dynamics/functions/simulation_tools.py
index a85ad22..73c0d4e 100755
--- a/stokesian_dynamics/functions/simulation_tools.py
+++ b/stokesian_dynamics/functions/simulation_tools.py
@@ -111,8 +111,8 @@ def construct_force_vector_from_fts(posdata, f_spheres, t_spheres, s_spheres,
      element_sizes, element_positions, element_deltax, num_elements,
      num_elements_array, element_type, uv_start, uv_size,
      element_start_count) = posdata_data(posdata)
-    s_spheres_condensed_flat = condense_and_flatten(np.array(s_spheres),
-                                                    num_spheres)
+    s_spheres_condensed_flat = condense_and_flatten(
+        np.array(s_spheres).reshape(-1, 3, 3), num_spheres)
     if num_spheres == 0 and num_dumbbells == 0:
         force_vector = np.array([])
     if num_spheres > 0 and num_dumbbells == 0:
-- 
2.43.0


From 1c972f7799f7011b0b49fd550cd9a126682ea3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:38 +0000
Subject: [PATCH 36/58] fix: make room for the last square root used by the
 two-sphere solver

Fill_G reads root(2*Nmax+1), one past the end of the array.
---
 find_resistance_scalars/helen_fortran/2sphere.f |  2 +-
 find_resistance_scalars/helen_fortran/base.f    | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/find_resistance_scalars/helen_fortran/2sphere.f b/find_resistance_scalars/helen_fortran/2sphere.f
index b54e287..9f17362 100755
--- a/find_resistance_scalars/helen_fortran/2sphere.f
+++ b/find_resistance_scalars/helen_fortran/2sphere.f
@@ -426,7 +426,7 @@ c--------c Added 24 June 2014 noon to account for the usual "G = 2D" error.
      +     Syz(Nspheres)
 *
       integer i,j,n,m
-      real*8 root(0:2*Nmax), fact(0:2*Nmax)
+      real*8 root(0:2*Nmax+1), fact(0:2*Nmax+1)
       common /sqrts/ root, fact
       real*8 H, Uxr, Uxi, Uyr, Uyi, Uzr, Uzi,
      +     Oxr, Oxi, Oyr, Oyi, Ozr, Ozi,
diff --git a/find_resistance_scalars/helen_fortran/base.f b/find_resistance_scalars/helen_fortran/base.f
index 1f2d031..95add25 100755
--- a/find_resistance_scalars/helen_fortran/base.f
+++ b/find_resistance_scalars/helen_fortran/base.f
@@ -6,18 +6,18 @@
 *
 ************************************************************************
 *                                                                      *
-*     Stores the square root of the integers from 0 to 2*Nmax in       *
+*     Stores the square root of the integers from 0 to 2*Nmax+1 in     *
 *     the array "root", and square roots of the factorials in "fact"   *
 *                                                                      *
 ************************************************************************
 *
       integer i
-      real*8 root(0:2*Nmax), fact(0:2*Nmax)
+      real*8 root(0:2*Nmax+1), fact(0:2*Nmax+1)
       common /sqrts/ root, fact
 *
       root(0) = 0.d0
       fact(0) = 1.d0
-      do i=1,2*Nmax
+      do i=1,2*Nmax+1
          root(i) = dsqrt((0.d0+i))
          fact(i) = root(i)*fact(i-1)
       end do
@@ -38,7 +38,7 @@
 ************************************************************************
 *
       integer nu,n,m,im
-      real*8 root(0:2*Nmax), fact(0:2*Nmax)
+      real*8 root(0:2*Nmax+1), fact(0:2*Nmax+1)
       common /sqrts/ root, fact
 *
       do nu=0,Nmax
@@ -98,7 +98,7 @@
 ************************************************************************
 *
       integer n,m,im
-      real*8 root(0:2*Nmax), fact(0:2*Nmax)
+      real*8 root(0:2*Nmax+1), fact(0:2*Nmax+1)
       common /sqrts/ root, fact      
 *
       if (m .LT. 0) then 
-- 
2.43.0


From 2f5eed78d382b1e641d8e6fd7a2d756b219a1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:29 +0000
Subject: [PATCH 37/58] fix: print stresslets of any size in the words style of
 the two-sphere solver

The fixed field had room for values below 1000 only; larger ones were
printed as a row of stars.
---
 find_resistance_scalars/helen_fortran/2sphere.f | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/find_resistance_scalars/helen_fortran/2sphere.f b/find_resistance_scalars/helen_fortran/2sphere.f
index 9f17362..e18230e 100755
--- a/find_resistance_scalars/helen_fortran/2sphere.f
+++ b/find_resistance_scalars/helen_fortran/2sphere.f
@@ -364,12 +364,12 @@ c--------c Added 24 June 2014 noon to account for the usual "G = 2D" error.
 			 print *,'Rotn about the x-direction, ',Ox(i)
 			 print *,'Rotn about the y-direction, ',Oy(i)
 			 print *,'Rotn about the z-direction, ',Oz(i)
-			 print '(A25,F21.17)',' Stresslet xx-component, ',Sxx(i)
-			 print '(A25,F21.17)','Stresslet yy-component, ',Syy(i)
-			 print '(A25,F21.17)','Stresslet zz-component, ',-Sxx(i)-Syy(i)
-			 print '(A25,F21.17)','Stresslet xy-component, ',Sxy(i)
-			 print '(A25,F21.17)','Stresslet xz-component, ',Sxz(i)
-			 print '(A25,F21.17)','Stresslet yz-component, ',Syz(i)
+			 print '(A25,ES25.16)',' Stresslet xx-component, ',Sxx(i)
+			 print '(A25,ES25.16)','Stresslet yy-component, ',Syy(i)
+			 print '(A25,ES25.16)','Stresslet zz-component, ',-Sxx(i)-Syy(i)
+			 print '(A25,ES25.16)','Stresslet xy-component, ',Sxy(i)
+			 print '(A25,ES25.16)','Stresslet xz-component, ',Sxz(i)
+			 print '(A25,ES25.16)','Stresslet yz-component, ',Syz(i)
 			 print *,'-------------------------------------'
 		  end do
       end if
-- 
2.43.0


From 7622504b3f0e84eb1bff31d396c43d96abcf6372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:32 +0000
Subject: [PATCH 38/58] fix: find size ratios whose reciprocal does not invert
 exactly in the midfield step

1/(1/lambda) differs from lambda in the last digit for many ratios, for
which the exact comparison found nothing and the script stopped.
---
 find_resistance_scalars/generate_scalars_midfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/generate_scalars_midfield.py b/find_resistance_scalars/generate_scalars_midfield.py
index 2b8c66e..2b122f7 100755
--- a/find_resistance_scalars/generate_scalars_midfield.py
+++ b/find_resistance_scalars/generate_scalars_midfield.py
@@ -433,7 +433,7 @@ for lam_wr_index, lam in enumerate(lam_range_with_reciprocals):
                                           lam**3, lam**3, lam**3])
         lam_scales_m = np.tile(lam_scales_one_line_m, (s_dash_length, 1)).T
 
-        lam_index = np.argwhere(lam_range == (1 / lam))[0, 0]
+        lam_index = np.argmin(np.abs(lam_range - 1 / lam))
         XYZ_general_table[:, 0, :, lam_wr_index] = (XYZ_table[
             (3, 7, 11, 15, 19, 23, 27, 31, 35, 39, 43), :, lam_index]
             * minus_in_B_and_G * lam_scales_r)
-- 
2.43.0


From ccc4ba9ecec8ac54156d3ff16eeaab1d09517215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:57 +0000
Subject: [PATCH 39/58] fix: keep separations and scalars in the same order
 when combining tables

The list of separations was sorted, the table was not, so entries ended up
next to the wrong separation whenever the two lists interleave.  The sorted
list also had no shape, which stopped the script before it wrote the
human-readable table.
---
 find_resistance_scalars/combine_scalars.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index 3dea844..95acc5b 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -27,8 +27,10 @@ values_of_s_dash_nearfield = np.loadtxt('values_of_s_dash_nearfield.txt',
                                         ndmin=1)
 values_of_s_dash_midfield = np.loadtxt('values_of_s_dash_midfield.txt',
                                        ndmin=1)
-values_of_s_dash = sorted(np.concatenate((values_of_s_dash_nearfield,
-                                          values_of_s_dash_midfield)))
+values_of_s_dash = np.concatenate((values_of_s_dash_nearfield,
+                                   values_of_s_dash_midfield))
+s_dash_order = np.argsort(values_of_s_dash)
+values_of_s_dash = values_of_s_dash[s_dash_order]
 np.savetxt('values_of_s_dash.txt', values_of_s_dash, fmt="% .8e")
 s_dash_range = values_of_s_dash
 s_dash_length = len(s_dash_range)
@@ -46,7 +48,8 @@ print(XYZ_mid_raw.shape)
 print(XYZ_near_raw.shape)
 
 
-XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw), axis=2)
+XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw),
+                                   axis=2)[:, :, s_dash_order]
 general_scalars_length = len(general_resistance_scalars_names)
 
 with open('scalars_general_resistance.npy', 'wb') as outputfile:
-- 
2.43.0


From 3cf08aa00bcffa848dc17266d2faf77b65ae176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:57 +0000
Subject: [PATCH 40/58] fix: write the subtracted scalars next to the other
 tables

All scripts of this folder are run from within it, where the path used
here does not exist.
---
 find_resistance_scalars/subtract_R2Binfinity_from_scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 3e69284..96bc435 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -103,7 +103,7 @@ for lam_index, lam in enumerate(lam_range_with_reciprocals):
         XYZd_raw[10, 1, s_dash_index, lam_index] = XYZ_raw[10, 1, s_dash_index, lam_index] - ZM1
 
 # computer readable
-with open('find_resistance_scalars/scalars_general_resistance_d.npy', 'wb+') as outputfile:
+with open('scalars_general_resistance_d.npy', 'wb') as outputfile:
     np.save(outputfile, XYZd_raw)
 
 # human readable
-- 
2.43.0


From df41f37bfd37ebdd4d1f454804005840880dc1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:57 +0000
Subject: [PATCH 41/58] fix: accept scalar tables with a single size ratio

---
 .../subtract_R2Binfinity_from_scalars.py                    | 4 ++--
 .../subtract_R2Binfinitydrag_from_scalars.py                | 4 ++--
 stokesian_dynamics/resistance_scalars/data.py               | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 96bc435..b96f1d8 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -22,8 +22,8 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
     XYZ_raw = np.load(inputfile)
 XYZd_raw = np.copy(XYZ_raw)
 
-s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+s_dash_range = np.loadtxt('values_of_s_dash.txt', ndmin=1)
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
diff --git a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
index 95e9bfa..197bbdd 100644
--- a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
@@ -26,8 +26,8 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
     XYZ_raw = np.load(inputfile)
 XYZd_raw = np.copy(XYZ_raw)
 
-s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+s_dash_range = np.loadtxt('values_of_s_dash.txt', ndmin=1)
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index c65a037..d1a5c07 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -10,10 +10,10 @@ resistance_scalars_folder = os.path.dirname(os.path.abspath(__file__))
 
 # Note: the s_range is the same currently for all values of lambda. This may be
 # a bad idea in the long run. Not sure.
-s_dash_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_s_dash.txt')
+s_dash_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_s_dash.txt', ndmin=1)
 range_s_dash_range = range(s_dash_range.shape[0])
 range_len_of_s_dash_range = range(s_dash_range.shape[0])
-lam_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_lambda.txt')
+lam_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = lam_range
 for lam in lam_range_with_reciprocals:
     if (1./lam) not in lam_range_with_reciprocals:
@@ -38,4 +38,4 @@ except IOError:
 filename = f'{resistance_scalars_folder}/scalars_general_resistance.npy'
 with open(filename, 'rb') as inputfile:
     XYZ_raw_no_d = np.load(inputfile)
-s_dash_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_s_dash.txt')
+s_dash_range = np.loadtxt(f'{resistance_scalars_folder}/values_of_s_dash.txt', ndmin=1)
-- 
2.43.0


From 641d268535998edcad94b29ca5cde8c1048fd729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:57 +0000
Subject: [PATCH 42/58] fix: replace human-readable tables instead of appending
 to them

The binary tables are replaced on every run, but the text versions kept
the previous table in front of the new one.
---
 find_resistance_scalars/functions_general.py                    | 2 +-
 find_resistance_scalars/subtract_R2Binfinity_from_scalars.py    | 2 +-
 .../subtract_R2Binfinitydrag_from_scalars.py                    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/find_resistance_scalars/functions_general.py b/find_resistance_scalars/functions_general.py
index a44b93f..982bb67 100644
--- a/find_resistance_scalars/functions_general.py
+++ b/find_resistance_scalars/functions_general.py
@@ -40,7 +40,7 @@ general_mobility_scalars_names = ["xa", "ya", "yb", "xc", "yc",
 
 def save_human_table(filename, description, elapsed_time_hms, firstrow, data):
     """Save a table of data in a human-readable form."""
-    with open(filename, 'a') as outputfile:
+    with open(filename, 'w') as outputfile:
         heading = (description + ", generated "
                    + time.strftime("%d/%m/%Y %H:%M:%S")
                    + ". Time to generate " + elapsed_time_hms)
diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index b96f1d8..69157c4 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -122,7 +122,7 @@ for s_dash_index, s_dash in enumerate(s_dash_range):
             XYZ_outputline = np.append([s_dash, lam, gam],
                                        XYZd_raw[:, gam, s_dash_index, lam_wr_index])
             XYZ_general_human[(lam_wr_index*s_dash_length + s_dash_index)*2 + gam, :] = XYZ_outputline
-with open('scalars_general_resistance_d.txt', 'a') as outputfile:
+with open('scalars_general_resistance_d.txt', 'w') as outputfile:
     heading = ("Nondimensionalised resistance scalars with R2Binfinity subtracted off, generated "
                + time.strftime("%d/%m/%Y %H:%M:%S"))
     np.savetxt(outputfile, np.array([heading]), fmt="%s")
diff --git a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
index 197bbdd..fe23471 100644
--- a/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinitydrag_from_scalars.py
@@ -134,7 +134,7 @@ for s_dash_index, s_dash in enumerate(s_dash_range):
             XYZ_outputline = np.append(
                 [s_dash, lam, gam], XYZd_raw[:, gam, s_dash_index, lam_wr_index])
             XYZ_general_human[(lam_wr_index*s_dash_length + s_dash_index)*2 + gam, :] = XYZ_outputline
-with open('scalars_general_resistance_d_drag.txt', 'a') as outputfile:
+with open('scalars_general_resistance_d_drag.txt', 'w') as outputfile:
     heading = ("Nondimensionalised resistance scalars with drag-only R2Binfinity subtracted off, generated "
                + time.strftime("%d/%m/%Y %H:%M:%S"))
     np.savetxt(outputfile, np.array([heading]), fmt="%s")
-- 
2.43.0


From 9ff483fe5a28b39528ebeca99ae5befdd2c74a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 43/58] fix: let arrows be drawn by current versions of
 Matplotlib

Matplotlib asks artists on 3D axes for do_3d_projection and no longer
provides renderer.M, so any picture with arrows on it failed.
---
 stokesian_dynamics/functions/graphics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 6a9cb06..8262ec0 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -15,11 +15,11 @@ class Arrow3D(FancyArrowPatch):
         FancyArrowPatch.__init__(self, (0, 0), (0, 0), *args, **kwargs)
         self._verts3d = xs, ys, zs
 
-    def draw(self, renderer):
+    def do_3d_projection(self, renderer=None):
         xs3d, ys3d, zs3d = self._verts3d
-        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
         self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
-        FancyArrowPatch.draw(self, renderer)
+        return np.min(zs)
 
 
 def rotation_matrix(d):
-- 
2.43.0


From 0b75b8ef65cf4ea2ca603777c915438e9ed5b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 44/58] fix: draw all force arrows to the same scale

The scale factor was applied again for every arrow, so the k-th arrow was
6^k times too long instead of 6 times.
---
 stokesian_dynamics/functions/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 8262ec0..fb9959d 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -257,11 +257,11 @@ def plot_all_force_lines(ax, posdata, f_spheres):
     (sphere_sizes, sphere_positions, sphere_rotations, dumbbell_sizes,
      dumbbell_positions, dumbbell_deltax) = posdata
     force_lines = force_text = []
+    f_spheres = f_spheres*6  # so we can see it
     for i in range(sphere_sizes.size):
         # Make invisible if hidden
         if ((f_spheres[i, :] != np.array([0, 0, 0])).any()
                 and (sphere_positions[i, 1] < 0.05 and sphere_positions[i, 1] > -1)):
-            f_spheres = f_spheres*6  # so we can see it
             line = Arrow3D([sphere_positions[i, 0],
                             sphere_positions[i, 0]+f_spheres[i, 0]],
                            [sphere_positions[i, 1],
-- 
2.43.0


From 887c88547b36b7744fa370c3dba06eae7b5f445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 45/58] fix: plot dumbbells from saved files again

Both plotting scripts passed a frame number that plot_all_dumbbells does
not take.
---
 stokesian_dynamics/plotting/make_video.py     | 2 +-
 stokesian_dynamics/plotting/plot_positions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 1c962a9..47417d4 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -276,7 +276,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             sphere_trace_lines, FaX)
     if num_dumbbells > 0:
         (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-            ax, real_frameno, posdata, trace_paths,
+            ax, posdata, trace_paths,
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index e3ff14a..dc22526 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -102,7 +102,7 @@ if num_spheres > 0:
         sphere_trace_lines, Fa_out[frameno])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-        ax, frameno, posdata, trace_paths, dumbbell_trace_lines,
+        ax, posdata, trace_paths, dumbbell_trace_lines,
         Fb_out[frameno], DFb_out[frameno])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
-- 
2.43.0


From 280cbf318fdc2d82e86e75f2c2cacbb947d8fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 46/58] fix: read timesteps like 1e-05 and negative setup
 numbers from filenames

The name was split at every dash, including those inside numbers.
---
 stokesian_dynamics/plotting/make_video.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 47417d4..c3fda79 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -13,6 +13,7 @@ import matplotlib
 import numpy as np
 import matplotlib.pyplot as plt
 import os
+import re
 import time
 import sys
 from matplotlib import animation, rcParams
@@ -40,9 +41,11 @@ newest = max(glob.iglob(output_folder + '*.[Nn][Pp][Zz]'), key=os.path.getctime)
 filename = newest[len(output_folder):-len(".npz")]
 # Overwrite filename here if you want a specific file
 
-timestep = float(filename.split('-')[4][1:].replace('p', '.'))
-input_number = int(filename.split('-')[2][1:])
-setup_number = int(filename.split('-')[1][1:])
+setup_number, input_number, timestep = re.match(
+    r".*?-s(-?\d+)-i(-?\d+)-\d+fr-t(.+?)-M\d", filename).groups()
+timestep = float(timestep.replace('p', '.'))
+input_number = int(input_number)
+setup_number = int(setup_number)
 
 # Find out info from input_number
 posdata, setup_description = pos_setup(setup_number)
-- 
2.43.0


From 8cb5542ec0ab19aed5567bf8a3fe708d6a7dede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 47/58] fix: draw particles in videos with the sizes of their
 setup

All spheres were drawn with radius 1 and all beads with radius 0.1.
---
 stokesian_dynamics/plotting/make_video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index c3fda79..a39b003 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -80,8 +80,8 @@ else:
 num_particles = positions_centres.shape[1]
 num_dumbbells = positions_deltax.shape[1]
 num_spheres = num_particles - num_dumbbells
-sphere_sizes = np.array([1 for i in range(num_spheres)])
-dumbbell_sizes = np.array([0.1 for i in range(num_dumbbells)])
+sphere_sizes = posdata[0]
+dumbbell_sizes = posdata[3]
 max_DFb_out = 1
 
 # Pictures initialise
-- 
2.43.0


From ae413a1cb93ac0115b00a5651342a62bac10b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 48/58] fix: let videos start late without giving their last
 frame

The number of frames ignored num_frames_override_start, so the script ran
beyond the end of the data.
---
 stokesian_dynamics/plotting/make_video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index a39b003..6eee514 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -74,7 +74,7 @@ DFb_out = data1['DFb']
 positions_sphere_rotations = data1['sphere_rotations']
 
 if num_frames_override_end == 0:
-    num_frames = positions_centres.shape[0]//display_every_n_frames
+    num_frames = (positions_centres.shape[0]-num_frames_override_start)//display_every_n_frames
 else:
     num_frames = (num_frames_override_end-num_frames_override_start)//display_every_n_frames
 num_particles = positions_centres.shape[1]
-- 
2.43.0


From 5cd64cd92bf1a95539338d8b79d332842692a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 49/58] fix: colour particles by the forces of the frame
 displayed

Videos that skip frames used the forces of other frames, and the final
position, which has no forces of its own, could not be plotted.
---
 stokesian_dynamics/plotting/make_video.py     | 13 +++++--------
 stokesian_dynamics/plotting/plot_positions.py |  5 +++--
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 6eee514..4126bac 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -165,14 +165,11 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
     dumbbell_deltax = positions_deltax[real_frameno, :, :]
 
     no_line = False
-    if frameno == num_frames - 1:
-        FaX = Fa_out[frameno-1]
-        FbX = Fb_out[frameno-1]
-        DFbX = DFb_out[frameno-1]
-    else:
-        FaX = Fa_out[frameno]
-        FbX = Fb_out[frameno]
-        DFbX = DFb_out[frameno]
+    # There are no forces for the final position, so use the ones before it
+    force_frameno = min(real_frameno, Fa_out.shape[0] - 1)
+    FaX = Fa_out[force_frameno]
+    FbX = Fb_out[force_frameno]
+    DFbX = DFb_out[force_frameno]
 
     # FOR PERIODIC, let's get it to repeat itself left and right
     (Fa_in, Ta_in, Sa_in, Sa_c_in, Fb_in, DFb_in, Ua_in, Oa_in, Ea_in,
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index dc22526..5cf7d42 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -99,11 +99,12 @@ fig.tight_layout()
 if num_spheres > 0:
     (spheres, sphere_lines, sphere_trace_lines) = plot_all_spheres(
         ax, frameno, posdata, previous_step_posdata, trace_paths,
-        sphere_trace_lines, Fa_out[frameno])
+        sphere_trace_lines, Fa_out[min(frameno, Fa_out.shape[0] - 1)])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
         ax, posdata, trace_paths, dumbbell_trace_lines,
-        Fb_out[frameno], DFb_out[frameno])
+        Fb_out[min(frameno, Fb_out.shape[0] - 1)],
+        DFb_out[min(frameno, DFb_out.shape[0] - 1)])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
     (velocity_lines, velocity_text, sphere_labels) = plot_all_velocity_lines(
-- 
2.43.0


From b98eb9b19767b685cee5feb6511eb924367415c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 50/58] fix: let the plotting scripts draw arrows and labels

With view_labels on, both scripts failed on lists where arrays are needed,
and the video passed the forces of all frames at once.
---
 stokesian_dynamics/plotting/make_video.py     | 8 ++++----
 stokesian_dynamics/plotting/plot_positions.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 4126bac..ae886e8 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -261,9 +261,9 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
                    dumbbell_sizes, dumbbell_positions, dumbbell_deltax]
         previous_step_posdata = posdata
 
-    Ta_out = [[0, 0, 0] for _ in range(num_spheres)]
-    Oa_out = [[0, 0, 0] for _ in range(num_spheres)]
-    Ua_out = [[0, 0, 0] for _ in range(num_spheres)]
+    Ta_out = np.zeros((len(posdata[0]), 3))
+    Oa_out = np.zeros((len(posdata[0]), 3))
+    Ua_out = np.zeros((len(posdata[0]), 3))
 
     for q in (spheres + force_lines + torque_lines + velocity_lines
               + angular_velocity_lines + sphere_lines + dumbbell_lines
@@ -280,7 +280,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
-        (force_lines, force_text) = plot_all_force_lines(ax, posdata, Fa_out)
+        (force_lines, force_text) = plot_all_force_lines(ax, posdata, FaX)
         torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
         # Velocity in green
         (velocity_lines, velocity_text, sphere_labels) = plot_all_velocity_lines(
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index 5cf7d42..29ccdbc 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -52,9 +52,9 @@ sphere_sizes = np.array([1 for _ in range(num_spheres)])
 dumbbell_sizes = np.array([0.1 for _ in range(num_dumbbells)])
 sphere_rotations = add_sphere_rotations_to_positions(
     sphere_positions, sphere_sizes, np.array([[1, 0, 0], [0, 0, 1]]))
-Ta_out = [[0, 0, 0] for _ in range(num_spheres)]
-Oa_out = [[0, 0, 0] for _ in range(num_spheres)]
-Ua_out = [[0, 0, 0] for _ in range(num_spheres)]
+Ta_out = np.zeros((num_spheres, 3))
+Oa_out = np.zeros((num_spheres, 3))
+Ua_out = np.zeros((num_spheres, 3))
 
 posdata = [sphere_sizes, sphere_positions, sphere_rotations, dumbbell_sizes,
            dumbbell_positions, dumbbell_deltax]
-- 
2.43.0


From 13927cdb5a67663c8c1cdafd4766fdc058fc5833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 51/58] fix: plot the saved orientations of spheres

The picture always showed every sphere in its initial orientation.
---
 stokesian_dynamics/plotting/plot_positions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index 29ccdbc..b49c606 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -18,7 +18,6 @@ sys.path.append("..")  # Allows importing from SD directory
 from functions.graphics import (plot_all_spheres, plot_all_dumbbells,
                                 plot_all_torque_lines, plot_all_velocity_lines,
                                 plot_all_angular_velocity_lines)
-from functions.shared import add_sphere_rotations_to_positions
 
 
 filename = 'filename_here'
@@ -36,6 +35,7 @@ output_folder = this_folder + "/../output/"
 data1 = np.load(output_folder + filename + ".npz")
 positions_centres = data1['centres']
 positions_deltax = data1['deltax']
+positions_sphere_rotations = data1['sphere_rotations']
 Fa_out = data1['Fa']
 Fb_out = data1['Fb']
 DFb_out = data1['DFb']
@@ -50,8 +50,7 @@ dumbbell_deltax = positions_deltax[frameno, :, :]
 
 sphere_sizes = np.array([1 for _ in range(num_spheres)])
 dumbbell_sizes = np.array([0.1 for _ in range(num_dumbbells)])
-sphere_rotations = add_sphere_rotations_to_positions(
-    sphere_positions, sphere_sizes, np.array([[1, 0, 0], [0, 0, 1]]))
+sphere_rotations = positions_sphere_rotations[frameno]
 Ta_out = np.zeros((num_spheres, 3))
 Oa_out = np.zeros((num_spheres, 3))
 Ua_out = np.zeros((num_spheres, 3))
-- 
2.43.0


From 3507991756b42bbb3ef25f2f065a666ec6b24b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 52/58] fix: draw the sheared periodic box around the particles
 in it

The basis vectors are rows, so the transposed shear was drawn, and boxes
not centred on the origin were sheared about the wrong point.
---
 stokesian_dynamics/plotting/make_video.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index ae886e8..fb4e173 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -211,9 +211,10 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
         # box corners, sheared:
         #  (i) Transformed into the canonical basis (box length = 1 unit)
         # (ii) Transformed into the sheared basis
-        corners_sheared = np.dot(sheared_basis_vectors,
-                                 np.linalg.solve(basis_canonical,
-                                                 corners.T)).T
+        box_centre = 0.5*(box_bottom_left + box_top_right)
+        corners_sheared = np.dot(np.linalg.solve(basis_canonical,
+                                                 (corners - box_centre).T).T,
+                                 sheared_basis_vectors) + box_centre
         cor1 = corners_sheared[0]
         cor2 = corners_sheared[1]
         cor3 = corners_sheared[2]
-- 
2.43.0


From d72070ab547ce5f62f765880fc92edeb79793a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 53/58] fix: remove the first periodic box from later video
 frames

Matplotlib draws the first frame more than once, and only the last copy of
its box was removed.
---
 stokesian_dynamics/plotting/make_video.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index fb4e173..8f66404 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -104,6 +104,7 @@ angular_velocity_lines = list()
 sphere_lines = list()
 sphere_trace_lines = list()
 dumbbell_trace_lines = list()
+box_lines = list()
 v = viewbox_bottomleft_topright.transpose()
 ax.auto_scale_xyz(v[0], v[1], v[2])
 ax.set_xlim3d(v[0, 0], v[0, 1])
@@ -148,7 +149,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
     global error, previous_timestamp, saved_element_positions, saved_deltax
     global saved_Fa_out, saved_Fb_out, saved_DFb_out
     global fig, ax
-    global linec1, linec2, linec3, linec4
+    global box_lines
 
     frame_start_time = time.time()
     real_frameno = frameno*display_every_n_frames + num_frames_override_start
@@ -219,15 +220,13 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
         cor2 = corners_sheared[1]
         cor3 = corners_sheared[2]
         cor4 = corners_sheared[3]
-        if frameno > 0:
-            linec1.remove()
-            linec2.remove()
-            linec3.remove()
-            linec4.remove()
+        for q in box_lines:
+            q.remove()
         linec1 = plt.plot(*np.transpose([cor1,cor2]), color='r', linewidth=1)[0]
         linec2 = plt.plot(*np.transpose([cor2,cor3]), color='r', linewidth=1)[0]
         linec3 = plt.plot(*np.transpose([cor3,cor4]), color='r', linewidth=1)[0]
         linec4 = plt.plot(*np.transpose([cor4,cor1]), color='r', linewidth=1)[0]
+        box_lines = [linec1, linec2, linec3, linec4]
 
         # NOTE: If you change the next line you have to change it in K_lmn too!
         X_lmn_sheared_inside_radius = X_lmn_sheared[
-- 
2.43.0


From f7bc806e0245286cb7430a9e2701b4a733f77b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 54/58] fix: create the video folder if it is missing

The folder is not part of the repository, and its absence was reported as
a missing FFMPEG installation.
---
 stokesian_dynamics/plotting/make_video.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 8f66404..476ae9b 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -312,6 +312,7 @@ generate_frame_args = [viewbox_bottomleft_topright, view_labels, timestep,
 ani = animation.FuncAnimation(fig, generate_frame, frames=num_frames,
                               fargs=generate_frame_args, repeat=False,
                               interval=200, save_count=num_frames)
+os.makedirs(video_folder, exist_ok=True)
 mywriter = animation.FFMpegWriter(fps=8)
 try:
     ani.save(video_folder + filename + '.mp4', writer=mywriter)
-- 
2.43.0


From 97a57a22176b8fa9acf084f6bacb287ec0ce8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:23 +0000
Subject: [PATCH 55/58] fix: join the traced positions when tracing every n
 timesteps

For n > 1 only the last of every n steps was drawn, leaving gaps.
---
 stokesian_dynamics/run_simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index b9bdb3c..6a5246a 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -222,9 +222,6 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
         else:
             regenerate_Minfinity = False
 
-        if trace_paths > 0 and frameno % trace_paths == 0:
-            previous_step_posdata = posdata
-
         if frameno == 0 or frameno == checkpoint_start_from_frame:
             Ua_blank = np.array([[0, 0, 0] for _ in range(num_spheres)])
             Ub_blank = np.array([[0, 0, 0] for _ in range(num_dumbbells)])
@@ -709,6 +706,8 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                          + ", input " + str(input_number),
                          loc='center', y=1.055, fontsize=11)
         posdata = posdata_final
+        if trace_paths > 0 and frameno % trace_paths == 0:
+            previous_step_posdata = posdata
 
         # Maximum memory the program has used since starting.
         memory_used_bytes = psutil.Process(os.getpid()).memory_info().rss
-- 
2.43.0


From 1d88ea296e286076f07b8815c5fa33eeaffdae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:15:33 +0000
Subject: [PATCH 56/58] fix: start the completion email with a valid From
 header

---
 stokesian_dynamics/functions/email.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/email.py b/stokesian_dynamics/functions/email.py
index 39da537..feda61d 100644
--- a/stokesian_dynamics/functions/email.py
+++ b/stokesian_dynamics/functions/email.py
@@ -25,7 +25,7 @@ def send_email(subject, body):
     to_address = recipient if isinstance(recipient,list) else [recipient]
 
     # Prepare actual message
-    message = """\\From: %s\nTo: %s\nSubject: %s\n\n%s
+    message = """From: %s\nTo: %s\nSubject: %s\n\n%s
     """ % (from_address, ", ".join(to_address), subject, body)
     try:
         server = smtplib.SMTP("smtp.gmail.com", 587)
-- 
2.43.0


From 1cc6ea276ef22c28f33e21e9d3c752f75eac8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:49 +0000
Subject: [PATCH 57/58] fix: feed in particles when every bead is above the cut

The message about the remaining beads took the minimum of an empty
array, which stopped the simulation when all beads had been passed.
---
 stokesian_dynamics/functions/shared.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index d35eae7..afe9445 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -379,8 +379,9 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
           np.max(add_bead_positions_to_add[:, 2]))
     print("bottom of the add_bead_positions_to_add",
           np.min(add_bead_positions_to_add[:, 2]))
-    print("bottom of the beads that are already there",
-          np.min(keep_bead_positions[:, 2]))
+    if keep_bead_positions.shape[0] > 0:
+        print("bottom of the beads that are already there",
+              np.min(keep_bead_positions[:, 2]))
     # check for overlaps
     add_bead_positions_to_add_really = np.empty([0, 3])
     for s in add_bead_positions_to_add:
-- 
2.43.0


From a1d127819c4ba759ab8ffb622e8fd186ad169da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:09:18 +0000
Subject: [PATCH 58/58] fix: leave bead pairs out of the self terms when
 bead-bead interactions are off

---
 .../functions/generate_R2Bexact.py               | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_R2Bexact.py b/stokesian_dynamics/functions/generate_R2Bexact.py
index 23b9896..a09f022 100644
--- a/stokesian_dynamics/functions/generate_R2Bexact.py
+++ b/stokesian_dynamics/functions/generate_R2Bexact.py
@@ -567,14 +567,18 @@ def generate_R2Bexact_loop(R2Bexact, bead_sizes, num_spheres, num_dumbbells,
                 nearby_beads_distances = []
                 for kk in range(len(closer_than_cutoff_pairs_scaled)):
                     (i, j) = closer_than_cutoff_pairs_scaled[kk]
-                    if (i == a1_index and i != j):
+                    if (i == a1_index and i != j
+                            and (bead_bead_interactions
+                                 or is_sphere(j, num_spheres))):
                         nearby_bead = j
                         nearby_beads_displacements.append(
                             displacements_pairs_scaled[kk])
                         nearby_beads.append(nearby_bead)
                         nearby_beads_distances.append(
                             distances_pairs_scaled[kk])
-                    if (j == a1_index and i != j):
+                    if (j == a1_index and i != j
+                            and (bead_bead_interactions
+                                 or is_sphere(i, num_spheres))):
                         nearby_bead = i
                         nearby_beads_displacements.append(
                             -displacements_pairs_scaled[kk])  # Note minus sign
@@ -620,14 +624,18 @@ def generate_R2Bexact_loop(R2Bexact, bead_sizes, num_spheres, num_dumbbells,
                 nearby_beads_distances = []
                 for kk in range(len(closer_than_cutoff_pairs_scaled)):
                     (i, j) = closer_than_cutoff_pairs_scaled[kk]
-                    if (i == a1_index and i != j):
+                    if (i == a1_index and i != j
+                            and (bead_bead_interactions
+                                 or is_sphere(j, num_spheres))):
                         nearby_bead = j
                         nearby_beads_displacements.append(
                             displacements_pairs_scaled[kk])
                         nearby_beads.append(nearby_bead)
                         nearby_beads_distances.append(
                             distances_pairs_scaled[kk])
-                    if (j == a1_index and i != j):
+                    if (j == a1_index and i != j
+                            and (bead_bead_interactions
+                                 or is_sphere(i, num_spheres))):
                         nearby_bead = i
                         nearby_beads_displacements.append(
                             -displacements_pairs_scaled[kk])  # Note minus sign
-- 
2.43.0

