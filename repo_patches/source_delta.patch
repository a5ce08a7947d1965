From d65364db59bfa9fab2a75a84e887e6df282be18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:20 +0000
Subject: [PATCH 01/26] fix: integer indices in the periodic drag-only
 resistance matrix

---
 .../functions/generate_grand_resistance_matrix.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index b7737d2..506899d 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -170,11 +170,11 @@ def generate_grand_resistance_matrix_periodic(
             num_elements_array, element_type, uv_start, uv_size,
             element_start_count) = posdata_data(posdata)
         Minfinity_inverse = mu * np.diag(
-            [sphere_sizes[i/3] for i in range(3*num_spheres)]
-            + [1/0.75 * sphere_sizes[i/3]**3 for i in range(3*num_spheres)]
-            + [1/0.9 * sphere_sizes[i/5]**3 for i in range(5*num_spheres)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)]
-            + [2 * dumbbell_sizes[i/3] for i in range(3*num_dumbbells)])
+            [sphere_sizes[i//3] for i in range(3*num_spheres)]
+            + [1/0.75 * sphere_sizes[i//3]**3 for i in range(3*num_spheres)]
+            + [1/0.9 * sphere_sizes[i//5]**3 for i in range(5*num_spheres)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)]
+            + [2 * dumbbell_sizes[i//3] for i in range(3*num_dumbbells)])
         Minfinity_elapsed_time = 0
         Minfinity_inverse_elapsed_time = 0
 
-- 
2.43.0


From 1a3069898ff3f01f49d337e7b1984f185775b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:01 +0000
Subject: [PATCH 02/26] fix: integer slice bounds in the dumbbell-only Stokes
 drag mode

---
 stokesian_dynamics/functions/timestepping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 613320a..50a5170 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -274,8 +274,8 @@ def generate_output_FTSUOE(
         (Fa_out, Ta_out, Sa_out, Fb_out, DFb_out) = (
             Fa_in[:], Ta_in[:], Sa_in[:], Fb_in[:], DFb_in[:])
         (Ua_out, Oa_out, Ea_out) = (Fa_in[:], Fa_in[:], Ea_in[:])
-        Ub_out = 0.5*(Ubeads[:Nbeads/2] + Ubeads[Nbeads/2:])
-        HalfDUb_out = 0.5*(Ubeads[:Nbeads/2] - Ubeads[Nbeads/2:])
+        Ub_out = 0.5*(Ubeads[:Nbeads//2] + Ubeads[Nbeads//2:])
+        HalfDUb_out = 0.5*(Ubeads[:Nbeads//2] - Ubeads[Nbeads//2:])
         gen_times = [0, 0, 0]
 
     else:
-- 
2.43.0


From 2c44c0fd78e7ed5dea65706e18cbe57bb85b8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:01 +0000
Subject: [PATCH 03/26] fix: return velocities and forces when extracting the
 wall force due to dumbbells

---
 stokesian_dynamics/functions/timestepping.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 50a5170..2e0464e 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -380,16 +380,16 @@ def generate_output_FTSUOE(
             else:
                 velocity_vector = np.linalg.solve(grand_resistance_matrix_ufte,
                                                   force_vector)
-                (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
-                    posdata, velocity_vector)
-                Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
-                Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
-                Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
-                Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
-                Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
-                (Ta_out, Ea_out, Fb_out, DFb_out) = (
-                    Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
+            (FUa_out, Oa_out, Sa_out, Ub_out, HalfDUb_out) = deconstruct_velocity_vector_for_fts(
+                posdata, velocity_vector)
+            Fa_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Ua_out = [['chen', 'chen', 'chen'] for _ in range(num_spheres)]
+            Fa_out[0:num_fixed_velocity_spheres] = FUa_out[0:num_fixed_velocity_spheres]
+            Fa_out[num_fixed_velocity_spheres:num_spheres] = Fa_in[num_fixed_velocity_spheres:num_spheres]
+            Ua_out[0:num_fixed_velocity_spheres] = Ua_in[0:num_fixed_velocity_spheres]
+            Ua_out[num_fixed_velocity_spheres:num_spheres] = FUa_out[num_fixed_velocity_spheres:num_spheres]
+            (Ta_out, Ea_out, Fb_out, DFb_out) = (
+                Ta_in[:], Ea_in[:], Fb_in[:], DFb_in[:])
 
             if extract_force_on_wall_due_to_dumbbells:
                 # For finding effect of the dumbbells on the measured Force on the walls.
@@ -401,7 +401,7 @@ def generate_output_FTSUOE(
                 force_on_wall_due_to_dumbbells_flat = np.dot(
                     force_on_wall_due_to_dumbbells_matrix, dumbbell_forces)
                 force_on_wall_due_to_dumbbells = force_on_wall_due_to_dumbbells_flat.reshape(
-                    len(force_on_wall_due_to_dumbbells_flat)/3, 3)
+                    len(force_on_wall_due_to_dumbbells_flat)//3, 3)
 
         elif input_form == 'ufteu':
             num_fixed_velocity_spheres = (num_spheres
-- 
2.43.0


From 69ac451c4bab6c3ee8ff5827b2e1c5a13390ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:43 +0000
Subject: [PATCH 04/26] fix: find close pairs of particles larger than unit
 radius in a periodic box

---
 stokesian_dynamics/functions/shared.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index ba09bbf..95f748f 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -458,7 +458,9 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
             basis_canonical)
         closer_than_cutoff_pairs = []
         displacements_pairs = np.empty([0, 3])
-        # This lists pairs that are closer than 4 units, regardless of size ratio.
+        # This lists pairs that could be closer than the cutoff, given the
+        # largest particle size.
+        search_radius = cutoff*np.max(bead_sizes)
         for i in range(len(unsheared_positions)):
             sphere_position = unsheared_positions[i]
             sheared_centred_box = np.dot(np.mod(np.dot(unsheared_positions-sphere_position,
@@ -467,10 +469,10 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
                                          sheared_basis_vectors)
             # Shear again
             # Take particles only within a cube of the correct radius:
-            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= cutoff)
+            particles_in_cube = np.where(np.max(np.abs(sheared_centred_box), axis=1) <= search_radius)
             # Take particles only within a sphere of the correct radius:
             particles_in_radius = np.where(
-                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= cutoff)
+                np.linalg.norm(sheared_centred_box[particles_in_cube], axis=1) <= search_radius)
             particles_in_radius_ids = particles_in_cube[0][particles_in_radius][
                 particles_in_cube[0][particles_in_radius] >= i]
             closer_than_cutoff_pairs += [(i, j) for j in particles_in_radius_ids]
-- 
2.43.0


From 3a878e1347e8a6efd17c0159f6bf4f4bccf3ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:17 +0000
Subject: [PATCH 05/26] fix: sphere and bead radii in the periodic sphere-bead
 mobility blocks

The rotation and strain of a sphere due to a force on a dumbbell bead used
the two radii the wrong way round, unlike the non-periodic version.
---
 .../functions/generate_Minfinity_periodic.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index d1ce422..34765b4 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -1087,12 +1087,12 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[M24_c[0]:M24_c[0]+3,
                       M24_c[1]:M24_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2,
+                          M12(j, i, mr, s, a2, a1,
                               X_lmn, num_X_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
@@ -1122,11 +1122,11 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
                           for j in range(3)] for i in range(3)])
             Minfinity[M25_c[0]:M25_c[0]+3,
                       M25_c[1]:M25_c[1]+3] = np.array([[
-                          M12(j, i, mr, s, a1, a2, X_lmn, num_X_points,
+                          M12(j, i, mr, s, a2, a1, X_lmn, num_X_points,
                               c, mu, m_s_lmn, m_erfcs_lmn)
                           for j in range(3)] for i in range(3)])
 
-            args = (mr, s, a1, a2, X_lmn, num_X_points, c, mu, m_s_lmn,
+            args = (mr, s, a2, a1, X_lmn, num_X_points, c, mu, m_s_lmn,
                     m_erfcs_lmn)
             for i in range(5):
                 for j in range(3):
-- 
2.43.0


From 8346c33ca20b538231175b1f31164bb0558f6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:17 +0000
Subject: [PATCH 06/26] fix: subtract the zero-separation wave term from the
 periodic rotation self-mobility

The wave-space sum includes the particle's own contribution, which is
removed for the translation and stresslet blocks.  For the torque block it
was taken as zero, but it is 40 lambda^3/(3 sqrt(pi)), and without it the
result depends on the splitting parameter lambda.
---
 .../functions/generate_Minfinity_periodic.py             | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_Minfinity_periodic.py b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
index 34765b4..c7965e9 100644
--- a/stokesian_dynamics/functions/generate_Minfinity_periodic.py
+++ b/stokesian_dynamics/functions/generate_Minfinity_periodic.py
@@ -640,7 +640,7 @@ def M13(i, j, k, r, s, a1, a2, X_lmn, num_X_points, c, mu, s_lmn, erfcs_lmn):
 
 
 @njit(cache=True)
-def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
+def M22(i, j, r, s, a1, a2, erfcs, L, lamb, X_lmn, Xdash_lmn, Sdash_lmn,
         erfcs_Sdash_lmn, K_lmn, Ks_lmn, RR_K, num_X_points, num_Xdash_points,
         num_K_points, c, mu, s_lmn, erfcs_lmn):
     """Element ij of Minfinity submatrix c. Same form as PhD thesis
@@ -673,8 +673,9 @@ def M22(i, j, r, s, a1, a2, erfcs, L, X_lmn, Xdash_lmn, Sdash_lmn,
         for q in range(num_K_points):
             sum_ck += cktilde(K_lmn[q], Ks_lmn[q], a1, a1, i, j, RR_K[q], c)
         sum_ck *= 1./L**3
-        # (5) = 0
-        return c_aa + sum_cr + sum_ck
+        # (5)
+        c_k0 = c*kronmatrix[i][j]*40*lamb**3/(3*spi)
+        return c_aa + sum_cr + sum_ck - c_k0
 
 
 @njit(cache=True)
@@ -993,7 +994,7 @@ def generate_Minfinity_loop(Minfinity, bead_positions, bead_sizes, num_spheres,
 
             Minfinity[C_c[0]:C_c[0]+3,
                       C_c[1]:C_c[1]+3] = np.array([[
-                          M22(i, j, r, s, a1, a2, erfcs, L,
+                          M22(i, j, r, s, a1, a2, erfcs, L, lamb,
                               X_lmn, Xdash_lmn, Sdash_lmn, erfcs_Sdash_lmn,
                               K_lmn, Ks_lmn, RR_K,
                               num_X_points, num_Xdash_points, num_K_points,
-- 
2.43.0


From 0fd3f8d2c6703c992dea39359755c15ef3036dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:55 +0000
Subject: [PATCH 07/26] fix: honour opposite_direction for side-on oscillatory
 shear

The option was only applied when the shear was viewed from above.
---
 stokesian_dynamics/setups/functions_inputs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_inputs.py b/stokesian_dynamics/setups/functions_inputs.py
index c93e8d1..f38935e 100644
--- a/stokesian_dynamics/setups/functions_inputs.py
+++ b/stokesian_dynamics/setups/functions_inputs.py
@@ -123,14 +123,14 @@ def oscillatory_shear(amplitude, period, frameno, timestep, phase=0,
     else:
         opposite_minus = 1
     if unused_axis == 1:
-        O_infinity = np.array([0, transpose_minus*0.5*gammadot, 0])
-        Ot_infinity = np.array([0, transpose_minus*0.5*gamma, 0])
-        E_infinity = [[0, 0, 0.5*gammadot],
+        O_infinity = np.array([0, opposite_minus*transpose_minus*0.5*gammadot, 0])
+        Ot_infinity = np.array([0, opposite_minus*transpose_minus*0.5*gamma, 0])
+        E_infinity = [[0, 0, opposite_minus*0.5*gammadot],
                       [0, 0, 0],
-                      [0.5*gammadot, 0, 0]]
-        Et_infinity = [[0, 0, 0.5*gamma],
+                      [opposite_minus*0.5*gammadot, 0, 0]]
+        Et_infinity = [[0, 0, opposite_minus*0.5*gamma],
                        [0, 0, 0],
-                       [0.5*gamma, 0, 0]]
+                       [opposite_minus*0.5*gamma, 0, 0]]
         Ea_in = [E_infinity for _ in range(max(1, num_spheres))]
     elif unused_axis == 2:
         O_infinity = np.array([0, 0, opposite_minus*transpose_minus*-0.5*gammadot])
-- 
2.43.0


From e80ce872bfb4dc6055b5863526bcacc9a6bdd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:41 +0000
Subject: [PATCH 08/26] fix: AB2 first-step test for dumbbells compared frame
 number with file name

---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 96a4ddb..5a629c6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
-                if timestepping_scheme == "euler" or frameno - checkpoint_filename == 0:
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From 9787d51b6b5107e792ec5a879aded7f01843499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:41 +0000
Subject: [PATCH 09/26] fix: use second-stage strain rate for dumbbells in the
 second RK4 stage

---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5a629c6..c61da26 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -413,7 +413,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k2, HalfDUb_out_plus_infinities_k2 = add_background_flow_dumbbells(
-                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k1, U_infinity_k2, O_infinity_k2,
+                    Ub_out_k2, HalfDUb_out_k2, Ea_out_k2, U_infinity_k2, O_infinity_k2,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
                 dumbbell_positions_k2 = euler_timestep(
                     dumbbell_positions, Ub_out_plus_infinities_k2, timestep/2)
-- 
2.43.0


From b72e9531803507cf338b1f455ee6666c595b44ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:10 +0000
Subject: [PATCH 10/26] fix: keep rotation vectors attached to spheres wrapped
 across a periodic box

---
 stokesian_dynamics/run_simulation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index c61da26..0f09192 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -258,22 +258,26 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_positions = euler_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, timestep)
+                else:
+                    new_sphere_positions = ab2_timestep(
+                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
+                if periodic:
+                    new_sphere_positions = wrap_around(
+                        new_sphere_positions, box_bottom_left, box_top_right,
+                        Ot_infinity_k1, Et_infinity_k1)
+                # Rotate about the wrapped positions, so the rotation vectors
+                # stay attached to their spheres
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, timestep)
                 else:
-                    new_sphere_positions = ab2_timestep(
-                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                     new_sphere_rotations = ab2_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
-                if periodic:
-                    new_sphere_positions = wrap_around(
-                        new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
-- 
2.43.0


From 1ed62b6927dc3fe82a862a8a0e32b0ebb94e0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:13 +0000
Subject: [PATCH 11/26] fix: resume a checkpoint from the frame its last
 positions belong to

---
 stokesian_dynamics/setups/positions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index bb6b78d..be2c2ad 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,7 +12,9 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
-from settings import setup_number, input_number, num_frames, timestep
+from settings import (setup_number, input_number, num_frames, timestep,
+                      start_saving_after_first_n_timesteps,
+                      save_positions_every_n_timesteps)
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
                                         randomise_dumbbells)
@@ -230,7 +232,10 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
             checkpoint_filename = filename
-            checkpoint_start_from_frame = positions_centres.shape[0]
+            # Redo the frame whose starting positions were saved last
+            checkpoint_start_from_frame = (
+                start_saving_after_first_n_timesteps
+                + (positions_centres.shape[0] - 1)*save_positions_every_n_timesteps)
 
             word_checkpoint = "\033[42m\033[01m CHECKPOINT FOUND \033[0m\033[49m "
             print(
-- 
2.43.0


From d3ba3dcc18b92522a36385b706a5696af6c919e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:13 +0000
Subject: [PATCH 12/26] fix: restore sphere rotations when resuming a
 checkpoint

---
 stokesian_dynamics/setups/positions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index be2c2ad..2e854f9 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -217,6 +217,7 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             with np.load(filename) as data1:
                 positions_centres = data1['centres']
                 positions_deltax = data1['deltax']
+                sphere_rotations = data1['sphere_rotations'][-1]
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
@@ -226,8 +227,6 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             dumbbell_deltax = positions_deltax[-1, :, :]
             sphere_sizes = ignored_posdata[0]
             dumbbell_sizes = ignored_posdata[3]
-            sphere_rotations = add_sphere_rotations_to_positions(
-                sphere_positions, sphere_sizes, np.array([[1,0,0],[0,0,1]]))
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
-- 
2.43.0


From 43a159578b3bc28e1a358a30b35d3ad8534d3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:37 +0000
Subject: [PATCH 13/26] fix: load the full subtracted scalar table unless the
 drag version is asked for

---
 stokesian_dynamics/resistance_scalars/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/resistance_scalars/data.py b/stokesian_dynamics/resistance_scalars/data.py
index 74fada9..c65a037 100755
--- a/stokesian_dynamics/resistance_scalars/data.py
+++ b/stokesian_dynamics/resistance_scalars/data.py
@@ -23,7 +23,7 @@ lam_range_with_reciprocals.sort()
 
 # The resistance scalars already have R2Binfinity subtracted off. Decide here
 # whether this is with the full R2Binfinity or the drag-only R2Binfinity.
-if not use_drag_Minfinity or (use_drag_Minfinity and use_drag_R2Binfinity):
+if not (use_drag_Minfinity and use_drag_R2Binfinity):
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d.npy'
 else:
     filename = f'{resistance_scalars_folder}/scalars_general_resistance_d_drag.npy'
-- 
2.43.0


From 89d7f660ae359a0e169e4c7dc166bfca2ef6d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:24 +0000
Subject: [PATCH 14/26] fix: allow a single sphere to be placed at random

---
 stokesian_dynamics/setups/functions_positions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0269ebc..645840e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -62,12 +62,13 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
 
     random_sphere_positions = sphere_positions_out[
         current_sphere_positions.shape[0]:all_sphere_sizes.shape[0]]
-    distance_matrix = np.linalg.norm(
-        random_sphere_positions-random_sphere_positions[:, None], axis=2)
-    min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
-    two_closest_elements = np.where(distance_matrix == min_element_distance)
-    print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
-    print("Closest two spheres: " + str(two_closest_elements[0]))
+    if len(random_sphere_sizes) > 1:
+        distance_matrix = np.linalg.norm(
+            random_sphere_positions-random_sphere_positions[:, None], axis=2)
+        min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
+        two_closest_elements = np.where(distance_matrix == min_element_distance)
+        print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
+        print("Closest two spheres: " + str(two_closest_elements[0]))
 
     box_dimensions = abs(np.asarray(random_box_top_right)
                          - np.asarray(random_box_bottom_left))
-- 
2.43.0


From 36e727f1766ba9d4e06d7e4eaf5d0b036ddf61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:24 +0000
Subject: [PATCH 15/26] fix: remove leftover debugger call from periodic
 dumbbell placement

---
 stokesian_dynamics/setups/functions_positions.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 645840e..e77d7f5 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -265,19 +265,6 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                 if bingo == 1:
                     break
 
-        q = 1000
-        qq = 1000
-        for m in [-1, 0, 1]:
-            for n in [-1, 0, 1]:
-                dxy = np.array([m*Dx, 0, n*Dz])
-                for p in bead_positions[:i]:
-                    q = min(q, np.linalg.norm(proposed_bead2_position - (p+dxy)))
-                    qq = min(qq, np.linalg.norm(proposed_bead1_position - (p+dxy)))
-        if min(q, qq) < 0.2:
-            print(min(q, qq))
-            from IPython import embed
-            embed()
-
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-- 
2.43.0


From ad7d93ba7469ba30d326b6685334216dcd97d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:24 +0000
Subject: [PATCH 16/26] fix: pair up beads placed inside a quadrilateral

---
 stokesian_dynamics/setups/functions_positions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index e77d7f5..b49e6ca 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -359,9 +359,9 @@ def randomise_beads_inside_quadrilateral(quadrilateral, dumbbell_sizes,
         sys.stdout.flush()
         bead_positions[i] = proposed_bead1_position
 
-    pos3 = bead_positions.reshape([2, bead_positions.shape[0]/2, 3])
-    pos3_dumbbell = 0.5*(pos3[0] + pos3[1])
-    pos3_deltax = 0.5*(pos3[1] - pos3[0])
+    pos3 = bead_positions.reshape([num_dumbbells, 2, 3])
+    pos3_dumbbell = 0.5*(pos3[:, 0] + pos3[:, 1])
+    pos3_deltax = pos3[:, 1] - pos3[:, 0]
 
     print("... succeeded.")
 
-- 
2.43.0


From 2e063acc0faf28b75165e47ed7f4d5a0129382fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:56 +0000
Subject: [PATCH 17/26] fix: keep the command-line choice of extracting the
 wall force

The sixth command-line argument was overwritten by the default further down.
---
 stokesian_dynamics/settings.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stokesian_dynamics/settings.py b/stokesian_dynamics/settings.py
index 9f8c847..83ca4bd 100755
--- a/stokesian_dynamics/settings.py
+++ b/stokesian_dynamics/settings.py
@@ -35,6 +35,11 @@ num_frames = 100
 # How to solve the equation U=MF. {'fts','fte','ufte','ufteu','duf'}
 input_form = 'fte'
 
+# Work out the force on any particles whose velocities are specified in the
+# input file. (Typical use case: these 'fixed' particles are acting as walls.)
+# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
+extract_force_on_wall_due_to_dumbbells = False
+
 # ----------------------------------------------------------------------------|
 # BASIC SETTINGS: OVERRIDES FROM COMMAND LINE
 
@@ -121,11 +126,6 @@ if start_saving_after_first_n_timesteps > num_frames:
     print("WARNING: start_saving_after_first_n_timesteps > num_frames. "
           + "Saving will fail.")
 
-# Work out the force on any particles whose velocities are specified in the
-# input file. (Typical use case: these 'fixed' particles are acting as walls.)
-# This is saved to `force_on_wall_due_to_dumbbells` in the output NPZ file.
-extract_force_on_wall_due_to_dumbbells = False
-
 # Just use diagonal terms of Minfinity. Good(?) approximation for dense
 # suspensions only.
 use_drag_Minfinity = False
-- 
2.43.0


From 0c9c62f7f32390d52a742b7953aa2b598e0e263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:28 +0000
Subject: [PATCH 18/26] fix: name the right particles when a size ratio is
 unavailable

The message took two row numbers of the table of ratios instead of the row and
the column of its first missing entry.
---
 stokesian_dynamics/functions/timestepping.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 2e0464e..dfe22af 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -163,15 +163,11 @@ def do_we_have_all_size_ratios(error, element_sizes, lam_range, num_spheres):
         [len(element_sizes), len(element_sizes)])
     offending_elements = np.where(do_we_have_it_matrix == 0)
     if len(offending_elements[0]) > 0:
-        offending_lambda_1 = lambda_matrix[offending_elements[0][0],
-                                           offending_elements[0][1]]
-        offending_element_str = np.empty(2, dtype='|S25')
-        for i in (0, 1):
-            offending_element_str[i] = (
-                f"dumbbell {str(offending_elements[0][i] - num_spheres)}"
-                if offending_elements[0][i] >= num_spheres
-                else f"sphere {str(offending_elements[0][i])}"
-            )
+        offending_pair = (offending_elements[0][0], offending_elements[1][0])
+        offending_lambda_1 = lambda_matrix[offending_pair]
+        offending_element_str = [
+            f"dumbbell {str(i - num_spheres)}" if i >= num_spheres
+            else f"sphere {str(i)}" for i in offending_pair]
         print("ERROR")
         print(f"Element size ratio ({str(offending_lambda_1)} or "
               + f"{str(1 / offending_lambda_1)}) is not in our calculated "
-- 
2.43.0


From ecf2ce0860eac250903d507c77b824808fe5066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:30 +0000
Subject: [PATCH 19/26] fix: allow for rounding when looking up a size ratio

Sizes 0.01 and 0.1 were reported as an unavailable ratio, because 0.01/0.1 is
not exactly 0.1 in floating point.
---
 stokesian_dynamics/functions/timestepping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index dfe22af..a453afe 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -158,9 +158,8 @@ def do_we_have_all_size_ratios(error, element_sizes, lam_range, num_spheres):
 
     lambda_matrix = element_sizes / element_sizes[:, None]
     lam_range_including_reciprocals = np.concatenate([lam_range, 1 / lam_range])
-    do_we_have_it_matrix = np.in1d(
-        lambda_matrix, lam_range_including_reciprocals).reshape(
-        [len(element_sizes), len(element_sizes)])
+    do_we_have_it_matrix = np.isclose(
+        lambda_matrix[:, :, None], lam_range_including_reciprocals).any(axis=2)
     offending_elements = np.where(do_we_have_it_matrix == 0)
     if len(offending_elements[0]) > 0:
         offending_pair = (offending_elements[0][0], offending_elements[1][0])
-- 
2.43.0


From 45332bcb8bad6305bf113f79f10457be7f8584e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:30 +0000
Subject: [PATCH 20/26] fix: name an unrecognised timestepping scheme instead
 of failing on the banner

The start-up banner raised a NameError before the intended message was reached.
---
 stokesian_dynamics/run_simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 0f09192..064e51e 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -820,6 +820,8 @@ if error == 0:
         timestep_method = "AB2"
     elif timestepping_scheme == "rk4":
         timestep_method = "RK4"
+    else:
+        throw_error("Timestepping scheme not recognised. Choose 'euler', 'ab2' or 'rk4'.")
 
     matrix_size = sizeof_fmt(48 * (11 * num_spheres + 6 * num_dumbbells)**2)
 
-- 
2.43.0


From ee45d1da785109db69d26f98ca36efaa939895fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:35 +0000
Subject: [PATCH 21/26] fix: let combine_scalars write its readable table

The list of distances was a plain list, which has no shape, so the script
stopped before writing the text file.
---
 find_resistance_scalars/combine_scalars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index 3dea844..e0c1840 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -27,8 +27,8 @@ values_of_s_dash_nearfield = np.loadtxt('values_of_s_dash_nearfield.txt',
                                         ndmin=1)
 values_of_s_dash_midfield = np.loadtxt('values_of_s_dash_midfield.txt',
                                        ndmin=1)
-values_of_s_dash = sorted(np.concatenate((values_of_s_dash_nearfield,
-                                          values_of_s_dash_midfield)))
+values_of_s_dash = np.sort(np.concatenate((values_of_s_dash_nearfield,
+                                           values_of_s_dash_midfield)))
 np.savetxt('values_of_s_dash.txt', values_of_s_dash, fmt="% .8e")
 s_dash_range = values_of_s_dash
 s_dash_length = len(s_dash_range)
-- 
2.43.0


From 4b6f2926b66a788c8a1160b3707f8b614d1837bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:35 +0000
Subject: [PATCH 22/26] fix: save the subtracted scalars next to the other
 tables

The script reads from the current folder but wrote to a subfolder that only
exists when it is started from somewhere else.
---
 find_resistance_scalars/subtract_R2Binfinity_from_scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 3e69284..96bc435 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -103,7 +103,7 @@ for lam_index, lam in enumerate(lam_range_with_reciprocals):
         XYZd_raw[10, 1, s_dash_index, lam_index] = XYZ_raw[10, 1, s_dash_index, lam_index] - ZM1
 
 # computer readable
-with open('find_resistance_scalars/scalars_general_resistance_d.npy', 'wb+') as outputfile:
+with open('scalars_general_resistance_d.npy', 'wb') as outputfile:
     np.save(outputfile, XYZd_raw)
 
 # human readable
-- 
2.43.0


From 958378d7d51cbd4258655f8c6267aa57da7ed2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:35 +0000
Subject: [PATCH 23/26] fix: keep the combined scalars in the order of their
 distances

The distances are sorted, but the scalars were left as near field followed by
mid field, so the two only matched when the two lists do not interleave.
---
 find_resistance_scalars/combine_scalars.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index e0c1840..8a02871 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -27,8 +27,10 @@ values_of_s_dash_nearfield = np.loadtxt('values_of_s_dash_nearfield.txt',
                                         ndmin=1)
 values_of_s_dash_midfield = np.loadtxt('values_of_s_dash_midfield.txt',
                                        ndmin=1)
-values_of_s_dash = np.sort(np.concatenate((values_of_s_dash_nearfield,
-                                           values_of_s_dash_midfield)))
+values_of_s_dash = np.concatenate((values_of_s_dash_nearfield,
+                                   values_of_s_dash_midfield))
+s_dash_order = np.argsort(values_of_s_dash)
+values_of_s_dash = values_of_s_dash[s_dash_order]
 np.savetxt('values_of_s_dash.txt', values_of_s_dash, fmt="% .8e")
 s_dash_range = values_of_s_dash
 s_dash_length = len(s_dash_range)
@@ -47,6 +49,7 @@ print(XYZ_near_raw.shape)
 
 
 XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw), axis=2)
+XYZ_general_table = XYZ_general_table[:, :, s_dash_order]
 general_scalars_length = len(general_resistance_scalars_names)
 
 with open('scalars_general_resistance.npy', 'wb') as outputfile:
-- 
2.43.0


From 8ff2ac9d27c141fd2a75f4368e52f04c328a2b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:03 +0000
Subject: [PATCH 24/26] fix: compute the inputs in full for every input form
 that reads them once

---
 stokesian_dynamics/functions/timestepping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index a453afe..5ce4587 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -246,15 +246,16 @@ def generate_output_FTSUOE(
      element_sizes, element_positions, element_deltax, num_elements,
      num_elements_array, element_type, uv_start, uv_size,
      element_start_count) = posdata_data(posdata)
-    # Get inputs first time in "skip_computation" mode, i.e. no complex
-    # calculations for Fa_in, etc. This is really just to get the values of
-    # box_bottom_left and box_top_right.
+    # Get inputs. FTE form gets them a second time below, so for FTE form this
+    # is done in "skip_computation" mode, i.e. no complex calculations for
+    # Fa_in, etc. There it is really just to get the values of box_bottom_left
+    # and box_top_right.
     (Fa_in, Ta_in, Sa_in, Sa_c_in, Fb_in, DFb_in,
      Ua_in, Oa_in, Ea_in, Ea_c_in, Ub_in, HalfDUb_in, input_description,
      U_infinity, O_infinity, centre_of_background_flow, Ot_infinity,
      Et_infinity, box_bottom_left, box_top_right, mu) = input_ftsuoe(
         input_number, posdata, frameno, timestep, last_velocities,
-        input_form=input_form, skip_computation=True)
+        input_form=input_form, skip_computation=(input_form == 'fte'))
 
     force_on_wall_due_to_dumbbells = 0
 
-- 
2.43.0


From 1fad2042033e7f1116114e6de7d5d771c4a34dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:48:17 +0000
Subject: [PATCH 25/26] fix: draw all force arrows to one scale

The factor that makes force arrows visible was applied inside the loop over
spheres, so each arrow drawn was six times longer than the one before it.
Apply it once before the loop.
---
 stokesian_dynamics/functions/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 6a9cb06..fd3dc57 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -257,11 +257,11 @@ def plot_all_force_lines(ax, posdata, f_spheres):
     (sphere_sizes, sphere_positions, sphere_rotations, dumbbell_sizes,
      dumbbell_positions, dumbbell_deltax) = posdata
     force_lines = force_text = []
+    f_spheres = f_spheres*6  # so we can see it
     for i in range(sphere_sizes.size):
         # Make invisible if hidden
         if ((f_spheres[i, :] != np.array([0, 0, 0])).any()
                 and (sphere_positions[i, 1] < 0.05 and sphere_positions[i, 1] > -1)):
-            f_spheres = f_spheres*6  # so we can see it
             line = Arrow3D([sphere_positions[i, 0],
                             sphere_positions[i, 0]+f_spheres[i, 0]],
                            [sphere_positions[i, 1],
-- 
2.43.0


From 80f4d3b8e0ed72b7338a6d53ef87edce96ebbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:48:17 +0000
Subject: [PATCH 26/26] fix: plot dumbbells in plot_positions and make_video

Both scripts passed a frame number that plot_all_dumbbells does not take, so
plotting a saved file with dumbbells raised TypeError.
---
 stokesian_dynamics/plotting/make_video.py     | 2 +-
 stokesian_dynamics/plotting/plot_positions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 1c962a9..47417d4 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -276,7 +276,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             sphere_trace_lines, FaX)
     if num_dumbbells > 0:
         (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-            ax, real_frameno, posdata, trace_paths,
+            ax, posdata, trace_paths,
             dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
 
     if view_labels:
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index e3ff14a..dc22526 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -102,7 +102,7 @@ if num_spheres > 0:
         sphere_trace_lines, Fa_out[frameno])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-        ax, frameno, posdata, trace_paths, dumbbell_trace_lines,
+        ax, posdata, trace_paths, dumbbell_trace_lines,
         Fb_out[frameno], DFb_out[frameno])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
-- 
2.43.0

