From be27583ec54c912252fe9522e02f6df97d908864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 01/13] fix: average symmetrized ph-ph interaction strength
 over all bands

With symmetrize_fc3q, elements of the interaction strength after exchanging
q-points of a triplet are referred to at arbitrary combinations of bands, but
only those selected by band_indices and g_zero had been computed, i.e.,
uninitialized memory was read when either of them was a strict subset.
---
 c/interaction.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/c/interaction.c b/c/interaction.c
index ca1ea7c..6edb568 100644
--- a/c/interaction.c
+++ b/c/interaction.c
@@ -234,11 +234,27 @@ static void real_to_normal_sym_q(
     const int64_t openmp_per_triplets) {
     int64_t i, j, k, l;
     int64_t band_ex[3];
+    int64_t *all_bands;
+    int64_t(*g_pos_all)[4];
     double q_vecs_ex[3][3];
     double *fc3_normal_squared_ex;
 
+    /* After exchanging q-points, elements at all combinations of bands are */
+    /* referred to, i.e., not only those of band_indices and g_pos. */
     fc3_normal_squared_ex =
         (double *)malloc(sizeof(double) * num_band * num_band * num_band);
+    all_bands = (int64_t *)malloc(sizeof(int64_t) * num_band);
+    g_pos_all = (int64_t(*)[4])malloc(sizeof(int64_t[4]) * num_band * num_band *
+                                      num_band);
+    for (i = 0; i < num_band; i++) {
+        all_bands[i] = i;
+    }
+    for (i = 0; i < num_band * num_band * num_band; i++) {
+        g_pos_all[i][0] = i / (num_band * num_band);
+        g_pos_all[i][1] = (i / num_band) % num_band;
+        g_pos_all[i][2] = i % num_band;
+        g_pos_all[i][3] = i;
+    }
 
     for (i = 0; i < num_band0 * num_band * num_band; i++) {
         fc3_normal_squared[i] = 0;
@@ -251,12 +267,12 @@ static void real_to_normal_sym_q(
             }
         }
         real_to_normal(
-            fc3_normal_squared_ex, g_pos, num_g_pos,
+            fc3_normal_squared_ex, g_pos_all, num_band * num_band * num_band,
             freqs[index_exchange[i][0]], freqs[index_exchange[i][1]],
             freqs[index_exchange[i][2]], eigvecs[index_exchange[i][0]],
             eigvecs[index_exchange[i][1]], eigvecs[index_exchange[i][2]], fc3,
             is_compact_fc3, q_vecs_ex, /* q0, q1, q2 */
-            atom_triplets, masses, band_indices, num_band, cutoff_frequency,
+            atom_triplets, masses, all_bands, num_band, cutoff_frequency,
             triplet_index, num_triplets, openmp_per_triplets);
         for (j = 0; j < num_band0; j++) {
             for (k = 0; k < num_band; k++) {
@@ -278,4 +294,9 @@ static void real_to_normal_sym_q(
     }
 
     free(fc3_normal_squared_ex);
+    fc3_normal_squared_ex = NULL;
+    free(all_bands);
+    all_bands = NULL;
+    free(g_pos_all);
+    g_pos_all = NULL;
 }
-- 
2.43.0


From 9b77f5aebcf3db28b2a1f3c56ec1660f3784bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 02/13] fix: positive mesh numbers from diagonal grid matrix
 with negative elements

With generalized regular grid, a diagonal grid matrix can have negative
elements (e.g. triclinic cell whose transformation matrix to the
standardized cell has -1). Those were used as mesh numbers as they were,
resulting in access to unallocated memory in the grid functions.
---
 phono3py/phonon/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 6f44d72..8f4f165 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -791,7 +791,8 @@ class GridMatrix:
         # If grid_matrix is a diagonal matrix, use it as D matrix.
         gm_diag = np.diagonal(_grid_matrix)
         if (np.diag(gm_diag) == _grid_matrix).all() and not force_SNF:
-            self._D_diag = np.array(gm_diag, dtype="int64")
+            # Signs of the diagonal elements don't change the grid.
+            self._D_diag = np.array(np.abs(gm_diag), dtype="int64")
         else:
             import phono3py._recgrid as recgrid
 
-- 
2.43.0


From 0ae02b539c4681c9569cd5d3e797841c7cf98b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 03/13] fix: pass reciprocal lattice to BZ triplets search

ph3py_get_BZ_triplets_at_q left reclat of the bzgrid struct uninitialized,
so that the choice of the smallest |G| among the points on the BZ surface
and its tolerance depended on what was in the allocated memory.
---
 c/_phono3py.cpp              | 6 +++++-
 c/phono3py.c                 | 3 ++-
 c/phono3py.h                 | 3 ++-
 phono3py/phonon/grid.py      | 9 +++++++++
 phono3py/phonon3/triplets.py | 1 +
 5 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/c/_phono3py.cpp b/c/_phono3py.cpp
index a5f9735..76e7ffd 100644
--- a/c/_phono3py.cpp
+++ b/c/_phono3py.cpp
@@ -800,6 +800,7 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
                                     nb::ndarray<> py_bz_map,
                                     nb::ndarray<> py_map_triplets,
                                     nb::ndarray<> py_D_diag, nb::ndarray<> py_Q,
+                                    nb::ndarray<> py_reciprocal_lattice,
                                     int64_t bz_grid_type) {
     int64_t(*triplets)[3];
     int64_t(*bz_grid_address)[3];
@@ -808,6 +809,7 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     int64_t num_map_triplets;
     int64_t *D_diag;
     int64_t(*Q)[3];
+    double(*reciprocal_lattice)[3];
     int64_t num_ir;
 
     triplets = (int64_t(*)[3])py_triplets.data();
@@ -817,10 +819,12 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     num_map_triplets = (int64_t)py_map_triplets.shape(0);
     D_diag = (int64_t *)py_D_diag.data();
     Q = (int64_t(*)[3])py_Q.data();
+    reciprocal_lattice = (double(*)[3])py_reciprocal_lattice.data();
 
     num_ir = ph3py_get_BZ_triplets_at_q(triplets, grid_point, bz_grid_address,
                                         bz_map, map_triplets, num_map_triplets,
-                                        D_diag, Q, bz_grid_type);
+                                        D_diag, Q, reciprocal_lattice,
+                                        bz_grid_type);
 
     return num_ir;
 }
diff --git a/c/phono3py.c b/c/phono3py.c
index 25d6e1f..887cedd 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -405,7 +405,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
     const int64_t D_diag[3], const int64_t Q[3][3],
-    const int64_t bz_grid_type) {
+    const double reciprocal_lattice[3][3], const int64_t bz_grid_type) {
     RecgridConstBZGrid *bzgrid;
     int64_t i, j, num_ir;
 
@@ -423,6 +423,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            bzgrid->reclat[i][j] = reciprocal_lattice[i][j];
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.h b/c/phono3py.h
index 15f2d51..774be24 100644
--- a/c/phono3py.h
+++ b/c/phono3py.h
@@ -170,7 +170,8 @@ int64_t ph3py_get_BZ_triplets_at_q(
     int64_t (*triplets)[3], const int64_t grid_point,
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
-    const int64_t D_diag[3], const int64_t Q[3][3], const int64_t bz_grid_type);
+    const int64_t D_diag[3], const int64_t Q[3][3],
+    const double reciprocal_lattice[3][3], const int64_t bz_grid_type);
 int64_t ph3py_get_integration_weight(
     double *iw, char *iw_zero, const double *frequency_points,
     const int64_t num_band0, const int64_t relative_grid_address[24][4][3],
diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 8f4f165..5200be3 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -354,6 +354,15 @@ class BZGrid:
         """
         return self._microzone_lattice
 
+    @property
+    def reciprocal_lattice(self):
+        """Return reciprocal basis vectors in column vectors.
+
+        shape=(3, 3), dtype='double', order='C'.
+
+        """
+        return self._reciprocal_lattice
+
     @property
     def store_dense_gp_map(self):
         """Return gp_map type.
diff --git a/phono3py/phonon3/triplets.py b/phono3py/phonon3/triplets.py
index b1c3621..f14d657 100644
--- a/phono3py/phonon3/triplets.py
+++ b/phono3py/phonon3/triplets.py
@@ -335,6 +335,7 @@ def _get_BZ_triplets_at_q(bz_grid_index, bz_grid: BZGrid, map_triplets):
         map_triplets,
         np.array(bz_grid.D_diag, dtype="int64"),
         bz_grid.Q,
+        bz_grid.reciprocal_lattice,
         bz_grid.store_dense_gp_map * 1 + 1,
     )
 
-- 
2.43.0


From f5fb616050651a691b42ba1da72a10848322cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 04/13] fix: BZ triplets for surface grid points in the
 non-dense gp map

---
 c/triplet_grid.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/c/triplet_grid.c b/c/triplet_grid.c
index c562e8d..69c755e 100644
--- a/c/triplet_grid.c
+++ b/c/triplet_grid.c
@@ -258,7 +258,7 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
                                        const RecgridConstBZGrid *bzgrid,
                                        const int64_t *ir_q1_gps,
                                        const int64_t num_ir) {
-    int64_t i, j, gp2, num_gp, num_bzgp, bz0, bz1, bz2;
+    int64_t i, j, gp0, gp2, num_gp, num_bzgp, bz0, bz1, bz2;
     int64_t bzgp[3], G[3];
     int64_t bz_adrs0[3], bz_adrs1[3], bz_adrs2[3];
     const int64_t *gp_map;
@@ -275,6 +275,7 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
     for (i = 0; i < 3; i++) {
         bz_adrs0[i] = bz_adrs[grid_point][i];
     }
+    gp0 = recgrid_get_grid_index_from_address(bz_adrs0, bzgrid->D_diag);
     num_gp = bzgrid->D_diag[0] * bzgrid->D_diag[1] * bzgrid->D_diag[2];
     num_bzgp = num_gp * 8;
 
@@ -290,13 +291,13 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
         gp2 = recgrid_get_grid_index_from_address(bz_adrs2, bzgrid->D_diag);
         /* Negative value is the signal to initialize min_d2 later. */
         min_d2 = -1;
-        for (bz0 = 0; bz0 < gp_map[num_bzgp + grid_point + 1] -
-                                gp_map[num_bzgp + grid_point] + 1;
+        for (bz0 = 0;
+             bz0 < gp_map[num_bzgp + gp0 + 1] - gp_map[num_bzgp + gp0] + 1;
              bz0++) {
             if (bz0 == 0) {
-                bzgp[0] = grid_point;
+                bzgp[0] = gp0;
             } else {
-                bzgp[0] = num_gp + gp_map[num_bzgp + grid_point] + bz0 - 1;
+                bzgp[0] = num_gp + gp_map[num_bzgp + gp0] + bz0 - 1;
             }
             for (bz1 = 0; bz1 < gp_map[num_bzgp + ir_q1_gps[i] + 1] -
                                     gp_map[num_bzgp + ir_q1_gps[i]] + 1;
-- 
2.43.0


From 68d8c627ed4a2d5344225e706f1581af693218a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 05/13] fix: apply NAC q-direction only at Gamma point in
 Wang's NAC

The charge sum of Wang's NAC was computed along nac_q_direction at all grid
points although nac_q_direction is documented to be effective only at q=0.
---
 c/phonon.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/c/phonon.c b/c/phonon.c
index e0f707d..18e3b2d 100644
--- a/c/phonon.c
+++ b/c/phonon.c
@@ -94,6 +94,7 @@ static void get_charge_sum(double (*charge_sum)[3][3], const int64_t num_patom,
                            const double dielectric[3][3],
                            const double reciprocal_lattice[3][3],
                            const double *q_direction, const double nac_factor);
+static int64_t is_gamma(const int64_t (*grid_address)[3], const int64_t gp);
 static int64_t needs_nac(const double (*born)[3][3],
                          const int64_t (*grid_address)[3], const int64_t gp,
                          const double *q_direction);
@@ -207,10 +208,12 @@ static void get_undone_phonons(
         }
 
         is_nac = needs_nac(born, grid_address, gp, q_direction);
-        get_dynamical_matrix(eigenvectors + num_band * num_band * gp, q, fc2,
-                             masses_fc2, p2s_fc2, s2p_fc2, multi_fc2, num_patom,
-                             num_satom, svecs_fc2, is_nac, born, dielectric,
-                             reciprocal_lattice, q_direction, nac_factor);
+        /* q_direction is effective only at Gamma point. */
+        get_dynamical_matrix(
+            eigenvectors + num_band * num_band * gp, q, fc2, masses_fc2,
+            p2s_fc2, s2p_fc2, multi_fc2, num_patom, num_satom, svecs_fc2,
+            is_nac, born, dielectric, reciprocal_lattice,
+            is_gamma(grid_address, gp) ? q_direction : NULL, nac_factor);
     }
 
 #ifndef NO_INCLUDE_LAPACKE
@@ -442,14 +445,18 @@ static void get_charge_sum(double (*charge_sum)[3][3], const int64_t num_patom,
     dym_get_charge_sum(charge_sum, num_patom, dielectric_factor, q_cart, born);
 }
 
+static int64_t is_gamma(const int64_t (*grid_address)[3], const int64_t gp) {
+    return grid_address[gp][0] == 0 && grid_address[gp][1] == 0 &&
+           grid_address[gp][2] == 0;
+}
+
 static int64_t needs_nac(const double (*born)[3][3],
                          const int64_t (*grid_address)[3], const int64_t gp,
                          const double *q_direction) {
     int64_t is_nac;
 
     if (born) {
-        if (grid_address[gp][0] == 0 && grid_address[gp][1] == 0 &&
-            grid_address[gp][2] == 0 && q_direction == NULL) {
+        if (is_gamma(grid_address, gp) && q_direction == NULL) {
             is_nac = 0;
         } else {
             is_nac = 1;
-- 
2.43.0


From e43b0af79596812fd2ac9d76705850b5b97c8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 06/13] fix: store detailed imag-self-energy of each sigma at
 bands

Detailed gammas calculated with frequency_points_at_bands=True were stored at
index of temperature instead of indices of sigma and temperature.
---
 phono3py/phonon3/imag_self_energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 5df9a1c..d0274f5 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -897,7 +897,7 @@ def _get_imag_self_energy_at_sigma(
             ise.run()
             gamma[j, k, i] = ise.imag_self_energy
             if write_gamma_detail or return_gamma_detail:
-                detailed_gamma_at_gp[k] = ise.detailed_imag_self_energy
+                detailed_gamma_at_gp_at_j[k] = ise.detailed_imag_self_energy
     else:
         run_ise_at_frequency_points_batch(
             i,
-- 
2.43.0


From cae50baf600566b7913e1375331b8a5b2921a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 07/13] fix: use the given smearing width in GammaDOSsmearing

---
 phono3py/other/kaccum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index d3c43a3..390be8a 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -230,7 +230,7 @@ class GammaDOSsmearing:
                 max(self._frequency_points) - min(self._frequency_points)
             ) / 100
         else:
-            self._sigma = 0.1
+            self._sigma = sigma
         self._smearing_function = NormalDistribution(self._sigma)
         self._run_smearing_method()
 
-- 
2.43.0


From 074debf46a26d70eedeaf3e3e5349802194242e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 08/13] fix: recalculate phonons at Gamma for the q-direction
 without mesh symmetry

---
 phono3py/phonon3/interaction.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 700c4e3..97972b5 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -618,21 +618,21 @@ class Interaction:
                     ir_map_at_q,
                 ) = get_triplets_at_q(grid_point, self._bz_grid)
 
-            # Re-calculate phonon at Gamma-point when q-direction is given.
-            if (self._bz_grid.addresses[grid_point] == 0).all():
-                self.run_phonon_solver_at_gamma(is_nac=True)
-            elif self._done_nac_at_gamma:
-                if self._nac_q_direction is None:
-                    self.run_phonon_solver_at_gamma()
-                else:
-                    msg = (
-                        "Phonons at Gamma has been calculated with NAC, "
-                        "but ph-ph interaction is expected to calculate at "
-                        "non-Gamma point. Setting Interaction.nac_q_direction = "
-                        "None, can avoid raising this exception to re-run phonon "
-                        "calculation at Gamma without NAC."
-                    )
-                    raise RuntimeError(msg)
+        # Re-calculate phonon at Gamma-point when q-direction is given.
+        if (self._bz_grid.addresses[grid_point] == 0).all():
+            self.run_phonon_solver_at_gamma(is_nac=True)
+        elif self._done_nac_at_gamma:
+            if self._nac_q_direction is None:
+                self.run_phonon_solver_at_gamma()
+            else:
+                msg = (
+                    "Phonons at Gamma has been calculated with NAC, "
+                    "but ph-ph interaction is expected to calculate at "
+                    "non-Gamma point. Setting Interaction.nac_q_direction = "
+                    "None, can avoid raising this exception to re-run phonon "
+                    "calculation at Gamma without NAC."
+                )
+                raise RuntimeError(msg)
 
         reciprocal_lattice = np.linalg.inv(self._primitive.cell)
         for triplet in triplets_at_q:
-- 
2.43.0


From 9188e0453fe4c8519fde547e76b0c901da2bb9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 09/13] fix: Kubo conductivity skips only modes below the
 cutoff

---
 phono3py/conductivity/rta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 1771f5e..b1c2ab3 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -929,7 +929,7 @@ class ConductivityKuboRTA(ConductivityKuboMixIn, ConductivityRTABase):
         cvm = self._cv_mat[k, i_gp]
         for j_band, freq in enumerate(frequencies):
             if freq < self._pp.cutoff_frequency:
-                return
+                continue
 
             g = g_sum[i_band] + g_sum[j_band]
             for i_pair, _ in enumerate(
-- 
2.43.0


From 8fa127ff36c29c7fa9fafcd88a7648b2ba2ca97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 10/13] fix: displacements getter includes both displacements
 of a pair

---
 phono3py/api_phono3py.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 52eed4f..875a33e 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -869,7 +869,8 @@ class Phono3py:
                 i += 1
             for disp1 in dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    displacements[i, disp2["number"]] = disp2["displacement"]
+                    displacements[i, disp1["number"]] = disp1["displacement"]
+                    displacements[i, disp2["number"]] += disp2["displacement"]
                     i += 1
         elif "displacements" in dataset:
             displacements = dataset["displacements"]
-- 
2.43.0


From 79b19d639a3f658736bd68ccf4c2ce27c6a753d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 11/13] fix: write_FORCES_FC3 writes type-2 datasets into the
 given file

---
 phono3py/file_IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 62d43c4..3286352 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -245,13 +245,13 @@ def write_FORCES_FC3(
             _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
     else:
         if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC3")
+            write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc3 is None:
                 raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc3
-            write_FORCE_SETS(dataset, filename="FORCES_FC3")
+            write_FORCE_SETS(dataset, filename=filename)
 
 
 def _write_FORCES_FC3_typeI(
-- 
2.43.0


From f94e406cbf4ad023f44cf13b40e1c0b0a0f3ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 12/13] fix: keep excluded pairs when a dataset with forces is
 saved

---
 phono3py/interface/phono3py_yaml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/interface/phono3py_yaml.py b/phono3py/interface/phono3py_yaml.py
index 2037985..cb821bc 100644
--- a/phono3py/interface/phono3py_yaml.py
+++ b/phono3py/interface/phono3py_yaml.py
@@ -247,6 +247,8 @@ class Phono3pyYamlLoader(PhonopyYamlLoaderBase):
             second_atom_dict["id"] = d2_id
         if "pair_distance" in d2:
             second_atom_dict["pair_distance"] = d2["pair_distance"]
+        if "included" in d2:
+            second_atom_dict["included"] = d2["included"]
         if "supercell_energy" in d2:
             second_atom_dict["supercell_energy"] = d2["supercell_energy"]
         disp2_id += 1
@@ -557,6 +559,9 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
                 disp2_id += 1
                 lines.append("  - atom: %4d" % (i + 1))
                 lines.append("    pair_distance: %.8f" % dataset2[j]["pair_distance"])
+                if "included" in dataset2[j]:
+                    included = dataset2[j]["included"]
+                    lines.append("    included: %s" % ("true" if included else "false"))
                 lines.append("    displacement:")
                 lines.append(
                     "      [ %19.16f, %19.16f, %19.16f ]"
-- 
2.43.0


From bae56a5881281c21f499941034b6aa73f635b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 13/13] fix: return detailed imag-self-energy once per grid
 point

---
 phono3py/phonon3/imag_self_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index d0274f5..05c7e56 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -866,8 +866,8 @@ def _get_imag_self_energy_at_gp(
                     'self energy is written in\n"%s".' % full_filename
                 )
 
-        if return_gamma_detail:
-            detailed_gamma.append(detailed_gamma_at_gp)
+    if return_gamma_detail:
+        detailed_gamma.append(detailed_gamma_at_gp)
 
 
 def _get_imag_self_energy_at_sigma(
-- 
2.43.0

