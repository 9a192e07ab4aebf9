From 0503d0e425ff56a3fd7525b8bd923caea515e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:25 +0000
Subject: [PATCH 01/43] fix: allocate phi12 for all nturns+1 turns addressed by
 the tracking kernel

---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 84f75d7..35972ba 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -211,11 +211,12 @@ py::tuple wrapper_kick_and_drift_scalar(
         const bool ftn_out,
         const std::optional<const py::object> callback
 ) {
-    real_t *ptr_phi12 = new real_t[nturns];
-    std::fill_n(ptr_phi12, nturns, phi12);
+    // The tracking routine addresses turns 0..nturns, both included.
+    real_t *ptr_phi12 = new real_t[nturns + 1];
+    std::fill_n(ptr_phi12, nturns + 1, phi12);
 
     py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns}, ptr_phi12, capsule);
+    real_Tarr arr_phi12({nturns + 1}, ptr_phi12, capsule);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
-- 
2.43.0


From 24cdd28bb450d8aeea107b9746d9049048501e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:25 +0000
Subject: [PATCH 02/43] fix: clear the recreated waterfall before each
 projection in the reconstruction

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 65188f7..2f9d27e 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -13,6 +13,7 @@
 #include <stdexcept>
 #include <cmath>
 #include <functional>
+#include <algorithm>
 
 #include "reconstruct.h"
 
@@ -402,6 +403,7 @@ void reconstruct(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, (real_t) 0);
             project(flat_rec, flat_points, weights, npart, nprof);
             normalize(flat_rec, nprof, nbins);
 
@@ -421,6 +423,7 @@ void reconstruct(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, (real_t) 0);
         project(flat_rec, flat_points, weights, npart, nprof);
         normalize(flat_rec, nprof, nbins);
 
@@ -498,6 +501,7 @@ void reconstruct_multi(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, (real_t) 0);
             project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
@@ -518,6 +522,7 @@ void reconstruct_multi(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, (real_t) 0);
         project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
-- 
2.43.0


From a0236387a50a533e51201929d330ccbed62abca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:25 +0000
Subject: [PATCH 03/43] fix: make loop temporaries private in the parallel
 reconstruction loops

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 2f9d27e..7d7f3e3 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -274,11 +274,10 @@ void reciprocal_particles(real_t *rparts,    // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            int idx = i * nbins + j;
             rparts[idx] = (real_t) max_bin_val / rparts[idx];
         }
 }
@@ -305,11 +304,10 @@ void reciprocal_particles_multi(real_t *rparts,   // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for collapse(2)
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            int idx = i * nbins + j;
             rparts[idx] = (double) max_bin_val / rparts[idx];
         }
 }
@@ -338,16 +336,14 @@ void create_mask(const int *xpRound0,       //inn
                  const int nprof,
                  const int ncenter) {
 
-    int bin;
-
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
         {
             for (int j = 0; j < nprof; j++)
             {
-                bin = xpRound0[i * nprof + j] + centers[c];
+                const int bin = xpRound0[i * nprof + j] + centers[c];
                 if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
             }
         }
-- 
2.43.0


From c7984ee4511acd06a90ae28d993aeb304e713ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:41 +0000
Subject: [PATCH 04/43] fix: remove data races on shared weights and bins in
 the multi-bunch reconstruction

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 7d7f3e3..0ed9e50 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -38,7 +38,7 @@ void back_project_multi(real_t *weights,                     // inn/out
                         const int npart,
                         const int nprof,
                         const int ncenter) {     // inn
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -73,7 +73,6 @@ void project_multi(real_t *flat_rec,                     // inn/out
                    const int nprof,
                    const int ncenter) {      // inn
 
-    #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -242,7 +241,6 @@ void count_particles_in_bin_multi(real_t *rparts,
                                   const int ncenters) {
 
     int bin;
-    #pragma omp parallel for
     for (int c = 0; c < ncenters; c++) {
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
-- 
2.43.0


From e54a92febc4211d5205ad666b3f61b0fe031c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:41 +0000
Subject: [PATCH 05/43] fix: compute the per-bunch discrepancy over each
 bunch's own window in every profile

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 0ed9e50..f130e51 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -157,16 +157,16 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int nbins,
                          const int ncenter) {
 
-    int all_bins = nprof * nbins;
-    real_t squared_sum = 0;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
-        for (int i = 0; i < all_bins; i++)
+        real_t squared_sum = 0;
+        for (int i = 0; i < nprof; i++)
         {
-            if (i < cutright[c] && i > cutleft[c])
+            for (int j = 0; j < nbins; j++)
             {
-                squared_sum += std::pow(diff_prof[i], 2.0);
+                if (j >= cutleft[c] && j < cutright[c])
+                    squared_sum += std::pow(diff_prof[i * nbins + j], 2.0);
             }
         }
         disc[iteration * ncenter + c] = std::sqrt(squared_sum / (nprof * (cutright[c] - cutleft[c])));
-- 
2.43.0


From 96a48390ad570da786e6d2df6804564f45d17e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:41 +0000
Subject: [PATCH 06/43] fix: clip and check the weights of all bunches in the
 multi-bunch reconstruction

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index f130e51..9d4dd63 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -483,9 +483,9 @@ void reconstruct_multi(real_t *weights,             // out
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
 
-        clip(weights, npart, 0.0);
+        clip(weights, npart*ncenter, 0.0);
 
-        if (sum(weights, npart) <= 0.)
+        if (sum(weights, npart*ncenter) <= 0.)
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
@@ -509,7 +509,7 @@ void reconstruct_multi(real_t *weights,             // out
 
             clip(weights, npart*ncenter, 0.0);
 
-            if (sum(weights, npart) <= 0.)
+            if (sum(weights, npart*ncenter) <= 0.)
                 throw std::runtime_error("All of phase space got reduced to zeroes");
 
             callback(iteration + 1, niter);
-- 
2.43.0


From 6492e51575266c2e5de2d85c6f54937e930fe550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:56 +0000
Subject: [PATCH 07/43] fix: count particles per bin with particle-major
 coordinates in hybrid multi-bunch mode

---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 0dc3432..50cc241 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -263,7 +263,7 @@ class TomographyABC(ABC):
         # for c in centers:
         #     ppb = self._count_particles_in_bins(
         #         ppb, self.nprofs, self.xp+int(np.floor(c)), self.nparts)
-        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp.T, centers,
+        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp, centers,
                                                     self.nprofs, self.nparts,
                                                     self.nbins, len(centers))
 
-- 
2.43.0


From 6fa885af2f14b74e668ce1808a288769eaa6507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:56 +0000
Subject: [PATCH 08/43] fix: reject particles outside the phase space image
 instead of writing elsewhere

---
 longitudinal_tomography/cpp_routines/data_treatment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/data_treatment.cpp b/longitudinal_tomography/cpp_routines/data_treatment.cpp
index 1e62b60..e9f7366 100644
--- a/longitudinal_tomography/cpp_routines/data_treatment.cpp
+++ b/longitudinal_tomography/cpp_routines/data_treatment.cpp
@@ -22,12 +22,13 @@ template <typename real_t>
 real_t *make_phase_space(const int *const xp, const int *const yp, const real_t *const weight, const int n_particles,
                          const int n_bins) {
     real_t *phase_space = new real_t[n_bins * n_bins]();
-    int n_bins2 = n_bins * n_bins;
 
     for (int i = 0; i < n_particles; i++) {
-        int index = yp[i] + xp[i] * n_bins;
-        if (index >= n_bins2)
+        if (xp[i] < 0 || xp[i] >= n_bins || yp[i] < 0 || yp[i] >= n_bins) {
+            delete[] phase_space;
             throw std::out_of_range("Index out of bounds");
+        }
+        int index = yp[i] + xp[i] * n_bins;
         phase_space[index] += weight[i];
     }
 
-- 
2.43.0


From ae498626849c49b409bbfef8da1d86de8878eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:39 +0000
Subject: [PATCH 09/43] fix: accept a constant phi12 in ProgramsMachine

---
 longitudinal_tomography/tracking/programs_machine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index a1075ed..d9ef8b5 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -132,10 +132,11 @@ class ProgramsMachine(MachineABC):
                 self.phase_raw[1, :]
             )
         elif self.process_phase == 0:
-            if isinstance(self.phi12, np.ndarray):
-                if self.phi12.size() == 1:
-                    pass
-                elif len(self.phi12.shape) == 2 and self.phi12.shape[1] == 2:
+            if np.size(self.phi12) == 1:
+                self.phi12 = np.full(len(momentum_time),
+                                     np.ravel(self.phi12)[0], dtype=float)
+            elif isinstance(self.phi12, np.ndarray):
+                if len(self.phi12.shape) == 2 and self.phi12.shape[1] == 2:
                     self.phi12 = np.interp(momentum_time, *self.phi12)
                 elif len(self.phi12) == len(self.voltage_raw):
                     self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
-- 
2.43.0


From bd0fe21b4ae822f110096448ce1ca2eeaf3c94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 10/43] fix: pass deltaturn in the deprecated kick_and_drift
 wrapper

---
 longitudinal_tomography/cpp_routines/tomolib_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
index 879083a..1529ea7 100644
--- a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
+++ b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
@@ -203,12 +203,12 @@ ftn_out: boolean, optional, default=False
 
     if machine is not None:
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
-                                      machine, rec_prof, nturns, nparts,
+                                      machine, rec_prof, 0, nturns, nparts,
                                       ftn_out)
     elif all([x is not None for x in machine_args]):
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
                                       phi0, deltaE0, drift_coef, phi12,
-                                      h_ratio, dturns, rec_prof, nturns,
+                                      h_ratio, dturns, rec_prof, 0, nturns,
                                       nparts, ftn_out)
     else:
         raise expt.InputError(
-- 
2.43.0


From 89bead3e02f9cbb0ed0dc473b3724e8dea8d897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 11/43] fix: do not overwrite the stored initial distribution
 while tracking

---
 longitudinal_tomography/tracking/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91dc3f7..c86e637 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -177,8 +177,9 @@ class Tracking(ParticleTracker):
             self.particles.coordinates_dphi_denergy = conf.cast(init_distr)
             coords = self.particles.coordinates_dphi_denergy
 
-        dphi = coords[0]
-        denergy = coords[1]
+        # The tracking routines work in-place.
+        dphi = coords[0].copy()
+        denergy = coords[1].copy()
 
         self.init_dphi = dphi.copy()
         self.init_denergy = denergy.copy()
-- 
2.43.0


From 1f11baefdb6e914dda62069b67cbb6830ca03a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:59 +0000
Subject: [PATCH 12/43] fix: pass phi12 and h_ratio in the active precision to
 the tracking kernel

---
 longitudinal_tomography/tracking/tracking.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index c86e637..3b669de 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -189,6 +189,8 @@ class Tracking(ParticleTracker):
         phi0 = conf.cast(machine.phi0)
         deltaE0 = conf.cast(machine.deltaE0)
         drift_coef = conf.cast(machine.drift_coef)
+        phi12 = (conf.cast(machine.phi12) if np.ndim(machine.phi12) > 0
+                 else float(machine.phi12))
 
         # Tracking particles
         if self.self_field_flag:
@@ -206,8 +208,8 @@ class Tracking(ParticleTracker):
             yp = conf.cast(conf.zeros((machine.nprofiles, nparts)))
 
             conf.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2, phi0,
-                                deltaE0, drift_coef, machine.phi12,
-                                machine.h_ratio, machine.dturns, recprof,
+                                deltaE0, drift_coef, phi12,
+                                float(machine.h_ratio), machine.dturns, recprof,
                                 deltaturn, nturns, nparts, self.fortran_flag,
                                 callback=callback)
 
-- 
2.43.0


From fc3dd4a12ef32f814de0a0ca2afd654ecea21c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:40 +0000
Subject: [PATCH 13/43] fix: do not zero cells of the caller's density in
 density_to_macro

---
 longitudinal_tomography/data/data_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/data_treatment.py b/longitudinal_tomography/data/data_treatment.py
index 9b90104..22b2edf 100644
--- a/longitudinal_tomography/data/data_treatment.py
+++ b/longitudinal_tomography/data/data_treatment.py
@@ -261,7 +261,7 @@ def density_to_macro(tRange: Iterable[float], ERange: Iterable[float],
     dEbin = ERange[1] - ERange[0]
 
     sumDens = np.sum(density)
-    density[density / sumDens < threshold] = 0
+    density = np.where(density / sumDens < threshold, 0, density)
 
     prob = density.flatten()
     prob = prob / np.sum(prob)
-- 
2.43.0


From 3faf0adb29829bf3af702efd55ea3795aea4653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:40 +0000
Subject: [PATCH 14/43] fix: do not normalize the caller's profile in place
 when showing results

---
 longitudinal_tomography/utils/tomo_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_output.py b/longitudinal_tomography/utils/tomo_output.py
index 9f0bdc0..7213209 100644
--- a/longitudinal_tomography/utils/tomo_output.py
+++ b/longitudinal_tomography/utils/tomo_output.py
@@ -131,7 +131,7 @@ def show(image: np.ndarray, diff: np.ndarray, rec_prof: np.ndarray,
     """
 
     # Normalizing recprof:
-    rec_prof[:] /= np.sum(rec_prof)
+    rec_prof = rec_prof / np.sum(rec_prof)
 
     # Creating plot
     gs = gridspec.GridSpec(4, 4)
-- 
2.43.0


From a22547fd5fa037077c62b15c0e8203120f62b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:25 +0000
Subject: [PATCH 15/43] fix: allowed time range only shrinks the columns it
 cuts

With an allowed range narrower than the found area, the lower energy limits of
every column were recomputed with the rounding meant for the cut columns, one
row above the mirrored limit. The first column, which has no height, then got
jmin > jmax, so with an even number of bins any max_dt inside the area was
rejected with EnergyLimitsError.
---
 longitudinal_tomography/tracking/phase_space_info.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index 58f5093..78011e1 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -289,13 +289,15 @@ class PhaseSpaceInfo:
         if min_dtbin > imin or self.machine.full_pp_flag:
             imin = min_dtbin
             jmax[:min_dtbin] = np.floor(self.machine.synch_part_y)
-            jmin = np.ceil(2.0 * self.machine.synch_part_y - jmax + 0.5)
+            jmin[:min_dtbin] = np.ceil(2.0 * self.machine.synch_part_y
+                                       - jmax[:min_dtbin] + 0.5)
 
         if max_dtbin < imax or self.machine.full_pp_flag:
             imax = max_dtbin - 1  # -1 in order to count from idx 0
             jmax[max_dtbin:
                  self.machine.nbins] = np.floor(self.machine.synch_part_y)
-            jmin = np.ceil(2.0 * self.machine.synch_part_y - jmax + 0.5)
+            jmin[max_dtbin:] = np.ceil(2.0 * self.machine.synch_part_y
+                                       - jmax[max_dtbin:] + 0.5)
 
         return jmin, jmax, imin, imax
 
-- 
2.43.0


From 60a98fbdb823898607f1c5fc7a93a14e0d5820fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:01 +0000
Subject: [PATCH 16/43] fix: keep the allowed time range inside the image

max_dt / dtbin can round to slightly more than nbins for the default
max_dt = nbins * dtbin; with full_pp_flag the area then got a column past the
image and the particle distribution failed with IndexError.
---
 longitudinal_tomography/tracking/phase_space_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index 78011e1..04bec46 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -283,7 +283,8 @@ class PhaseSpaceInfo:
             -> Tuple[np.ndarray, np.ndarray, int, int]:
 
         # Maximum and minimum bin, as specified by user.
-        max_dtbin = int(np.ceil(self.machine.max_dt / self.machine.dtbin))
+        max_dtbin = min(int(np.ceil(self.machine.max_dt / self.machine.dtbin)),
+                        self.machine.nbins)
         min_dtbin = int(self.machine.min_dt / self.machine.dtbin)
 
         if min_dtbin > imin or self.machine.full_pp_flag:
-- 
2.43.0


From 68378580b22358c9e5e6d7896b6dd910a47a7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:17 +0000
Subject: [PATCH 17/43] fix: respect max_dt when it cuts only the last column
 of the area

max_dtbin is an exclusive bound and imax an index: with max_dtbin == imax the
last column, which lies beyond max_dt, was kept.
---
 longitudinal_tomography/tracking/phase_space_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index 04bec46..ff869d6 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -293,7 +293,7 @@ class PhaseSpaceInfo:
             jmin[:min_dtbin] = np.ceil(2.0 * self.machine.synch_part_y
                                        - jmax[:min_dtbin] + 0.5)
 
-        if max_dtbin < imax or self.machine.full_pp_flag:
+        if max_dtbin <= imax or self.machine.full_pp_flag:
             imax = max_dtbin - 1  # -1 in order to count from idx 0
             jmax[max_dtbin:
                  self.machine.nbins] = np.floor(self.machine.synch_part_y)
-- 
2.43.0


From 0ad51e38fa9f895a8d983e78a814f5c1e8d8e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:56 +0000
Subject: [PATCH 18/43] fix: run the multi-bunch reconstruction in the active
 precision

---
 .../tomography/tomography_multibunch.py                    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tomography/tomography_multibunch.py b/longitudinal_tomography/tomography/tomography_multibunch.py
index bc53fd3..41a4773 100644
--- a/longitudinal_tomography/tomography/tomography_multibunch.py
+++ b/longitudinal_tomography/tomography/tomography_multibunch.py
@@ -280,8 +280,11 @@ class Tomography(TomographyABC):
         #     self.nparts, self.nprofs, verbose, callback)
         
         (weight, self.diff, self.diff_split, self.recreated) = \
-            libtomo.reconstruct_multi(self.xp, self.waterfall, cutleft,
-                                      cutright, centers, niter, self.nbins,
+            libtomo.reconstruct_multi(self.xp, self.waterfall,
+                                      np.asarray(cutleft, dtype=np.int32),
+                                      np.asarray(cutright, dtype=np.int32),
+                                      np.asarray(centers, dtype=np.int32),
+                                      niter, self.nbins,
                                       self.nparts, self.nprofs, len(centers),
                                       verbose, callback)
         
-- 
2.43.0


From 0687a728165214dde64488562d144ab22a4cd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:52 +0000
Subject: [PATCH 19/43] fix: keep the waterfall when a new one is rejected as
 reduced to zero

---
 longitudinal_tomography/data/profiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/data/profiles.py b/longitudinal_tomography/data/profiles.py
index 9035603..b3320e2 100644
--- a/longitudinal_tomography/data/profiles.py
+++ b/longitudinal_tomography/data/profiles.py
@@ -134,11 +134,11 @@ class Profiles:
                       f'nr of profiles in waterfall: {new_waterfall.shape[0]}'
             raise expt.WaterfallError(err_msg)
 
-        new_waterfall = np.array(new_waterfall)
-        self._waterfall = new_waterfall.clip(0.0)
-        if np.sum(np.abs(self.waterfall)) == 0.0:
+        new_waterfall = np.array(new_waterfall).clip(0.0)
+        if np.sum(np.abs(new_waterfall)) == 0.0:
             raise expt.WaterfallReducedToZero()
 
+        self._waterfall = new_waterfall
         self.machine.nbins = self._waterfall.shape[1]
         log.info(f'Waterfall loaded with shape: {self.waterfall.shape})')
 
-- 
2.43.0


From 1b05995bb9ebdb397ed4596ae6f1d7743e242071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:52 +0000
Subject: [PATCH 20/43] fix: keep the filtered profiles when a filter's result
 is rejected

---
 longitudinal_tomography/data/profiles.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/data/profiles.py b/longitudinal_tomography/data/profiles.py
index b3320e2..26e286b 100644
--- a/longitudinal_tomography/data/profiles.py
+++ b/longitudinal_tomography/data/profiles.py
@@ -200,10 +200,8 @@ class Profiles:
             self.dsprofiles = self._check_manual_filtered_profs(
                 filtered_profiles)
         elif in_filter is not None:
-            self.dsprofiles = np.copy(self.waterfall)
-            self.dsprofiles = in_filter(self.dsprofiles)
             self.dsprofiles = self._check_manual_filtered_profs(
-                self.dsprofiles)
+                in_filter(np.copy(self.waterfall)))
         else:
             self.dsprofiles = np.copy(self.waterfall)
             # Makes normalized version of waterfall
-- 
2.43.0


From a5f0fe17113059bcbd47294cdbc7c9e4d77afe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:54 +0000
Subject: [PATCH 21/43] fix: rebin integer waterfalls when the factor does not
 divide the bins

---
 longitudinal_tomography/data/pre_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index 1450080..3bbf62d 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -414,6 +414,6 @@ def _rebin_last(data: np.ndarray, rbn: int) -> np.ndarray:
     i0 = (int(nbins / rbn) - 1) * rbn
     ans = np.copy(data[:, i0:])
     ans = np.sum(ans, axis=1)
-    ans[:] *= rbn / (nbins - i0)
+    ans = ans * (rbn / (nbins - i0))
     ans = ans.reshape((nprofs, 1))
     return ans
-- 
2.43.0


From 4b83f4d0674fa0e53670518d537c2f597e899b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:54 +0000
Subject: [PATCH 22/43] fix: subtract the baseline of integer waterfalls

---
 longitudinal_tomography/utils/tomo_input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 1e723bb..a6e10f8 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -484,7 +484,8 @@ def raw_data_to_profiles(waterfall: np.ndarray, machine: MachineABC, rbn: int,
 
     waterfall = np.array(waterfall)
     # Subtracting baseline
-    waterfall[:] -= fortran.calc_baseline(waterfall, machine.beam_ref_frame)
+    waterfall = waterfall - fortran.calc_baseline(waterfall,
+                                                  machine.beam_ref_frame)
     # Rebinning
     (waterfall,
      machine.dtbin,
-- 
2.43.0


From 46f563f89da312116761f701de0f7d8fc92c4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:50 +0000
Subject: [PATCH 23/43] fix: do not strip the lines of the caller's list in
 txt_input_to_machine

---
 longitudinal_tomography/utils/tomo_input.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index a6e10f8..470e328 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -355,8 +355,7 @@ def txt_input_to_machine(input_array: t.List) -> t.Tuple[Machine, Frames]:
                               f'(not including raw-data).')
 
     # String formatting
-    for i in range(len(input_array)):
-        input_array[i] = input_array[i].strip('\r\n')
+    input_array = [line.strip('\r\n') for line in input_array]
 
     # Arguments for shaping waterfall from raw data
     fargs = {
-- 
2.43.0


From 7dc2dbccc9fcde74f6d9274a3a3f7640ffefcf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:13 +0000
Subject: [PATCH 24/43] fix: interpolate phi12 arrays in ProgramsMachine as its
 error message documents

---
 longitudinal_tomography/tracking/programs_machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index d9ef8b5..0b81a8a 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -136,9 +136,9 @@ class ProgramsMachine(MachineABC):
                 self.phi12 = np.full(len(momentum_time),
                                      np.ravel(self.phi12)[0], dtype=float)
             elif isinstance(self.phi12, np.ndarray):
-                if len(self.phi12.shape) == 2 and self.phi12.shape[1] == 2:
+                if len(self.phi12.shape) == 2 and self.phi12.shape[0] == 2:
                     self.phi12 = np.interp(momentum_time, *self.phi12)
-                elif len(self.phi12) == len(self.voltage_raw):
+                elif self.phi12.shape == self.voltage_raw[0].shape:
                     self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
                                            self.phi12)
                 else:
-- 
2.43.0


From 8f7bab1aa7cebe990950c7ea3d2af5e5e0418402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:57 +0000
Subject: [PATCH 25/43] fix: interpolate one more turn so ProgramsMachine never
 drops the last turn

---
 longitudinal_tomography/tracking/programs_machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index 0b81a8a..c026976 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -314,7 +314,7 @@ class ProgramsMachine(MachineABC):
         turn = self.i0
 
         k = 0
-        while turn < nturns:
+        while turn <= nturns:
 
             while time_interp[i + 1] <= time[k]:
                 momentum_interp.append(
@@ -350,7 +350,7 @@ class ProgramsMachine(MachineABC):
             initial_index = 0
 
         final_index = initial_index + nturns
-        if final_index > len(time_interp) + 1:
+        if final_index > len(time_interp):
             raise ValueError('Not enough data in momentum program to '
                              f'interpolate {nturns} turns.')
 
-- 
2.43.0


From fb4d563e3c0b29c92fd79c69445e4820e63c85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:13 +0000
Subject: [PATCH 26/43] fix: tomo_run.run tracks with self-fields when the
 machine asks for them

---
 longitudinal_tomography/utils/tomo_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_run.py b/longitudinal_tomography/utils/tomo_run.py
index db2dfce..484edcd 100644
--- a/longitudinal_tomography/utils/tomo_run.py
+++ b/longitudinal_tomography/utils/tomo_run.py
@@ -106,7 +106,7 @@ def run(input: str, reconstruct_profile: bool = None,
     if tomoscope:
         tracker.enable_fortran_output(profiles.profile_charge)
 
-    if tracker.self_field_flag:
+    if machine.self_field_flag:
         profiles.calc_self_fields()
         tracker.enable_self_fields(profiles)
 
-- 
2.43.0


From 53aa4d1bc477c960147d52a83c74765d992ff7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:32 +0000
Subject: [PATCH 27/43] fix: keep the index of a lone particle inside the
 clipping contour

---
 longitudinal_tomography/utils/tomographics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 828a7f5..c66b77b 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -613,9 +613,7 @@ def tomo_weight_clipping(tomomachine: MachineABC, time_array: Iterable[float],
             idx_minmax = np.append(idx_minmax, idx_max)
 
         elif len(idx_in) == 1:
-            idx_minmax.append(np.where(map_tomo_y
-                                       == np.max(map_tomo_y[idx_in,
-                                                            idx_frame]))[0][0])
+            idx_minmax = np.append(idx_minmax, idx_in)
 
     new_weight_tomo = (new_weight_tomo
                        / np.sum(new_weight_tomo)
-- 
2.43.0


From 9090b45b25e61dba2c78e2315cd7ec7d2bc44f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 28/43] fix: orient the RF potential by the side of transition
 in tomographics

---
 longitudinal_tomography/utils/tomographics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index c66b77b..e902f02 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -220,6 +220,8 @@ def matched_area_calc(tomomachine: MachineABC, bunch_length: float,
     phi_array = phi_0 + np.linspace(-np.pi, np.pi, 1000)
     urf = (tomomachine.vrf1 * (np.cos(phi_0) - np.cos(phi_array))
            + (phi_0 - phi_array) * tomomachine.vrf1 * np.sin(phi_0))
+    # The stable phase is a maximum above transition, a minimum below
+    urf *= -np.sign(eta0)
 
     urf_level_opti = minimize(_residue_urf_length,
                               (np.max(urf) - np.min(urf))/2 + np.min(urf),
@@ -390,6 +392,8 @@ def density_vs_emittance(tomomachine: MachineABC, tomo_image: Iterable[float],
 # TODO: Make urf a function to avoid code duplication
     urf = (tomomachine.vrf1 * (np.cos(phi_0) - np.cos(phi_array))
            + (phi_0 - phi_array) * tomomachine.vrf1 * np.sin(phi_0))
+    # The stable phase is a maximum above transition, a minimum below
+    urf *= -np.sign(eta0)
     sync_time = tomomachine.synch_part_x * (time_array[1] - time_array[0])
     phi_array_matched = (time_array-sync_time) * (h_num*omega_rev0) + phi_0
 
@@ -545,6 +549,8 @@ def tomo_weight_clipping(tomomachine: MachineABC, time_array: Iterable[float],
     phi_array = phi_0 + np.linspace(-np.pi, np.pi, 1000)
     urf = (tomomachine.vrf1 * (np.cos(phi_0)-np.cos(phi_array))
            + (phi_0-phi_array) * tomomachine.vrf1 * np.sin(phi_0))
+    # The stable phase is a maximum above transition, a minimum below
+    urf *= -np.sign(eta0)
     sync_time = tomomachine.synch_part_x * (time_array[1] - time_array[0])
     phi_array_matched = (time_array-sync_time) * (h_num*omega_rev0) + phi_0
 
-- 
2.43.0


From b72408de2407fc6a9b7ed0cccec74fa4ede3ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:09 +0000
Subject: [PATCH 29/43] fix: search the matched contour within bounds so that
 short bunches are found

---
 longitudinal_tomography/utils/tomographics.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index e902f02..0f3ba91 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 import scipy.signal
 import numpy as np
 import matplotlib.pyplot as plt
-from scipy.optimize import minimize
+from scipy.optimize import minimize_scalar
 from typing import TYPE_CHECKING
 
 # Local imports
@@ -223,10 +223,15 @@ def matched_area_calc(tomomachine: MachineABC, bunch_length: float,
     # The stable phase is a maximum above transition, a minimum below
     urf *= -np.sign(eta0)
 
-    urf_level_opti = minimize(_residue_urf_length,
-                              (np.max(urf) - np.min(urf))/2 + np.min(urf),
-                              args=(bunch_length_phase, phi_array, urf, phi_0),
-                              method='Powell')['x']
+    # Contours are closed above the potential at both ends
+    urf_ends, urf_top = max(urf[0], urf[-1]), np.max(urf)
+    urf_level_opti = minimize_scalar(_residue_urf_length,
+                                     bounds=(urf_ends, urf_top),
+                                     args=(bunch_length_phase, phi_array, urf,
+                                           phi_0),
+                                     method='bounded',
+                                     options={'xatol': 1e-9 * (urf_top
+                                                               - urf_ends)})['x']
 
     phi_tot, phi_right, phi_left = _urf_length_at_level(phi_array, urf, phi_0,
                                                         urf_level_opti)
-- 
2.43.0


From 623fa8047e05430c7631869fad36e40086f7a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:11 +0000
Subject: [PATCH 30/43] fix: clear the recreated waterfall before each
 projection on the GPU

---
 longitudinal_tomography/python_routines/reconstruct_cuda.py | 4 ++--
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cuda.py b/longitudinal_tomography/python_routines/reconstruct_cuda.py
index a1f38a3..336f7e8 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cuda.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cuda.py
@@ -150,7 +150,7 @@ def reconstruct_cuda(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
-        flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
+        flat_rec = project(cp.zeros_like(flat_rec), flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
         discr[iteration] = discrepancy(diff_prof, n_profiles, n_bins)
@@ -162,7 +162,7 @@ def reconstruct_cuda(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
-    flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
+    flat_rec = project(cp.zeros_like(flat_rec), flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
     discr[n_iter] = discrepancy(diff_prof, n_profiles, n_bins)
diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index cbcd957..9aa31ff 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -121,7 +121,7 @@ def reconstruct_cupy(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
-        flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
+        flat_rec = project(cp.zeros_like(flat_rec), flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
         discr[iteration] = discrepancy(diff_prof, n_profiles, n_bins)
@@ -134,7 +134,7 @@ def reconstruct_cupy(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
-    flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
+    flat_rec = project(cp.zeros_like(flat_rec), flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
     discr[n_iter] = discrepancy(diff_prof, n_profiles, n_bins)
-- 
2.43.0


From cffa54ec55137f46622b69458d5f0908baac9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:11 +0000
Subject: [PATCH 31/43] fix: return the recreated waterfall of the GPU
 reconstruction as a 2D array

---
 longitudinal_tomography/python_routines/reconstruct_cuda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cuda.py b/longitudinal_tomography/python_routines/reconstruct_cuda.py
index 336f7e8..0a6ab1d 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cuda.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cuda.py
@@ -170,6 +170,6 @@ def reconstruct_cuda(xp: cp.ndarray,
     if verbose:
         print("Done!")
 
-    return weights, discr, flat_rec
+    return weights, discr, flat_rec.reshape((n_profiles, n_bins))
 
 refresh_kernels()
\ No newline at end of file
-- 
2.43.0


From 513deb800e9ead38ea3a698acf299cba226162f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:11 +0000
Subject: [PATCH 32/43] fix: pass phi12 and h_ratio in the active precision to
 the GPU tracking kernels

---
 .../python_routines/kick_and_drift_cuda.py                   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
index 373ef24..371eae0 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
@@ -8,6 +8,7 @@ import cupy as cp
 import logging
 from typing import Tuple
 from ..utils.tomo_config import GPUDev
+from ..utils.tomo_config import AppConfig as conf
 
 log = logging.getLogger(__name__)
 
@@ -52,7 +53,9 @@ def kick_and_drift_cuda(xp: cp.ndarray, yp: cp.ndarray,
                    ftn_out: bool,
                    callback
                    ) -> Tuple[cp.ndarray, cp.ndarray]:
-    phi12_arr = cp.full(nturns+1, phi12)
+    # The kernels read these in the active precision
+    phi12_arr = cp.full(nturns+1, phi12, dtype=conf.get_precision())
+    h_ratio = conf.get_precision()(h_ratio)
     # Preparation end
 
     profile = rec_prof
-- 
2.43.0


From a234d2777280db38e123bb130bcd32b3c68b8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:11 +0000
Subject: [PATCH 33/43] fix: load the kernels of the active precision when the
 GPU is selected again

---
 longitudinal_tomography/utils/tomo_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index edfd5cb..1fb994f 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -87,6 +87,8 @@ class AppConfig:
 
         single_prec = True if cls._precision == np.float32 else False
         GPUDev(single_prec, gpu_id)
+        # The precision may have changed since the device was first used
+        cls.load_modules_and_refresh_kernels(single_prec)
 
         from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda, data_treatment
 
-- 
2.43.0


From 2dde785a938130cea8e18a0aa2b181ddab4e613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:11 +0000
Subject: [PATCH 34/43] fix: reject particles outside the phase space image on
 the GPU

---
 longitudinal_tomography/python_routines/data_treatment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/longitudinal_tomography/python_routines/data_treatment.py b/longitudinal_tomography/python_routines/data_treatment.py
index 2468bc7..4b6477e 100644
--- a/longitudinal_tomography/python_routines/data_treatment.py
+++ b/longitudinal_tomography/python_routines/data_treatment.py
@@ -9,6 +9,11 @@ def make_phase_space(xp: conf.ndarray[conf.int32],
                      yp: conf.ndarray[conf.int32],
                      weights: conf.ndarray,
                      n_bins: int, result_cpu: bool = True) -> conf.ndarray:
+    outside = conf.logical_or(conf.logical_or(xp < 0, xp >= n_bins),
+                              conf.logical_or(yp < 0, yp >= n_bins))
+    if conf.any(outside):
+        raise IndexError("Index out of bounds")
+
     index = yp + xp * n_bins
 
     phase_space = conf.zeros(n_bins**2)
-- 
2.43.0


From 7aedd528047ed291bf21c2e253e7dd231cacb63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:47 +0000
Subject: [PATCH 35/43] fix: search the fullest bin over all bins in
 reconstruct_cupy

---
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index 9aa31ff..819e0ab 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -75,7 +75,7 @@ def reciprocal_particles(xp: cp.ndarray,
                          n_particles: int) -> cp.ndarray:
 
     rparts = count_particles_in_bin(xp, n_profiles, n_particles, n_bins)
-    max_bin_val = max_2d(rparts, n_particles, n_profiles)
+    max_bin_val = max_2d(rparts, n_bins, n_profiles)
 
     # Setting 0's to 1's to avoid zero division
     rparts = cp.where(rparts == 0, 1, rparts)
-- 
2.43.0


From e2e4bec951bb320da187f17d2fa8a03c81542a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:33 +0000
Subject: [PATCH 36/43] fix: foot tangents cross zero where the fitted lines
 do, on both sides of the bunch

---
 longitudinal_tomography/utils/tomographics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 0f3ba91..5960383 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -122,10 +122,10 @@ def foot_tangent_fit(y: Iterable[float], dx: float = 1) -> Tuple[float, float]:
     y_left = y[left_index - 1:left_index + 3]
     y_right = y[right_index - 2:right_index + 2]
 
-    foot_left = left_index - 5*np.sum(y_left)/(-6*y_left[0] - 2*y_left[1]
-                                               +2*y_left[2] + 6*y_left[3])
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
-                                                  +2*y_right[2] + 6*y_right[3])
+    foot_left = left_index + 0.5 - 5*np.sum(y_left)/(
+        -6*y_left[0] - 2*y_left[1] + 2*y_left[2] + 6*y_left[3])
+    foot_right = right_index - 0.5 - 5*np.sum(y_right)/(
+        -6*y_right[0] - 2*y_right[1] + 2*y_right[2] + 6*y_right[3])
 
     return foot_left * dx, foot_right * dx
 
@@ -147,8 +147,8 @@ def foot_tangent_fit_density(y: Iterable[float], x: Iterable[float],
 
     y_right = y_zero[right_index - 2:right_index + 2]
 
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
-                                                  +2*y_right[2] + 6*y_right[3])
+    foot_right = right_index - 0.5 - 5*np.sum(y_right)/(
+        -6*y_right[0] - 2*y_right[1] + 2*y_right[2] + 6*y_right[3])
 
     foot_density = np.interp(foot_right, np.arange(len(x)), x)
 
-- 
2.43.0


From 63d3060700f2b69b8f5fa3f8db367fb328e8294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:35 +0000
Subject: [PATCH 37/43] fix: keep the given phi12 so that ProgramsMachine can
 recalculate its values

values_at_turns replaced phi12 by its values at the turns; a second call
took those for a new programme and was refused, or interpolated them again
when they happened to be as many as the voltages.
---
 .../tracking/programs_machine.py              | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index c026976..089855f 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -104,6 +104,8 @@ class ProgramsMachine(MachineABC):
         self.bdot: np.ndarray = None
         self.n_turns: int = None
         self.i0: int = None
+        self.phi12_raw: t.Union[float, np.ndarray] = None
+        self._phi12_at_turn: np.ndarray = None
 
         if vat_now:
             self.values_at_turns()
@@ -132,20 +134,26 @@ class ProgramsMachine(MachineABC):
                 self.phase_raw[1, :]
             )
         elif self.process_phase == 0:
-            if np.size(self.phi12) == 1:
-                self.phi12 = np.full(len(momentum_time),
-                                     np.ravel(self.phi12)[0], dtype=float)
-            elif isinstance(self.phi12, np.ndarray):
-                if len(self.phi12.shape) == 2 and self.phi12.shape[0] == 2:
-                    self.phi12 = np.interp(momentum_time, *self.phi12)
-                elif self.phi12.shape == self.voltage_raw[0].shape:
-                    self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
-                                           self.phi12)
+            # phi12 is replaced by its values at each turn: keep what was
+            # given, to start from it again when the values are recalculated.
+            if self.phi12 is not self._phi12_at_turn:
+                self.phi12_raw = self.phi12
+            phi12 = self.phi12_raw
+            if np.size(phi12) == 1:
+                phi12 = np.full(len(momentum_time), np.ravel(phi12)[0],
+                                dtype=float)
+            elif isinstance(phi12, np.ndarray):
+                if len(phi12.shape) == 2 and phi12.shape[0] == 2:
+                    phi12 = np.interp(momentum_time, *phi12)
+                elif phi12.shape == self.voltage_raw[0].shape:
+                    phi12 = np.interp(momentum_time, self.voltage_raw[0],
+                                      phi12)
                 else:
                     raise ValueError(f'Do not know how to interpolate phi12 '
-                                     f'array of shape {self.phi12.shape}. '
+                                     f'array of shape {phi12.shape}. '
                                      f'It should either match voltage '
                                      f'function or provide its own time axis.')
+            self.phi12 = self._phi12_at_turn = phi12
 
         # interpolate second harmonic voltage & phase if applicable
         if len(self.harmonics) == 2:
-- 
2.43.0


From 226cf63d2923693792b4fd83510977fbcd6252a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:01 +0000
Subject: [PATCH 38/43] fix: name the failing indices in the errors of the
 array assertions

---
 longitudinal_tomography/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/assertions.py b/longitudinal_tomography/assertions.py
index adae17c..1920e28 100644
--- a/longitudinal_tomography/assertions.py
+++ b/longitudinal_tomography/assertions.py
@@ -434,7 +434,7 @@ def _assert_log_arr(log_array_ok: np.ndarray, error_class: Type[Exception],
     if not log_array_ok.all():
         error_msg = '\nError found at index: ' \
                     '{}\n'.format(
-                        np.argwhere(log_array_ok is False).flatten()
+                        np.argwhere(~log_array_ok).flatten()
                         + index_offset
                     )
         raise error_class(error_msg + msg)
-- 
2.43.0


From c83dadb31cb645429fcf6eea0f429d99f92c8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 39/43] fix: print the profile just reached when tracking down
 with self-fields

---
 longitudinal_tomography/tracking/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 3b669de..2937c9a 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -448,9 +448,9 @@ class Tracking(ParticleTracker):
                 xp[profile] = temp_xp
                 yp[profile] = (denergy / self.particles.dEbin
                                + self.machine.synch_part_y)
-                profile -= 1
                 if self.fortran_flag:
                     fortran.print_tracking_status(rec_prof, profile)
+                profile -= 1
 
         return xp, yp
 
-- 
2.43.0


From 9335c4d6d71ad5e29ee00c054a58c5eef0e02f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:10 +0000
Subject: [PATCH 40/43] fix: track back through every turn when starting some
 turns off a profile

With a positive deltaturn the tracking downwards started at the turn of the
profile instead of the turn of the initial coordinates, and reported fewer
turns to the callback than announced (more, for a negative deltaturn).
---
 .../cpp_routines/kick_and_drift.cpp                 | 13 ++++++++-----
 .../python_routines/kick_and_drift_cuda.py          | 13 ++++++++-----
 .../python_routines/kick_and_drift_cupy.py          | 13 ++++++++-----
 longitudinal_tomography/tracking/tracking.py        |  3 +++
 4 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
index b3ff134..286b0c3 100644
--- a/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
+++ b/longitudinal_tomography/cpp_routines/kick_and_drift.cpp
@@ -136,6 +136,9 @@ void kick_and_drift(real_t **xp,             // inn/out
 
     if (deltaturn < 0) profile--;
 
+    // The profile holding the initial coordinates while tracking upwards
+    const int start_profile = profile;
+
 #pragma omp parallel for
     for (int i = 0; i < nparts; i++) {
         xp[profile][i] = dphi[i];
@@ -170,16 +173,16 @@ void kick_and_drift(real_t **xp,             // inn/out
         callback(++progress, total);
     } //while
 
-    profile = rec_prof;
-    turn = rec_prof * dturns;
+    profile = deltaturn == 0 ? start_profile : start_profile + 1;
+    turn = rec_prof * dturns + deltaturn;
 
-    if (profile > 0) {
+    if (turn > 0) {
 
         // Going back to initial coordinates
 #pragma omp parallel for
         for (int i = 0; i < nparts; i++) {
-            dphi[i] = xp[rec_prof][i];
-            denergy[i] = yp[rec_prof][i];
+            dphi[i] = xp[start_profile][i];
+            denergy[i] = yp[start_profile][i];
         }
 
         // Downwards
diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
index 371eae0..f56c235 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
@@ -64,6 +64,9 @@ def kick_and_drift_cuda(xp: cp.ndarray, yp: cp.ndarray,
     if deltaturn < 0:
         profile -= 1
 
+    # The profile holding the initial coordinates while tracking upwards
+    start_profile = profile
+
     # Value-based copy to avoid side-effects
     xp[profile] = cp.copy(dphi)
     yp[profile] = cp.copy(denergy)
@@ -72,14 +75,14 @@ def kick_and_drift_cuda(xp: cp.ndarray, yp: cp.ndarray,
                         phi0, phi12_arr, h_ratio, nparts, deltaE0,
                         turn, nturns, dturns, profile)
 
-    profile = rec_prof
-    turn = rec_prof * dturns
+    profile = start_profile if deltaturn == 0 else start_profile + 1
+    turn = rec_prof * dturns + deltaturn
 
 
-    if profile > 0:
+    if turn > 0:
         # going back to initial coordinates
-        dphi = cp.copy(xp[rec_prof])
-        denergy = cp.copy(yp[rec_prof])
+        dphi = cp.copy(xp[start_profile])
+        denergy = cp.copy(yp[start_profile])
 
         kick_drift_down_whole(dphi, denergy, xp, yp, drift_coef, rfv1, rfv2,
                         phi0, phi12_arr, h_ratio, nparts, deltaE0,
diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cupy.py b/longitudinal_tomography/python_routines/kick_and_drift_cupy.py
index 650c307..bc93087 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cupy.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cupy.py
@@ -83,6 +83,9 @@ def kick_and_drift_cupy(xp: cp.ndarray, yp: cp.ndarray,
     if deltaturn < 0:
         profile -= 1
 
+    # The profile holding the initial coordinates while tracking upwards
+    start_profile = profile
+
     # Value-based copy to avoid side-effects
     xp[profile] = cp.copy(dphi)
     yp[profile] = cp.copy(denergy)
@@ -98,13 +101,13 @@ def kick_and_drift_cupy(xp: cp.ndarray, yp: cp.ndarray,
             xp[profile] = cp.copy(dphi)
             yp[profile] = cp.copy(denergy)
 
-    profile = rec_prof
-    turn = rec_prof * dturns
+    profile = start_profile if deltaturn == 0 else start_profile + 1
+    turn = rec_prof * dturns + deltaturn
 
-    if profile > 0:
+    if turn > 0:
         # going back to initial coordinates
-        dphi = cp.copy(xp[rec_prof])
-        denergy = cp.copy(yp[rec_prof])
+        dphi = cp.copy(xp[start_profile])
+        denergy = cp.copy(yp[start_profile])
 
         # Downwards
         while turn > 0:
diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 2937c9a..010d6de 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -297,6 +297,9 @@ class Tracking(ParticleTracker):
         turn = rec_turn
         profile = rec_prof
 
+        if deltaturn > 0:
+            profile += 1
+
         # Tracking 'downwards'
         while turn > 0:
             # Calculating change in energy for each particle at a turn
-- 
2.43.0


From 41fbd113b94d09a48dc9f2c1237b2469db23d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:10 +0000
Subject: [PATCH 41/43] fix: honour deltaturn when tracking with self-fields

---
 longitudinal_tomography/tracking/tracking.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 010d6de..319ffc1 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -199,7 +199,7 @@ class Tracking(ParticleTracker):
             denergy = np.ascontiguousarray(denergy)
             dphi = np.ascontiguousarray(dphi)
             xp, yp = self.kick_and_drift_self(
-                denergy, dphi, rfv1, rfv2, recprof)
+                denergy, dphi, rfv1, rfv2, recprof, deltaturn)
         else:
             # Tracking without self-fields
             nparts = len(dphi)
@@ -385,12 +385,13 @@ class Tracking(ParticleTracker):
         dphi0 = np.copy(dphi)
         denergy0 = np.copy(denergy)
 
-        xp[rec_prof] = self._calc_xp_sf(
+        init_xp = self._calc_xp_sf(
             dphi, self.machine.phi0[rec_turn],
             self.particles.xorigin, self.machine.h_num,
             self.machine.omega_rev0[rec_turn],
             self.machine.dtbin, self._phiwrap)
 
+        xp[rec_prof] = init_xp
         yp[rec_prof] = (denergy / self.particles.dEbin
                         + self.machine.synch_part_y)
 
@@ -425,9 +426,9 @@ class Tracking(ParticleTracker):
         dphi = dphi0
         denergy = denergy0
         turn = rec_turn
-        profile = rec_prof - 1
+        profile = rec_prof if deltaturn > 0 else rec_prof - 1
 
-        temp_xp = xp[rec_prof]
+        temp_xp = init_xp
 
         while turn > 0:
             selfvolt = self._vself[profile, temp_xp.astype(int)]
-- 
2.43.0


From a88467d0452a5fc3dfc9d8626bea1b8a586bfc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 42/43] fix: do not keep a GPU device that could not be set up

GPUDev registered itself before asking for the device, so that after
AppConfig.use_gpu(n) failed (no such device) every later selection of
a GPU that does exist failed as well.
---
 longitudinal_tomography/utils/tomo_config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index 1fb994f..a2feb84 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -133,8 +133,6 @@ class GPUDev:
     def __init__(self, single_prec = False, _gpu_id=0):
         if GPUDev.__instance is not None:
             return
-        else:
-            GPUDev.__instance = self
 
         import cupy as cp
         self.id = _gpu_id
@@ -165,6 +163,9 @@ class GPUDev:
         else:
             self.load_double_precision_modules()
 
+        # A device that could not be set up is not kept
+        GPUDev.__instance = self
+
     def load_double_precision_modules(self):
         import cupy as cp
         self.kd_mod = cp.RawModule(path=os.path.join(
-- 
2.43.0


From 81a2771aa4df1f8bbe26276f604116f4ce9b1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 43/43] fix: select the GPU asked for when another one was in
 use

GPUDev kept the first device ever used: AppConfig.use_gpu(1) after
use_gpu(0) silently continued on device 0. The block size of the
kernels follows the device too.
---
 longitudinal_tomography/python_routines/kick_and_drift_cuda.py | 3 ++-
 longitudinal_tomography/python_routines/reconstruct_cuda.py    | 3 ++-
 longitudinal_tomography/utils/tomo_config.py                   | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
index f56c235..9366f3e 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
@@ -16,8 +16,9 @@ gpu_dev = GPUDev.get_gpu_dev()
 block_size = gpu_dev.block_size
 
 def refresh_kernels():
-    global kick_drift_up_turns, kick_drift_down_turns
+    global kick_drift_up_turns, kick_drift_down_turns, block_size
     gpu_dev = GPUDev.get_gpu_dev()
+    block_size = gpu_dev.block_size
     kick_drift_up_turns = gpu_dev.kd_mod.get_function("kick_drift_up_turns")
     kick_drift_down_turns = gpu_dev.kd_mod.get_function("kick_drift_down_turns")
 
diff --git a/longitudinal_tomography/python_routines/reconstruct_cuda.py b/longitudinal_tomography/python_routines/reconstruct_cuda.py
index 0a6ab1d..b2f20f7 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cuda.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cuda.py
@@ -14,9 +14,10 @@ block_size = gpu_dev.block_size
 
 def refresh_kernels():
     global back_project_kernel, project_kernel, clip_kernel, find_diffprof_kernel,\
-        count_part_bin_kernel, calc_reciprocal_kernel, comp_part_amount_kernel, create_flat_points_kernel
+        count_part_bin_kernel, calc_reciprocal_kernel, comp_part_amount_kernel, create_flat_points_kernel, block_size
 
     gpu_dev = GPUDev.get_gpu_dev()
+    block_size = gpu_dev.block_size
     back_project_kernel = gpu_dev.rec_mod.get_function("back_project")
     project_kernel = gpu_dev.rec_mod.get_function("project")
     clip_kernel = gpu_dev.rec_mod.get_function("clip")
diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index a2feb84..5009a2c 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -131,7 +131,7 @@ class GPUDev:
         return cls.__instance
 
     def __init__(self, single_prec = False, _gpu_id=0):
-        if GPUDev.__instance is not None:
+        if GPUDev.__instance is not None and GPUDev.__instance.id == _gpu_id:
             return
 
         import cupy as cp
-- 
2.43.0

