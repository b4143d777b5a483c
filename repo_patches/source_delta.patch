From 85eddc799338659c353108f6c680334f8b504dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 01/17] fix: antiderivative of the isotropic source must use
 the delta-scale factor of the layer of each tau

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/subroutines.py                    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a2c0d60..209908f 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -236,7 +236,7 @@ def _assemble_intensity_and_fluxes(
             if there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
                 _mathscr_v_contribution = _mathscr_v(
-                    scaled_tau, scale_tau, l_inv, 
+                    scaled_tau, scale_tau[l], l_inv, 
                     Nscoeffs,
                     scaled_s_poly_coeffs[l_uniq],
                     G_collect_0[l_uniq],
@@ -411,7 +411,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq],
@@ -470,7 +470,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, :N, :],
@@ -552,7 +552,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, N:, :],
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 19d239c..f26be56 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -744,7 +744,7 @@ def to_diag_ordered_form(A, Nsuperdiags, Nsubdiags):
 
     
 def _mathscr_v(tau,                             # Input optical depths
-               scale_tau,                       # Delta-scale factor for tau
+               scale_tau,                       # Delta-scale factor for each input optical depth
                l,                               # Layer index of each input optical depth
                Nscoeffs,                        # Number of isotropic source polynomial coefficients
                s_poly_coeffs,                   # Polynomial coefficients of isotropic source
@@ -764,7 +764,7 @@ def _mathscr_v(tau,                             # Input optical depths
     |          Variable             |                   Shape                   |
     | ----------------------------- | ----------------------------------------- |
     | ``tau``                       | ``Ntau``                                  |
-    | ``scale_tau``                 | `NLayers`                                 |
+    | ``scale_tau``                 | ``Ntau``                                  |
     | ``l``                         | ``Ntau``                                  |
     | ``Nscoeffs``                  | scalar                                    |
     | ``s_poly_coeffs``             | ``NL x Nscoeffs``                         |
@@ -855,7 +855,7 @@ def _mathscr_v(tau,                             # Input optical depths
         powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
         if is_antiderivative_wrt_tau:
             p = powers + 1
-            tau_poly = (tau[:, None] ** p) / (p * scale_tau)
+            tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])
         else:
             tau_poly = tau[:, None] ** powers
 
-- 
2.43.0


From 492c3948198789f929c40d49436bef52fc2b442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 02/17] fix: u0 antiderivative was ignored when there is no
 beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 209908f..cfe8a41 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -379,7 +379,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        if is_antiderivative_wrt_tau and there_is_beam_source:
+        if is_antiderivative_wrt_tau:
             if there_is_beam_source:
                 direct_beam_contribution = (B_collect_0.T / (-scale_tau / mu0)[None, :])[
                     :, l
-- 
2.43.0


From 52f8606770682da2985ab04c86fdcdcfa8e90ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 03/17] fix: flux_down antiderivative mismatched layers and
 input optical depths

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index cfe8a41..ab697aa 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -577,7 +577,7 @@ def _assemble_intensity_and_fluxes(
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, l])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                 direct_beam = I0 * mu0 * np.exp(-tau / mu0) * -mu0
                 direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[None, l]
             
-- 
2.43.0


From ece96c01fa7d6a75fd2dca6f185fe0a47bebb31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 04/17] fix: reclassified actinic flux was missing the source
 rescale factor and was NaN without a beam

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index ab697aa..792d2c6 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -358,7 +358,9 @@ def _assemble_intensity_and_fluxes(
             # The following complements the function `subroutines.generate_diff_act_flux_funcs`
             # in performing the reclassification of delta-scaled actinic flux
             if _return_act_dscale_for_reclass: 
-                if is_antiderivative_wrt_tau:
+                if not there_is_beam_source:
+                    act_dscale_reclassification = 0
+                elif is_antiderivative_wrt_tau:
                     act_dscale_reclassification = (
                         I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l] / mu0)
                         - I0 * np.exp(-tau / mu0) * -mu0
@@ -428,7 +430,7 @@ def _assemble_intensity_and_fluxes(
             outputs += (tau_arr,)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
-            outputs += (act_dscale_reclassification,)
+            outputs += (rescale_factor * act_dscale_reclassification,)
             outputs_len += 1
         return outputs[0] if outputs_len == 1 else outputs
         
-- 
2.43.0


From fec20dd1ad9ac3f50a3c4e6b9f94bb09e7f1520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 05/17] fix: Fourier convergence error used the wrong axis of
 the beam term and omitted the isotropic source

---
 .../_assemble_intensity_and_fluxes.py         | 37 +------------------
 1 file changed, 1 insertion(+), 36 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 792d2c6..e41eaa7 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -263,43 +263,8 @@ def _assemble_intensity_and_fluxes(
             output_is_tuple = False
 
             if return_Fourier_error:
-                exponent = np.concatenate(
-                    [
-                        K_collect[-1, l, :N] * (scaled_tau - scaled_tau_arr_lm1)[:, None],
-                        K_collect[-1, l, N:] * (scaled_tau - scaled_tau_arr_l)[:, None],
-                    ],
-                    axis=-1,
-                )
-                
-                direct_beam_contribution = 0
-                if is_antiderivative_wrt_tau:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, :] / (-scale_tau / mu0)[None, :]
-                        )[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                ulast = um[-1, :, :]
 
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it",
-                            GC_collect[-1, l, :, :],
-                            np.exp(exponent) / (scale_tau[:, None] * K_collect[-1, :, :])[l, :],
-                            optimize=True,
-                        )
-                        + direct_beam_contribution
-                    )
-                else:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, l] * np.exp(-scaled_tau / mu0)[None, :]
-                        )
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it", GC_collect[-1, l, :, :], np.exp(exponent), optimize=True
-                        )
-                        + direct_beam_contribution
-                    )
-        
                 u_abs = np.abs(u)
                 Fourier_error = np.max(
                     np.divide(
-- 
2.43.0


From 701924b970cfe1ee02d2bc6347f4222faaa5b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 06/17] fix: boundary conditions given per Fourier mode were
 mistaken for vectors or scalars

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 897550f..ebf2dd1 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -271,15 +271,15 @@ def pydisort(
         if not (0 <= phi0 and phi0 < 2 * pi):
             raise ValueError("Provide the principal azimuthal angle for the incident beam (must be between 0 and 2pi, excluding 2pi).")
     # Ensure that the BC inputs are of the correct shape
-    if len(np.atleast_1d(b_pos)) == 1:
+    if np.size(b_pos) == 1:
         b_pos_is_scalar = True
-    elif len(b_pos) == N:
+    elif np.shape(b_pos) == (N,):
         b_pos_is_vector = True
     elif not np.shape(b_pos) == (N, NFourier):
         raise ValueError("The shape of the bottom boundary condition is incorrect.")
-    if len(np.atleast_1d(b_neg)) == 1:
+    if np.size(b_neg) == 1:
         b_neg_is_scalar = True
-    elif len(b_neg) == N:
+    elif np.shape(b_neg) == (N,):
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-- 
2.43.0


From fcb3c9a59bfa08d8c2c9cf2ed061722d17c6f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 07/17] fix: correcting the zeroth Legendre coefficient
 modified the caller's array

---
 src/PythonicDISORT/pydisort.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index ebf2dd1..0f2cbd7 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -245,6 +245,7 @@ def pydisort(
     # Value checks on the phase function Legendre coefficients
     if not np.all(omega_arr * Leg_coeffs_all[:, 0] == omega_arr):
         warnings.warn("The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.")
+        Leg_coeffs_all = Leg_coeffs_all.copy() # Do not modify the user's array
         Leg_coeffs_all[:, 0] = 1
     if not (np.all(-1 < Leg_coeffs_all[:, 1:]) and np.all(Leg_coeffs_all[:, 1:] < 1)):
         raise ValueError("The phase function Legendre coefficients must all be between -1 and 1 exclusive (only the zeroth coefficient can equal 1).")
-- 
2.43.0


From 5cbf1148171d2624cf3555a92ec43359d89b4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 08/17] fix: sources were divided by a zero or negative rescale
 factor when they vanish at the boundaries

---
 src/PythonicDISORT/pydisort.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 0f2cbd7..ce7498c 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -359,16 +359,20 @@ def pydisort(
                 scaled_s_poly_coeffs[-1, :] @ (scaled_tau_arr_with_0[-1] ** np.arange(Nscoeffs))
             )
         )
+        if not rescale_factor > 0:
+            rescale_factor = np.float64(1)
         I0 = (I0 / rescale_factor).copy()
         b_pos = (b_pos / rescale_factor).copy()
         b_neg = (b_neg / rescale_factor).copy()
         scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()
     else:
         rescale_factor = np.max((I0, np.max(b_pos), np.max(b_neg)))
-        if rescale_factor != 0:
+        if rescale_factor > 0:
             I0 = (I0 / rescale_factor).copy()
             b_pos = (b_pos / rescale_factor).copy()
             b_neg = (b_neg / rescale_factor).copy()
+        else:
+            rescale_factor = 1
             
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From a4aa1e1bd1759d6e508dd4b149de169a91a4674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 09/17] fix: affine_transform_poly_coeffs accepted some zero
 scale factors

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index f26be56..ec5d692 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -591,7 +591,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
         Array with columns [D_0, D_1, ..., D_n]. 
         The rows correspond to different affine transformations.
     """
-    if np.any(a_arr) == 0:
+    if np.any(a_arr == 0):
         raise ValueError("The scale factors must be non-zero.") 
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
-- 
2.43.0


From 6a5dddd64539cd40607ae40892509655182e608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 10/17] fix: cached scalar BDRF modes crashed with a beam and
 mu0-cached modes were wrong for two streams

---
 src/PythonicDISORT/_solve_for_coeffs.py | 4 ++--
 src/PythonicDISORT/subroutines.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index 5290d3a..2d6ddcc 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -129,8 +129,8 @@ def _solve_for_coeffs(
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
-                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m(
-                        mu_arr_pos, np.array([mu0])
+                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.broadcast_to(
+                        BDRF_Fourier_modes_m(mu_arr_pos, np.array([mu0])), (N, 1)
                     )[:, 0]
                     
         # --------------------------------------------------------------------------------------------------------------------------
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index ec5d692..c8fe01b 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -537,7 +537,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
-                    if len(neg_mup) == 1
+                    if len(neg_mup) == 1 and (N > 1 or neg_mup[0] == mu0)
                     else BDRF_Fourier_modes_evaluated[m][:, :-1]
                 )
             )
-- 
2.43.0


From 75d7606465510ca8e078349f19cf7b9917842992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 11/17] fix: direct flux must have the same size as tau even if
 there is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index e41eaa7..5ec39f1 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -540,7 +540,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        direct_beam = 0
+        direct_beam = np.zeros(len(tau))
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-- 
2.43.0


From a873056ddaab78809a3afc77150f7af4954ff9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 12/17] fix: reject fractional scattering of exactly 1 which
 produced NaN

---
 src/PythonicDISORT/pydisort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index ce7498c..2fa0b87 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -285,8 +285,8 @@ def pydisort(
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
     # The fractional scattering must be between 0 and 1
-    if not (np.all(0 <= f_arr) and np.all(f_arr <= 1)):
-        raise ValueError("The fractional scattering must be between 0 and 1.")
+    if not (np.all(0 <= f_arr) and np.all(f_arr < 1)):
+        raise ValueError("The fractional scattering must be between 0 and 1, excluding 1.")
     # The minimum threshold is 3 else the matrix will not be banded
     if not use_banded_solver_NLayers >= 3:
         raise ValueError("The minimum threshold `use_banded_solver_NLayers` is 3, else the matrix will not be banded.")
-- 
2.43.0


From 1f50d163beafae01afad8133b2ab09b3484b4073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:22 +0000
Subject: [PATCH 13/17] fix: interpolate passed return_tau_arr of u0 in the
 wrong position

---
 src/PythonicDISORT/subroutines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index c8fe01b..be9c8e5 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -672,14 +672,15 @@ def interpolate(u):
                 return np.squeeze(results)[()]
     
     elif argcount == 4: # Function is u0 instead of u
+        # There is no Fourier error for u0, so `return_Fourier_error` has no effect
         def u_interpol(mu, tau, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False):
             if not np.all(np.abs(mu) <= 1):
                 raise ValueError("mu values must be between -1 and 1.")
             
             mu = np.atleast_1d(mu)
 
-            if return_Fourier_error or return_tau_arr:
-                u_outputs = u(tau, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)
+            if return_tau_arr:
+                u_outputs = u(tau, is_antiderivative_wrt_tau, return_tau_arr)
                 u_cache = u_outputs[0]
             else:
                 u_cache = u(tau, is_antiderivative_wrt_tau)
@@ -695,7 +696,7 @@ def interpolate(u):
                 u_neg_interpol.set_yi(u_cache[N:])
                 results[mask_else] = u_neg_interpol(mu[mask_else])
             
-            if return_Fourier_error or return_tau_arr:
+            if return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
             else:
                 return np.squeeze(results)[()]
-- 
2.43.0


From 44044a6d7525375e9dc7ce12e60f9d806afa430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:22 +0000
Subject: [PATCH 14/17] fix: TMS correction of a multi-layer atmosphere must
 use the phase function of each contributing layer

---
 src/PythonicDISORT/pydisort.py | 56 ++++++++++++++--------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 2fa0b87..49f2b9f 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -415,7 +415,9 @@ def pydisort(
             Ntau = len(tau)
             Nphi = len(phi)
             # Atmospheric layer indices
-            if not there_is_iso_source:
+            if is_atmos_multilayered:
+                l_uniq, l_inv = np.arange(NLayers), l # Every layer may contribute to the correction
+            elif not there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
             scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
             scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]
@@ -505,19 +507,15 @@ def pydisort(
                 )  # (Nlayers, )
 
 
-                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers_uniq, Nphi)
-                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers_uniq, Nphi)
+                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers, Nphi)
+                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers, Nphi)
 
                 # decay[n,r] = exp(-scaled_thickness_arr[r]/mu[n]); always <= 1
                 log_decay = -scaled_thickness_arr[None, :] * M_inv[:, None]                    # (N, NLayers)
 
-                # decay_prod[n,k] = prod_{m=0}^{k-1} decay[n,m], with decay_prod[:,0]=1
-                log_decay_prod = np.cumsum(log_decay, axis=1) # The cumsum requires ALL layers; `l_uniq` is inapplicable
-                decay_prod = np.concatenate((np.ones((N, 1)), np.exp(log_decay_prod)), axis=1) # (N, NLayers + 1)
-
                 if is_antiderivative_wrt_tau:
-                    # (N, NLayers)
-                    integration_factor = mu_arr_pos[:, None] / scale_tau
+                    # (N, Ntau); we integrate over the layer of each `tau`
+                    integration_factor = mu_arr_pos[:, None] / scale_tau[l][None, :]
 
                 # ====================================================================
                 # POS: pre-accumulate "contribution from below" sums Rpos[N, l, Nphi]
@@ -526,24 +524,20 @@ def pydisort(
                     thickness_pos = scaled_thickness_arr[None, :] * (M_inv + mu0_inv)[:, None]  # (N, NLayers); always > 0
                     # em1_pos = 1 - exp(-scaled_thickness_arr*(1/mu + 1/mu0)) = -expm1(-thickness_pos)
                     em1_pos = -np.expm1(-thickness_pos)                                         # (N, NLayers)
-                    if is_antiderivative_wrt_tau:
-                        em1_pos = integration_factor * em1_pos
-
                     layer_term_pos = em1_pos * exp_taufront_mu0_inv[None, :]                    # (N, NLayers)
 
-                    # Reverse-scan via cumsum:
-                    # Rpos[l] = (1/decay_prod[l+1]) * sum_{r=l+1..} (layer_term_pos[r] * decay_prod[r])
-                    weighted_layer_term_pos = layer_term_pos * decay_prod[:, :NLayers]          # (N, NLayers)
-                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers)
-
-                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers]                  # (N, NLayers - 1)
-                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1))], axis=1)                # (N, NLayers)
+                    # Rpos[l] = sum_{r>l} Bpos[r] * layer_term_pos[r] * exp(-(scaled_tauwith0_front[r] - scaled_tauwith0_back[l])/mu)
+                    dist_pos = scaled_tauwith0_front[None, :] - scaled_tauwith0_back[:, None]   # (NLayers, NLayers)
+                    below = np.arange(NLayers)[None, :] > np.arange(NLayers)[:, None]           # (NLayers, NLayers)
+                    trans_pos = np.exp(-np.where(below, dist_pos, 0)[None, :, :] * M_inv[:, None, None]) * below
+                    Rpos = np.einsum("nlr, nr, nrp -> nlp", trans_pos, layer_term_pos, Bpos)    # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     # expfac_pos = exp(M_inv*tau) * exp(-M_inv*scaled_tauwith0_back[l])
                     expfac_pos = np.exp(M_inv[:, None] * (scaled_tau - scaled_tauwith0_back[l])[None, :])  # (N, Ntau)
-                    tmp = np.take(Rpos, l, axis=1)                                                         # (N, Ntau)
-                    tmp = (tmp * expfac_pos)[:, :, None] * Bpos[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_pos = integration_factor * expfac_pos
+                    tmp = Rpos[:, l, :] * expfac_pos[:, :, None]                                           # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :] + tmp, solution[N:, :, :]), axis=0)
@@ -572,21 +566,17 @@ def pydisort(
                     layer_term_posthick = -em1_neg * exp_x1                                      # (N, NLayers)
                     layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)
 
-                    if is_antiderivative_wrt_tau:
-                        layer_term_neg = -integration_factor * layer_term_neg
-
-                    # Forward-scan via cumsum:
-                    # Rneg[l] = decay_prod[l] * sum_{r<l} layer_term_neg[r] / decay_prod[r+1]
-                    weighted_layer_term_neg = layer_term_neg / decay_prod[:, 1:]                 # (N, NLayers)
-                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers)
-                    
-                    Rneg_rest = decay_prod[:, 1 : NLayers] * cumsum_neg[:, :-1]                  # (N, NLayers - 1)
-                    Rneg = np.concatenate([np.zeros((N, 1)), Rneg_rest], axis=1)                 # (N, NLayers)
+                    # Rneg[l] = sum_{r<l} Bneg[r] * layer_term_neg[r] * exp(-(scaled_tauwith0_front[l] - scaled_tauwith0_back[r])/mu)
+                    dist_neg = scaled_tauwith0_front[:, None] - scaled_tauwith0_back[None, :]    # (NLayers, NLayers)
+                    above = np.arange(NLayers)[None, :] < np.arange(NLayers)[:, None]            # (NLayers, NLayers)
+                    trans_neg = np.exp(-np.where(above, dist_neg, 0)[None, :, :] * M_inv[:, None, None]) * above
+                    Rneg = np.einsum("nlr, nr, nrp -> nlp", trans_neg, layer_term_neg, Bneg)     # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     expfac_neg = np.exp(M_inv[:, None] * (scaled_tauwith0_front[l] - scaled_tau)[None, :])  # (N, Ntau)
-                    tmp = np.take(Rneg, l, axis=1)                                                          # (N, Ntau)
-                    tmp = (tmp * expfac_neg)[:, :, None] * Bneg[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_neg = -integration_factor * expfac_neg
+                    tmp = Rneg[:, l, :] * expfac_neg[:, :, None]                                            # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :], solution[N:, :, :] + tmp), axis=0)
-- 
2.43.0


From 72888e8edb66ff3b23870c69bc797197a786536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:20 +0000
Subject: [PATCH 15/17] fix: NT corrections failed for two streams because the
 scattering angles lost their polar axis

---
 src/PythonicDISORT/pydisort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 49f2b9f..f586445 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -606,8 +606,8 @@ def pydisort(
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0)
+            nu = np.reshape(
+                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0), (N, len(phi))
             )
             x = 1 / mu_arr_pos - 1 / scaled_mu0
             if is_antiderivative_wrt_tau:
-- 
2.43.0


From ae700c53ef9a922a1c0ea5e1eab5508887f5c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:04 +0000
Subject: [PATCH 16/17] fix: NT corrections were NaN when only non-scattering
 layers have a positive fractional scattering

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index f586445..f0a5a72 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -377,7 +377,7 @@ def pydisort(
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
     
-    if NT_cor and not only_flux and there_is_beam_source and np.any(f_arr > 0) and NLeg < NLeg_all and np.any(omega_arr > 0):
+    if NT_cor and not only_flux and there_is_beam_source and np.any(f_arr * omega_arr > 0) and NLeg < NLeg_all:
         
         ############################### Perform NT corrections on the intensity but not the flux ###############################
         ############################### Refer to section 3.7.2 of the Comprehensive Documentation ##############################
-- 
2.43.0


From 3a9e633a56a2b3c29b2152daccab1a32c84263c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 17/17] fix: returned functions shared memory with the caller's
 arrays (tau_arr, f_arr, mu_arr, return_tau_arr)

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/pydisort.py                       | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 5ec39f1..6816b61 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -281,7 +281,7 @@ def _assemble_intensity_and_fluxes(
                 output_is_tuple = True
                 
             if return_tau_arr:
-                outputs += (tau_arr,)
+                outputs += (np.array(tau_arr),)
                 output_is_tuple = True
             
             if _return_l: # This indicates to the function that NT corrections are activated
@@ -392,7 +392,7 @@ def _assemble_intensity_and_fluxes(
         outputs = (rescale_factor * np.squeeze(u0),)
         outputs_len = 1
         if return_tau_arr:
-            outputs += (tau_arr,)
+            outputs += (np.array(tau_arr),)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
             outputs += (rescale_factor * act_dscale_reclassification,)
@@ -486,7 +486,7 @@ def _assemble_intensity_and_fluxes(
         flux = 2 * pi * (mu_arr_pos * W) @ u0_pos
         
         if return_tau_arr:
-            return rescale_factor * np.squeeze(flux)[()], tau_arr
+            return rescale_factor * np.squeeze(flux)[()], np.array(tau_arr)
         else:
             return rescale_factor * np.squeeze(flux)[()]
 
@@ -571,7 +571,7 @@ def _assemble_intensity_and_fluxes(
             return (
                 rescale_factor * np.squeeze(diffuse_flux)[()],
                 rescale_factor * np.squeeze(direct_beam)[()],
-                tau_arr
+                np.array(tau_arr)
             )
         else:
             return (
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index f0a5a72..19a13de 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -181,11 +181,11 @@ def pydisort(
     
     # Turn floats into arrays
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr)
+    tau_arr = np.array(tau_arr, ndmin=1) # The returned functions use this array, so copy the user's
     omega_arr = np.atleast_1d(omega_arr)
     Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all)
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-    f_arr = np.atleast_1d(f_arr)
+    f_arr = np.array(f_arr, ndmin=1) # The returned functions use this array, so copy the user's
     # --------------------------------------------------------------------------------------------------------------------------
     
     # Setup
@@ -690,7 +690,7 @@ def pydisort(
 
         # --------------------------------------------------------------------------------------------------------------------------
 
-        return mu_arr, flux_up, flux_down, u0, u_corrected
+        return np.array(mu_arr), flux_up, flux_down, u0, u_corrected # `u_corrected` uses `mu_arr`
         
     else:
         return (mu_arr,) + _assemble_intensity_and_fluxes(
-- 
2.43.0

