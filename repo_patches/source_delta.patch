From 546221ae6fd8b292e0273a70372b42ead8fe9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:12 +0000
Subject: [PATCH 01/12] fix: concurrent calls of an interpolated intensity
 function overwrote each other's values

---
 src/PythonicDISORT/subroutines.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 19d239c..c735867 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -1,5 +1,6 @@
 import numpy as np
 import scipy as sc
+from copy import copy
 from math import pi
 import warnings
 
@@ -660,11 +661,13 @@ def interpolate(u):
             mask_else = ~mask_pos
             
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
-                results[mask_pos] = u_pos_interpol(mu[mask_pos])
+                interpol = copy(u_pos_interpol) # Concurrent calls must not share interpolation values
+                interpol.set_yi(u_cache[:N])
+                results[mask_pos] = interpol(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
-                results[mask_else] = u_neg_interpol(mu[mask_else])
+                interpol = copy(u_neg_interpol)
+                interpol.set_yi(u_cache[N:])
+                results[mask_else] = interpol(mu[mask_else])
             
             if return_Fourier_error or return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
@@ -689,11 +692,13 @@ def interpolate(u):
             mask_else = ~mask_pos
             
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
-                results[mask_pos] = u_pos_interpol(mu[mask_pos])
+                interpol = copy(u_pos_interpol) # Concurrent calls must not share interpolation values
+                interpol.set_yi(u_cache[:N])
+                results[mask_pos] = interpol(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
-                results[mask_else] = u_neg_interpol(mu[mask_else])
+                interpol = copy(u_neg_interpol)
+                interpol.set_yi(u_cache[N:])
+                results[mask_else] = interpol(mu[mask_else])
             
             if return_Fourier_error or return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
-- 
2.43.0


From d49cdd6192b7f96b724137d340f4aa749e4c6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:12 +0000
Subject: [PATCH 02/12] fix: correcting the zeroth Legendre coefficient wrote
 into the caller's array

---
 src/PythonicDISORT/pydisort.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 897550f..133953e 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -245,6 +245,7 @@ def pydisort(
     # Value checks on the phase function Legendre coefficients
     if not np.all(omega_arr * Leg_coeffs_all[:, 0] == omega_arr):
         warnings.warn("The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.")
+        Leg_coeffs_all = Leg_coeffs_all.copy() # Do not modify the caller's array
         Leg_coeffs_all[:, 0] = 1
     if not (np.all(-1 < Leg_coeffs_all[:, 1:]) and np.all(Leg_coeffs_all[:, 1:] < 1)):
         raise ValueError("The phase function Legendre coefficients must all be between -1 and 1 exclusive (only the zeroth coefficient can equal 1).")
-- 
2.43.0


From 3e7d9efa87d85c13a3e4ac7ba25987d1f7152db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:12 +0000
Subject: [PATCH 03/12] fix: output functions shared tau_arr, f_arr and mu_arr
 with the caller

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/pydisort.py                       | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a2c0d60..5e8a251 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -316,7 +316,7 @@ def _assemble_intensity_and_fluxes(
                 output_is_tuple = True
                 
             if return_tau_arr:
-                outputs += (tau_arr,)
+                outputs += (tau_arr.copy(),)
                 output_is_tuple = True
             
             if _return_l: # This indicates to the function that NT corrections are activated
@@ -425,7 +425,7 @@ def _assemble_intensity_and_fluxes(
         outputs = (rescale_factor * np.squeeze(u0),)
         outputs_len = 1
         if return_tau_arr:
-            outputs += (tau_arr,)
+            outputs += (tau_arr.copy(),)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
             outputs += (act_dscale_reclassification,)
@@ -519,7 +519,7 @@ def _assemble_intensity_and_fluxes(
         flux = 2 * pi * (mu_arr_pos * W) @ u0_pos
         
         if return_tau_arr:
-            return rescale_factor * np.squeeze(flux)[()], tau_arr
+            return rescale_factor * np.squeeze(flux)[()], tau_arr.copy()
         else:
             return rescale_factor * np.squeeze(flux)[()]
 
@@ -604,7 +604,7 @@ def _assemble_intensity_and_fluxes(
             return (
                 rescale_factor * np.squeeze(diffuse_flux)[()],
                 rescale_factor * np.squeeze(direct_beam)[()],
-                tau_arr
+                tau_arr.copy()
             )
         else:
             return (
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 133953e..446b84d 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -181,11 +181,11 @@ def pydisort(
     
     # Turn floats into arrays
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr)
+    tau_arr = np.atleast_1d(tau_arr).copy() # The output functions keep a reference to this array
     omega_arr = np.atleast_1d(omega_arr)
     Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all)
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-    f_arr = np.atleast_1d(f_arr)
+    f_arr = np.atleast_1d(f_arr).copy() # The output functions keep a reference to this array
     # --------------------------------------------------------------------------------------------------------------------------
     
     # Setup
@@ -696,7 +696,7 @@ def pydisort(
 
         # --------------------------------------------------------------------------------------------------------------------------
 
-        return mu_arr, flux_up, flux_down, u0, u_corrected
+        return mu_arr.copy(), flux_up, flux_down, u0, u_corrected
         
     else:
         return (mu_arr,) + _assemble_intensity_and_fluxes(
-- 
2.43.0


From c41b2d4e6432c7a4fca3fbba95980a7a35933a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 04/12] fix: antiderivatives of several optical depths used the
 scale factors of the wrong layers

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 10 +++++-----
 src/PythonicDISORT/subroutines.py                    |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 5e8a251..c2d5806 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -236,7 +236,7 @@ def _assemble_intensity_and_fluxes(
             if there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
                 _mathscr_v_contribution = _mathscr_v(
-                    scaled_tau, scale_tau, l_inv, 
+                    scaled_tau, scale_tau[l], l_inv, 
                     Nscoeffs,
                     scaled_s_poly_coeffs[l_uniq],
                     G_collect_0[l_uniq],
@@ -411,7 +411,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq],
@@ -470,7 +470,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, :N, :],
@@ -552,7 +552,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, N:, :],
@@ -577,7 +577,7 @@ def _assemble_intensity_and_fluxes(
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, l])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                 direct_beam = I0 * mu0 * np.exp(-tau / mu0) * -mu0
                 direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[None, l]
             
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index c735867..574c8b9 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -749,7 +749,7 @@ def to_diag_ordered_form(A, Nsuperdiags, Nsubdiags):
 
     
 def _mathscr_v(tau,                             # Input optical depths
-               scale_tau,                       # Delta-scale factor for tau
+               scale_tau,                       # Delta-scale factor of the layer of each input optical depth
                l,                               # Layer index of each input optical depth
                Nscoeffs,                        # Number of isotropic source polynomial coefficients
                s_poly_coeffs,                   # Polynomial coefficients of isotropic source
@@ -769,7 +769,7 @@ def _mathscr_v(tau,                             # Input optical depths
     |          Variable             |                   Shape                   |
     | ----------------------------- | ----------------------------------------- |
     | ``tau``                       | ``Ntau``                                  |
-    | ``scale_tau``                 | `NLayers`                                 |
+    | ``scale_tau``                 | ``Ntau``                                  |
     | ``l``                         | ``Ntau``                                  |
     | ``Nscoeffs``                  | scalar                                    |
     | ``s_poly_coeffs``             | ``NL x Nscoeffs``                         |
@@ -860,7 +860,7 @@ def _mathscr_v(tau,                             # Input optical depths
         powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
         if is_antiderivative_wrt_tau:
             p = powers + 1
-            tau_poly = (tau[:, None] ** p) / (p * scale_tau)
+            tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])
         else:
             tau_poly = tau[:, None] ** powers
 
-- 
2.43.0


From 344916e562989626f2b96b0e56de76653fe57f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 05/12] fix: the Fourier error used the wrong particular
 solution and failed for some shapes

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index c2d5806..4a06a25 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -275,7 +275,7 @@ def _assemble_intensity_and_fluxes(
                 if is_antiderivative_wrt_tau:
                     if there_is_beam_source:
                         direct_beam_contribution = (
-                            B_collect.T[-1, :, :] / (-scale_tau / mu0)[None, :]
+                            B_collect[-1, :, :].T / (-scale_tau / mu0)[None, :]
                         )[:, l] * np.exp(-scaled_tau / mu0)[None, :]
 
                     ulast = (
@@ -290,7 +290,7 @@ def _assemble_intensity_and_fluxes(
                 else:
                     if there_is_beam_source:
                         direct_beam_contribution = (
-                            B_collect.T[-1, :, l] * np.exp(-scaled_tau / mu0)[None, :]
+                            B_collect[-1, :, :].T[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                         )
 
                     ulast = (
-- 
2.43.0


From bdeb0bcf5ce9818c66c527304ba5dacd12108dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 06/12] fix: corrected intensity with two streams failed for
 several azimuths

---
 src/PythonicDISORT/pydisort.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 446b84d..3684c18 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -612,9 +612,7 @@ def pydisort(
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0)
-            )
+            nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape(N, -1)
             x = 1 / mu_arr_pos - 1 / scaled_mu0
             if is_antiderivative_wrt_tau:
                 chi = (
-- 
2.43.0


From aa655601e9374a7398744ceb8ab34fcadfd0392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 07/12] fix: cached scalar BDRF modes crashed solves with a
 beam

---
 src/PythonicDISORT/_solve_for_coeffs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index 5290d3a..f234ab1 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -129,8 +129,9 @@ def _solve_for_coeffs(
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
-                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m(
-                        mu_arr_pos, np.array([mu0])
+                    # Cached scalar modes return a scalar
+                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.broadcast_to(
+                        BDRF_Fourier_modes_m(mu_arr_pos, np.array([mu0])), (N, 1)
                     )[:, 0]
                     
         # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 00a9b780ea85c292743ea0fd18fa16869d1a7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 08/12] fix: BDRF modes cached for two streams and mu0 returned
 the mu0 column for the nodes

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 574c8b9..f114e47 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -538,7 +538,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
-                    if len(neg_mup) == 1
+                    if len(neg_mup) == 1 and (N > 1 or neg_mup[0] == mu0)
                     else BDRF_Fourier_modes_evaluated[m][:, :-1]
                 )
             )
-- 
2.43.0


From 70ad344c7cc6ab6cc4b37da198652bff01877922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 09/12] fix: cached BDRF modes shared arrays and the list of
 modes with the caller

---
 src/PythonicDISORT/subroutines.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index f114e47..30d588f 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -520,6 +520,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
         warnings.warn("No caching with respect to `mu0`.")
     
     NBDRF = len(BDRF_Fourier_modes)
+    BDRF_Fourier_modes = list(BDRF_Fourier_modes) # The caller may later modify the list
     mu_arr_pos = Gauss_Legendre_quad(N)[0]
     
     if mu0_caching:
@@ -527,7 +528,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
             (
                 BDRF_Fourier_modes[m]
                 if np.isscalar(BDRF_Fourier_modes[m])
-                else BDRF_Fourier_modes[m](mu_arr_pos, np.append(mu_arr_pos, mu0))
+                else np.array(BDRF_Fourier_modes[m](mu_arr_pos, np.append(mu_arr_pos, mu0)))
             )
             for m in range(NBDRF)
         ]
@@ -539,7 +540,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
                     if len(neg_mup) == 1 and (N > 1 or neg_mup[0] == mu0)
-                    else BDRF_Fourier_modes_evaluated[m][:, :-1]
+                    else BDRF_Fourier_modes_evaluated[m][:, :-1].copy()
                 )
             )
             for m in range(NBDRF)
@@ -550,7 +551,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
             (
                 BDRF_Fourier_modes[m]
                 if np.isscalar(BDRF_Fourier_modes[m])
-                else BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos)
+                else np.array(BDRF_Fourier_modes[m](mu_arr_pos, mu_arr_pos))
             )
             for m in range(NBDRF)
         ]
@@ -562,7 +563,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 else (
                     BDRF_Fourier_modes[m](mu_arr_pos, neg_mup)
                     if len(neg_mup) == 1
-                    else BDRF_Fourier_modes_evaluated[m]
+                    else BDRF_Fourier_modes_evaluated[m].copy()
                 )
             )
             for m in range(NBDRF)
-- 
2.43.0


From bec33b4d58847e780d51cee9093fd316aee1b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 10/12] fix: a cached BDRF mode could hand out an array
 belonging to the original mode

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 30d588f..acaa5a7 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -561,7 +561,7 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 lambda mu, neg_mup, m=m: BDRF_Fourier_modes_evaluated[m]
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
-                    BDRF_Fourier_modes[m](mu_arr_pos, neg_mup)
+                    np.array(BDRF_Fourier_modes[m](mu_arr_pos, neg_mup))
                     if len(neg_mup) == 1
                     else BDRF_Fourier_modes_evaluated[m].copy()
                 )
-- 
2.43.0


From a07139d280f56f01a213ce585c7e29c2cf97ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 11/12] fix: boundary conditions with a column for each Fourier
 mode were rejected

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 3684c18..a6e61dd 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -272,15 +272,15 @@ def pydisort(
         if not (0 <= phi0 and phi0 < 2 * pi):
             raise ValueError("Provide the principal azimuthal angle for the incident beam (must be between 0 and 2pi, excluding 2pi).")
     # Ensure that the BC inputs are of the correct shape
-    if len(np.atleast_1d(b_pos)) == 1:
+    if np.size(b_pos) == 1:
         b_pos_is_scalar = True
-    elif len(b_pos) == N:
+    elif np.shape(b_pos) == (N,):
         b_pos_is_vector = True
     elif not np.shape(b_pos) == (N, NFourier):
         raise ValueError("The shape of the bottom boundary condition is incorrect.")
-    if len(np.atleast_1d(b_neg)) == 1:
+    if np.size(b_neg) == 1:
         b_neg_is_scalar = True
-    elif len(b_neg) == N:
+    elif np.shape(b_neg) == (N,):
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-- 
2.43.0


From 37c69a9b03b6b081b744352c67c3ada89722fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 12/12] fix: user-supplied reflectance functions were given the
 solver's own quadrature nodes

---
 src/PythonicDISORT/_solve_for_coeffs.py |  3 ++-
 src/PythonicDISORT/subroutines.py       | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index f234ab1..282f8f4 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -1,4 +1,4 @@
-from PythonicDISORT.subroutines import _mathscr_v
+from PythonicDISORT.subroutines import _mathscr_v, _on_copies
 
 import numpy as np
 from numpy.lib.stride_tricks import as_strided
@@ -126,6 +126,7 @@ def _solve_for_coeffs(
                 if there_is_beam_source:
                     mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m
             else:
+                BDRF_Fourier_modes_m = _on_copies(BDRF_Fourier_modes_m)
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index acaa5a7..c085bdb 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -457,6 +457,12 @@ def generate_s_poly_coeffs(tau_arr, TEMPER, WVNMLO, WVNMHI, **kwargs):
 
 
 
+def _on_copies(BDRF_Fourier_mode):
+    """User-supplied functions may overwrite or keep their arguments, so they must not be given our quadrature nodes."""
+    return lambda mu, neg_mup: BDRF_Fourier_mode(mu.copy(), neg_mup.copy())
+
+
+
 def generate_emissivity_from_BDRF(N, zeroth_BDRF_Fourier_mode):
     """Use Kirchoff's law of thermal radiation to determine the (directional) emissivity 
     of the surface given the zeroth Fourier mode of the Bi-Directional Reflectance Function (BDRF).
@@ -482,6 +488,7 @@ def generate_emissivity_from_BDRF(N, zeroth_BDRF_Fourier_mode):
         return 1 - zeroth_BDRF_Fourier_mode
     else:
         mu_arr_pos, W = Gauss_Legendre_quad(N)
+        zeroth_BDRF_Fourier_mode = _on_copies(zeroth_BDRF_Fourier_mode)
         return (
             1 - 2 * zeroth_BDRF_Fourier_mode(mu_arr_pos, mu_arr_pos) * mu_arr_pos[None, :] @ W
         )
@@ -520,7 +527,9 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
         warnings.warn("No caching with respect to `mu0`.")
     
     NBDRF = len(BDRF_Fourier_modes)
-    BDRF_Fourier_modes = list(BDRF_Fourier_modes) # The caller may later modify the list
+    BDRF_Fourier_modes = [ # The caller may later modify the list
+        mode if np.isscalar(mode) else _on_copies(mode) for mode in BDRF_Fourier_modes
+    ]
     mu_arr_pos = Gauss_Legendre_quad(N)[0]
     
     if mu0_caching:
-- 
2.43.0

