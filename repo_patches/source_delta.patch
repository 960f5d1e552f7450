From 2fa053e65aac8e3007a2572b62fa7e100863bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:41 +0000
Subject: [PATCH 01/44] fix: local wavelength is computed per element for every
 scalar/array combination

Array T with scalar h silently returned only the first wavelength and one-element
arrays or integer T with array h failed.
---
 .../functions/core_physics.py                  | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_physics.py b/deltares_coastal_structures_toolbox/functions/core_physics.py
index d6e7737..ee74dd5 100644
--- a/deltares_coastal_structures_toolbox/functions/core_physics.py
+++ b/deltares_coastal_structures_toolbox/functions/core_physics.py
@@ -394,17 +394,13 @@ def calculate_local_wavelength(
     """
 
     # implementation of disper handles arrays for T, but not for h, hence this implementation
-    if isinstance(h, (float, int)):
-        k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)[0]
-    elif len(h) > 1 and isinstance(T, float):
-        k = np.array([])
-        for hsub in h:
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / T), h=hsub, g=g))
-    elif len(h) > 1 and len(h) == len(T):
-        k = np.array([])
-        for hsub, Tsub in zip(h, T):
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=g))
+    T, h, g = np.broadcast_arrays(T, h, g)
+    k = np.empty(T.shape)
+    for i in np.ndindex(T.shape):
+        k[i] = dispersion.disper(
+            w=((2 * np.pi) / float(T[i])), h=float(h[i]), g=float(g[i])
+        )[0]
 
     L = (2 * np.pi) / k
 
-    return L
+    return L[()]
-- 
2.43.0


From c92c2410b793d74f8b52a169d27379ac67f5bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:08 +0000
Subject: [PATCH 02/44] fix: pass gravitational acceleration on in De Ridder
 (2024) crest freeboard eq. 24

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index 27560fe..d8a3fdc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -147,6 +147,7 @@ def calculate_crest_freeboard_discharge_q_eq24(
         smm10_HF=smm10_HF,
         gamma_f=gamma_f,
         q=q,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From b4db1b6a0968c02f0856d6c620fb791781c6957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:29 +0000
Subject: [PATCH 03/44] fix: De Ridder (2024, 2026) short-wave steepness range
 is actually checked

The steepness check needs Hm0_HF next to Tmm10_HF, which no caller passed on, so an
out-of-range smm10_HF never gave the validity warning.
---
 .../functions/hydraulic/wave_overtopping/deridder2024.py      | 4 ++++
 .../functions/hydraulic/wave_overtopping/deridder2026.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index d8a3fdc..0232024 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -198,6 +198,7 @@ def calculate_crest_freeboard_discharge_q_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
@@ -246,6 +247,7 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc_diml * Hm0,
     )
@@ -369,6 +371,7 @@ def calculate_dimensionless_overtopping_discharge_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
     )
@@ -414,6 +417,7 @@ def calculate_dimensionless_overtopping_discharge_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index b1086c8..806b2c3 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -351,6 +351,7 @@ def calculate_dimensionless_overtopping_discharge_eq28(
     )
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         theta=theta,
@@ -420,6 +421,7 @@ def calculate_dimensionless_overtopping_discharge_eq32(
 
     check_validity_range(
         Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From 830a6904ac51c751532f72d96beb9813b14f5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:37 +0000
Subject: [PATCH 04/44] fix: Van Gent (2021) no longer returns NaN without
 crossing seas

Hm0_swell defaults to NaN and 0 * NaN is NaN.
---
 .../functions/hydraulic/wave_overtopping/vangent2021_caisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index a7315c2..48e6ebc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -201,6 +201,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
@@ -400,6 +401,7 @@ def calculate_dimensionless_crest_freeboard(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
-- 
2.43.0


From 86bf32b365aedd1627cb68102ea212e97a43d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:37 +0000
Subject: [PATCH 05/44] fix: Van Gent (2025) freeboard limit uses the same
 discharge as the breaker equation

The maximum equation was inverted with the unconverted design discharge and the default
gravity, so the freeboard did not reproduce the requested discharge when it governs.
---
 .../functions/hydraulic/wave_overtopping/vangent2025.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 307cbb6..f2ad1aa 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -919,13 +919,14 @@ def calculate_dimensionless_crest_freeboard(
     Rc_diml_max = Rc_diml_max_equation(
         Hm0=Hm0,
         Hm0_swell=Hm0_swell,
-        q=q,
+        q=q_diml * np.sqrt(g * Hm0**3),
         cot_alpha=cot_alpha,
         ksi_mm10=ksi_mm10,
         gamma_f=gamma_f,
         gamma_b=gamma_b,
         gamma_v=gamma_v,
         gamma_beta=gamma_beta,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-- 
2.43.0


From 6e71c90e5f3fbdf3375993bfa7a200aeb358883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:19 +0000
Subject: [PATCH 06/44] fix: Van Gent (2025) freeboard with wind inverts the
 discharge equation it belongs to

The discharge excluding wind governs the wind factor and both equations in the discharge
calculation; the freeboard iteration used the discharge including wind for the wind
factor and ignored wind in the maximum equation.
---
 .../hydraulic/wave_overtopping/vangent2025.py | 94 +++++++++----------
 1 file changed, 43 insertions(+), 51 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index f2ad1aa..7e8e85b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -872,65 +872,57 @@ def calculate_dimensionless_crest_freeboard(
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
 
     q_diml = q / np.sqrt(g * Hm0**3)
-
     if design_calculation:
         q_diml = np.power(q_diml, 1.0 / 0.857)
 
-    Rc_diml = (
-        np.log((1.0 / 6.8) * cot_alpha * q_diml)
-        * (-1.0 / 5.0)
-        * gamma_f
-        * gamma_b
-        * gamma_v
-        * gamma_beta
-        * ksi_mm10
-        + 0.4 * Hm0_swell / Hm0
-    )
-
-    if include_influence_wind:
-        Rc_diff = np.inf
-        n_iter = 0
-        while np.max(Rc_diff) > tolerance and n_iter < max_iter:
-            n_iter += 1
-
-            gamma_w = calculate_influence_wind_gamma_w(
-                Rc=Rc_diml * Hm0,
-                Ac=Ac,
-                Hm0=Hm0,
-                q_diml=q_diml,
-            )
-            q_diml_iter = q_diml / gamma_w
+    # mean discharge excluding the influence of wind
+    q_diml_no_wind = q_diml
+
+    Rc_diff = np.inf
+    n_iter = 0
+    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+        n_iter += 1
+
+        Rc_diml_eqB1 = (
+            np.log((1.0 / 6.8) * cot_alpha * q_diml_no_wind)
+            * (-1.0 / 5.0)
+            * gamma_f
+            * gamma_b
+            * gamma_v
+            * gamma_beta
+            * ksi_mm10
+            + 0.4 * Hm0_swell / Hm0
+        )
 
-            Rc_diml_prev = Rc_diml
+        Rc_diml_max = Rc_diml_max_equation(
+            Hm0=Hm0,
+            Hm0_swell=Hm0_swell,
+            q=q_diml_no_wind * np.sqrt(g * Hm0**3),
+            cot_alpha=cot_alpha,
+            ksi_mm10=ksi_mm10,
+            gamma_f=gamma_f,
+            gamma_b=gamma_b,
+            gamma_v=gamma_v,
+            gamma_beta=gamma_beta,
+            g=g,
+        )
 
-            Rc_diml = (
-                np.log((1.0 / 6.8) * cot_alpha * q_diml_iter)
-                * (-1.0 / 5.0)
-                * gamma_f
-                * gamma_b
-                * gamma_v
-                * gamma_beta
-                * ksi_mm10
-                + 0.4 * Hm0_swell / Hm0
-            )
+        Rc_diml_prev = Rc_diml if n_iter > 1 else np.inf
+        Rc_diml = np.min([Rc_diml_eqB1, Rc_diml_max], axis=0)
+        max_reached = Rc_diml == Rc_diml_max
 
-            Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
+        if not include_influence_wind:
+            break
 
-    Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0,
-        Hm0_swell=Hm0_swell,
-        q=q_diml * np.sqrt(g * Hm0**3),
-        cot_alpha=cot_alpha,
-        ksi_mm10=ksi_mm10,
-        gamma_f=gamma_f,
-        gamma_b=gamma_b,
-        gamma_v=gamma_v,
-        gamma_beta=gamma_beta,
-        g=g,
-    )
+        gamma_w = calculate_influence_wind_gamma_w(
+            Rc=Rc_diml * Hm0,
+            Ac=Ac,
+            Hm0=Hm0,
+            q_diml=q_diml_no_wind,
+        )
+        q_diml_no_wind = q_diml / gamma_w
 
-    Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
+        Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
 
     check_validity_range(
         Hm0=Hm0,
-- 
2.43.0


From 54b2fff35e009419694a16100fe2b69ee769c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:26 +0000
Subject: [PATCH 07/44] fix: Van Gent (2025) validity checks test the variables
 they report

The armour width check compared Rc/Hm0 and the berm checks were skipped when Rc was not given.
---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 7e8e85b..044c035 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -135,12 +135,12 @@ def check_validity_range(
         core_utility.check_variable_validity_range(
             "Non-dimensional armour width in front of crest wall Gc / Hm0",
             "Van Gent et al. (2025)",
-            Rc / Hm0,
+            Gc / Hm0,
             0.6,
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B_berm)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm width B / Hm0",
             "Van Gent et al. (2025)",
@@ -149,7 +149,7 @@ def check_validity_range(
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(db)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm height db / Hm0",
             "Van Gent et al. (2025)",
-- 
2.43.0


From 65c74536f0f6532d36c3b84b344d6932427a5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:00 +0000
Subject: [PATCH 08/44] fix: TAW (2002) overtopping ignores sigma for the
 design coefficients as announced

Giving sigma without use_best_fit warned that sigma does not apply and then failed with
an UnboundLocalError.
---
 .../hydraulic/wave_overtopping/taw2002.py          | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 11bf436..e071e04 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -294,10 +294,9 @@ def calculate_dimensionless_overtopping_discharge_q(
         c1 = 4.3
         c3 = 2.3
 
-    if sigma == 0:
-        cor1 = 0
-        cor3 = 0
-    else:
+    cor1 = 0
+    cor3 = 0
+    if sigma != 0:
         if use_best_fit:
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
@@ -666,10 +665,9 @@ def calculate_dimensionless_crest_freeboard(
         c1 = 4.3
         c3 = 2.3
 
-    if sigma == 0:
-        cor1 = 0
-        cor3 = 0
-    else:
+    cor1 = 0
+    cor3 = 0
+    if sigma != 0:
         if use_best_fit:
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
-- 
2.43.0


From 5cd031ea5851214321ab7b01bb035f6351183709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:08 +0000
Subject: [PATCH 09/44] fix: TAW (2002) maximum crest freeboard uses the
 requested gravitational acceleration

---
 .../functions/hydraulic/wave_overtopping/taw2002.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index e071e04..224aa0c 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -751,7 +751,7 @@ def calculate_dimensionless_crest_freeboard(
     )
 
     Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
+        Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj, g=g
     )
 
     Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-- 
2.43.0


From 79a239eb85ea794d3151d0c0235c1dd2d016bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:18 +0000
Subject: [PATCH 10/44] fix: TAW (2002) run-up determines gamma_b for a single
 slope

The berm length was requested without the slope and always failed.
---
 .../functions/hydraulic/wave_runup/taw2002.py                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 952a73b..fa1bdf4 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -300,6 +300,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
     if np.isnan(gamma_b):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
+            cot_alpha=cot_alpha,
             cot_alpha_down=cot_alpha_down,
             cot_alpha_up=cot_alpha_up,
             B_berm=B_berm,
-- 
2.43.0


From e6ba61bfe7c3e69adfe82473a6cbf1d36df6ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 11/44] fix: TAW (2002) berm influence factor supports arrays

---
 .../functions/hydraulic/wave_runup/taw2002.py                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index fa1bdf4..1d4096d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -762,7 +762,7 @@ def calculate_influence_berm_gamma_b(
     )
     rB = B_berm / L_berm
 
-    gamma_b = np.max([np.min([1.0 - rB * (1.0 - rdh), 1.0]), 0.6])
+    gamma_b = np.clip(1.0 - rB * (1.0 - rdh), 0.6, 1.0)
     return gamma_b
 
 
-- 
2.43.0


From 846b89992451df77c0c6d60cbb55ef200056b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:57 +0000
Subject: [PATCH 12/44] fix: EurOtop (2018) maximum discharge uses the same
 roughness factor as its inverse

The discharge limit used gamma_f while the freeboard limit (and the rubble mound and
TAW limits) use the breaker-adjusted gamma_f, so q and Rc were not each other's inverse.
---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 1a0efa3..56d3d06 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -306,7 +306,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0,
         Rc=Rc,
         gamma_beta=gamma_beta,
-        gamma_f=gamma_f,
+        gamma_f=gamma_f_adj,
         gamma_star=gamma_star,
         c2=c2,
         c3=c3,
-- 
2.43.0


From 0f097dd05d1a4877bf5100610b38da5afe4204d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:06 +0000
Subject: [PATCH 13/44] fix: EurOtop (2018) overtopping respects a
 user-specified berm factor gamma_b

---
 .../hydraulic/wave_overtopping/eurotop2018.py | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 56d3d06..7900de4 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,24 +265,25 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
@@ -678,24 +679,25 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
-- 
2.43.0


From 529d52f38d077ff7e0d7c4f2afa0f556005c54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:12 +0000
Subject: [PATCH 14/44] fix: EurOtop (2018) run-up respects a user-specified
 gamma_beta

---
 .../functions/hydraulic/wave_runup/eurotop2018.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index b2caa1e..6012533 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -179,10 +179,11 @@ def calculate_dimensionless_wave_runup_height_z2p(
         c1=c1, c2=c2, c3=c3, c4=c4, use_best_fit=use_best_fit
     )
 
-    gamma_beta = calculate_influence_oblique_waves_gamma_beta(
-        beta=beta,
-        gamma_f=gamma_f,
-    )
+    if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
+        gamma_beta = calculate_influence_oblique_waves_gamma_beta(
+            beta=beta,
+            gamma_f=gamma_f,
+        )
 
     z2p_diml, max_reached = (
         wave_runup_taw2002.calculate_dimensionless_wave_runup_height_z2p(
-- 
2.43.0


From d47b0dbfc0b080c3e4c322d937d9b7660ffecf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:18 +0000
Subject: [PATCH 15/44] fix: EurOtop (2018) crest freeboard uses the same
 average slope as the discharge

The average slope was determined with the design run-up formula even if the best fit
coefficients were requested.
---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 7900de4..984c75d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -664,6 +664,7 @@ def calculate_dimensionless_crest_freeboard(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
@@ -1181,6 +1182,7 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
-- 
2.43.0


From e83347f8d5e6aa93040e9077b45a72c688105a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:52 +0000
Subject: [PATCH 16/44] fix: overtopping and run-up accept arrays for the
 influence factors documented as arrays

Deciding whether an optional factor was given used the truth value of an array, which
raised 'truth value of an array is ambiguous'.
---
 .../hydraulic/wave_overtopping/eurotop2018.py    |  4 ++--
 .../hydraulic/wave_overtopping/taw2002.py        |  4 ++--
 .../wave_overtopping/vangent2021_caisson.py      |  8 ++++----
 .../hydraulic/wave_overtopping/vangent2025.py    | 16 ++++++++--------
 .../functions/hydraulic/wave_runup/taw2002.py    |  2 +-
 .../hydraulic/wave_runup/vangent2001.py          |  6 ++++--
 6 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 984c75d..8abc27b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,7 +265,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -680,7 +680,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 224aa0c..5378ee1 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -338,7 +338,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -709,7 +709,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index 48e6ebc..db291ee 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -203,12 +203,12 @@ def calculate_dimensionless_overtopping_discharge_q(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.all(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
@@ -403,12 +403,12 @@ def calculate_dimensionless_crest_freeboard(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.all(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 044c035..cefa5af 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -331,14 +331,14 @@ def calculate_dimensionless_overtopping_discharge_q(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -348,8 +348,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.all(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
@@ -848,14 +848,14 @@ def calculate_dimensionless_crest_freeboard(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -865,8 +865,8 @@ def calculate_dimensionless_crest_freeboard(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.all(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 1d4096d..18ee84f 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -297,7 +297,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
index bbafab7..b2b6edb 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
@@ -104,10 +104,12 @@ def calculate_wave_runup_height_z2p(
         Raise an error when both or neither Hm0 and Hs are provided.
     """
 
-    if (np.isnan(Hm0) and np.isnan(Hs)) or (not np.isnan(Hs) and not np.isnan(Hm0)):
+    if (np.all(np.isnan(Hm0)) and np.all(np.isnan(Hs))) or (
+        not np.all(np.isnan(Hs)) and not np.all(np.isnan(Hm0))
+    ):
         raise ValueError("Either Hm0 or Hs should be provided")
 
-    if np.isnan(Hs) and not np.isnan(Hm0):
+    if np.all(np.isnan(Hs)) and not np.all(np.isnan(Hm0)):
         # Use coefficients for Hm0 instead of Hs
         c0 = 1.45
         c1 = 3.8
-- 
2.43.0


From 8f628e9938fe41c6c78dfd19656dec4d55fb49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:20 +0000
Subject: [PATCH 17/44] fix: Goda (1967) transmission keeps fractions when the
 first element is fully transmitted

np.vectorize takes its output type from the first element; the integer 1 truncated all
other coefficients of the array to integers.
---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index a645d08..952eb1d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -51,7 +51,7 @@ def calculate_wave_transmission_Kt(
         Rc_over_Hsi = Rc / Hsi
 
         if Rc_over_Hsi <= -1 * alpha_1 - beta_1:
-            Kt = 1
+            Kt = 1.0
         elif Rc_over_Hsi <= alpha_1 - beta_1:
             Kt = 0.5 * (1 - np.sin((np.pi / 2) * ((Rc_over_Hsi + beta_1) / (alpha_1))))
         else:
-- 
2.43.0


From 41e2c2af59cf96b297cc9a6b4548f32c56b9638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:29 +0000
Subject: [PATCH 18/44] fix: Van Gent et al. (2023) transmission performs its
 validity range check

---
 .../functions/hydraulic/wave_transmission/vangent2023.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
index c8b61b1..589c09d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
@@ -161,4 +161,12 @@ def calculate_wave_transmission_Kt(
 
     Kt = c1 * np.tanh(-((Rc / Hm0) + c2 * np.power(B / Lmm10, c3) + c4)) + c5
 
+    check_validity_range(
+        Hm0=Hm0,
+        Tmm10=Tmm10,
+        Rc=Rc,
+        B=B,
+        structure_type=structure_type,
+    )
+
     return Kt
-- 
2.43.0


From 617a3d499ffcbdfeef802d38454e48c2bff25208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:39 +0000
Subject: [PATCH 19/44] fix: Van Gent (2024) checks the crest width range when
 the crest width is given

---
 .../functions/hydraulic/wave_transmission/vangent2024_setup.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
index 05958f8..3ed4f18 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
@@ -85,7 +85,7 @@ def check_validity_range(
                     3.0,
                 )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(hc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B)):
         match structure_type:
             case "permeable":
                 core_utility.check_variable_validity_range(
-- 
2.43.0


From ccfe62e8f209bbe51ae1410d5945e9425bfbf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:08 +0000
Subject: [PATCH 20/44] fix: overtopping input files can be written for integer
 and mixed scalar/array input

Whether to write a single row was decided from beta being a Python float only, so an
integer beta or a scalar beta next to arrays failed.
---
 .../wave_overtopping/denbieman2021.py         | 20 ++++++++++++++++++-
 .../hydraulic/wave_overtopping/vangent2007.py | 19 +++++++++++++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
index 76d2ef1..19cd3c1 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
@@ -80,7 +80,25 @@ def write_input_file_XGB_Overtopping(
         Name of the input file, by default "input_XGB_Overtopping"
     """
 
-    if isinstance(beta, float):
+    columns = [
+        beta,
+        h,
+        Hm0,
+        Tmm10,
+        Bt,
+        ht,
+        B_berm,
+        db,
+        Rc,
+        Ac,
+        Gc,
+        cot_alpha_down,
+        cot_alpha_up,
+        gamma_f_down,
+        gamma_f_up,
+        tan_alpha_f,
+    ]
+    if all(np.ndim(column) == 0 for column in columns):
         index = [0]
     else:
         index = None
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 8409d70..4e9baee 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -123,7 +123,24 @@ def write_input_file_NN_Overtopping(
             + "------------------------------------------------\n"
         )
 
-    if isinstance(beta, float):
+    columns = [
+        beta,
+        h,
+        Hm0,
+        Tmm10,
+        Bt,
+        ht,
+        B_berm,
+        db,
+        Rc,
+        Ac,
+        Gc,
+        cot_alpha_down,
+        cot_alpha_up,
+        gamma_f,
+        tan_alpha_B,
+    ]
+    if all(np.ndim(column) == 0 for column in columns):
         index = [0]
     else:
         index = None
-- 
2.43.0


From a3b019fdce7b55ef27376a1a966df6f2d1f419ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:25 +0000
Subject: [PATCH 21/44] fix: Core-Loc unit mass and wave height perform the
 slope validity check like Accropode

---
 .../stability_concrete_armour/core_loc_hudson1959.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
index 607e0e5..cd1d601 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
@@ -118,6 +118,8 @@ def calculate_unit_mass_M(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return M
 
 
@@ -178,6 +180,8 @@ def calculate_significant_wave_height_Hs(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return Hs
 
 
-- 
2.43.0


From c44d3543ac13dff89ab65d3a26b0a58f49c1b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:18 +0000
Subject: [PATCH 22/44] fix: Etemad-Shahidi (2021) steepness and toe width
 validity checks work

The steepness check called the steepness function with a parameter it does not have and
the toe width check was guarded by the wrong parameter.
---
 .../structural/stability_toe_berm/etemadshahidi2021.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index fd13f24..4dac38b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -62,7 +62,7 @@ def check_validity(
         )
 
     if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Tmm10)):
-        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, Tmm10=Tmm10)
+        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10)
         core_utility.check_variable_validity_range(
             "Wave steepness sm-1,0",
             "Etemad-Shahidi et al. (2021)",
@@ -98,7 +98,7 @@ def check_validity(
             23.40,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(ht)):
+    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Bt)):
         core_utility.check_variable_validity_range(
             "Relative toe width Bt/Hs",
             "Etemad-Shahidi et al. (2021)",
-- 
2.43.0


From a55d52ad189676f5199c77f84362aca0e1a1627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:24 +0000
Subject: [PATCH 23/44] fix: Etemad-Shahidi (2021) wave height iteration
 respects max_iter

---
 .../functions/structural/stability_toe_berm/etemadshahidi2021.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 4dac38b..e9007c9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -431,6 +431,7 @@ def calculate_significant_wave_height_Hs(
     Hs_prev = Hs_init
 
     while np.max(Hs_diff) > 1e-3 and n_iter < max_iter:
+        n_iter += 1
 
         Hs = (
             Delta
-- 
2.43.0


From cb9c46b3d21d0647a55836874d84dbdc0436ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:32 +0000
Subject: [PATCH 24/44] fix: Van der Meer (1998) toe validity checks name and
 compute the right quantities

---
 .../structural/stability_toe_berm/vandermeer1998.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index 57e7cf1..cc479eb 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -42,7 +42,7 @@ def check_validity(
 
     if not np.any(np.isnan(Hs)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (h)",
+            "Significant wave height Hs",
             "van der Meer (1998)",
             Hs,
             0.01,
@@ -51,7 +51,7 @@ def check_validity(
 
     if not np.any(np.isnan(ht)) and not np.any(np.isnan(h)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (Dn50)",
+            "Relative toe height (h)",
             "van der Meer (1998)",
             ht / h,
             0.4,
@@ -76,7 +76,7 @@ def check_validity(
         core_utility.check_variable_validity_range(
             "Nod vs Ns",
             "van der Meer (1998)",
-            (Nod**-0.15) * (Hs / Delta * Dn50),
+            (Nod**-0.15) * (Hs / (Delta * Dn50)),
             2,
             np.inf,
         )
-- 
2.43.0


From 533d62f3c21c415b655848bf9473a3af110a16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 25/44] fix: Takahashi (1990) wave height search does not run
 off its table

Failed with IndexError/ValueError when the lower stability limit governs or when the best
coarse estimate is the last (or only) table entry.
---
 .../stability_toe_berm/takahashi1990_caisson.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index a466f3c..4f64272 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -177,6 +177,10 @@ def calculate_significant_wave_height_Hs(
     )
     Hs_new = core_physics.check_usage_stabilitynumber(Dn=Dn50, Ns=Ns, Delta=Delta)[0]
 
+    if Hs_new == Hs_start:
+        # lower limit of the stability number governs
+        return Hs_start
+
     # span coarse between Hs_prev and Hs_new*2
     Hs_table_in = np.arange(
         start=np.minimum(Hs_start, Hs_new),
@@ -196,9 +200,11 @@ def calculate_significant_wave_height_Hs(
 
     ind = np.argmin(np.abs(Hs_table_in - Hs_table_out))
 
+    ind_prev = np.maximum(ind - 1, 0)
+    ind_next = np.minimum(ind + 1, len(Hs_table_in) - 1)
     fromto = [
-        np.minimum(Hs_table_in[ind - 1], Hs_table_out[ind - 1]),
-        np.maximum(Hs_table_in[ind + 1], Hs_table_out[ind + 1]),
+        np.minimum(Hs_table_in[ind_prev], Hs_table_out[ind_prev]),
+        np.maximum(Hs_table_in[ind_next], Hs_table_out[ind_next]),
     ]
 
     Hs_table_in = np.arange(start=fromto[0], stop=fromto[1], step=0.0005)
-- 
2.43.0


From aaff06d0367fc1b0b3d3c8d6ec04294c9aed4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 26/44] fix: Takahashi (1990) depth search stops when there is
 no solution

The stability number never drops below 1.8, so a smaller required stability number made
the search run forever.
---
 .../structural/stability_toe_berm/takahashi1990_caisson.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index 4f64272..e2ff429 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -300,6 +300,8 @@ def calculate_significant_depth_above_toe_hacc(
 
     while firsteval == (Ns < Ns_out):
         hacc_in += dht
+        if hacc_in > 100 * Hs:
+            raise ValueError("No depth above the toe gives the requested stability")
         Ns_out = calculate_stability_number_Ns(
             Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
         )
-- 
2.43.0


From 16131e2aabf839272c671f58568a458a4a73b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:46 +0000
Subject: [PATCH 27/44] fix: crest wall forces under oblique waves are not
 negative

When the run-up reduced for the wave angle stays below the armour crest there is no
force; like the perpendicular forces, the oblique ones are limited at zero.
---
 .../structural/forces_crestwall/vangentvanderwerf2019.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
index e1cf5ab..a91242b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
@@ -418,7 +418,7 @@ def calculate_FH2p_oblique(
         z2p=z2p, Ac=Ac, beta=beta
     )
 
-    FH2p_oblique = gamma_FH_beta * FH2p_perpendicular
+    FH2p_oblique = np.maximum(gamma_FH_beta * FH2p_perpendicular, 0.0)
 
     check_validity(Hm0=Hm0, Ac=Ac, Rc=Rc, beta=beta)
 
@@ -636,7 +636,7 @@ def calculate_FV2p_oblique(
         z2p=z2p, Ac=Ac, beta=beta
     )
 
-    FV2p_oblique = gamma_FV_beta * FV2p_perpendicular
+    FV2p_oblique = np.maximum(gamma_FV_beta * FV2p_perpendicular, 0.0)
 
     check_validity(Hm0=Hm0, Ac=Ac, beta=beta, Fb=Fb)
 
-- 
2.43.0


From a8a185d65140a804f0610a0ff4b7900cc04823d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:17 +0000
Subject: [PATCH 28/44] fix: Van Gent (2007) rear side wave height works
 without a protruding crest element

Rc2_front = 0 was used as first estimate of the wave height and divided by.
---
 .../functions/structural/stability_rock_rear/vangent2007.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 2fd7e39..48dc6c5 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -365,7 +365,7 @@ def calculate_maximum_significant_wave_height_Hs(
 
     Dn50 = core_physics.check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
 
-    Hs_i1 = Rc2_front
+    Hs_i1 = np.where(Rc2_front > 0, Rc2_front, Rc)
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-- 
2.43.0


From ba0905ef9170dddf557730e383b7277ff29b8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:15 +0000
Subject: [PATCH 29/44] fix: TAW (2002) accepts arrays for the berm width and
 sigma

---
 .../functions/hydraulic/wave_overtopping/taw2002.py           | 4 ++--
 .../functions/hydraulic/wave_runup/taw2002.py                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 5378ee1..96218df 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -296,7 +296,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     cor1 = 0
     cor3 = 0
-    if sigma != 0:
+    if np.any(np.asarray(sigma) != 0):
         if use_best_fit:
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
@@ -667,7 +667,7 @@ def calculate_dimensionless_crest_freeboard(
 
     cor1 = 0
     cor3 = 0
-    if sigma != 0:
+    if np.any(np.asarray(sigma) != 0):
         if use_best_fit:
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 18ee84f..de7a1e8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -681,7 +681,7 @@ def iteration_procedure_gamma_b(
         The influence factor for a berm gamma_b (-)
     """
 
-    if B_berm == 0.0 or L_berm == 0.0:
+    if np.all(np.asarray(B_berm) == 0.0) or np.all(np.asarray(L_berm) == 0.0):
         gamma_b = 1.0
     else:
         z2p_i1, _ = calculate_wave_runup_height_z2p(
-- 
2.43.0


From e02c4fe82ead7dfdbed803b0097ce1e4d02085c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:15 +0000
Subject: [PATCH 30/44] fix: EurOtop (2018) oblique wave influence accepts an
 array of roughness factors

---
 .../functions/hydraulic/wave_runup/eurotop2018.py      | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index 6012533..0b4c2bb 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -275,12 +275,10 @@ def calculate_influence_oblique_waves_gamma_beta(
         The influence factor for oblique wave incidence gamma_beta (-)
     """
 
-    if gamma_f > gamma_f_crit:
-        # Structure slope is smooth
-        c_gamma_beta = c_gamma_beta_smooth
-    else:
-        # Structure slope is rough
-        c_gamma_beta = c_gamma_beta_rough
+    # Distinguish between smooth and rough structure slopes
+    c_gamma_beta = np.where(
+        np.asarray(gamma_f) > gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough
+    )
 
     gamma_beta = wave_runup_taw2002.calculate_influence_oblique_waves_gamma_beta(
         beta=beta,
-- 
2.43.0


From d5499ff8affc736287217c953629627a38119355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:31 +0000
Subject: [PATCH 31/44] fix: limits of the overtopping equations are broadcast
 when only one of them depends on an array

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py   | 8 ++++----
 .../functions/hydraulic/wave_overtopping/taw2002.py       | 8 ++++----
 .../functions/hydraulic/wave_overtopping/vangent2025.py   | 6 +++---
 .../functions/hydraulic/wave_runup/taw2002.py             | 4 ++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 8abc27b..597ee83 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -313,8 +313,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         c3=c3,
     )
 
-    q_diml = np.min([q_diml_eq510, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq510, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq510, q_diml_max)
+    max_reached = np.minimum(q_diml_eq510, q_diml_max) == q_diml_max
 
     return q_diml, max_reached
 
@@ -733,8 +733,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq510, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq510, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq510, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml_eq510, Rc_diml_max) == Rc_diml_max
 
     return Rc_diml, max_reached
 
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 96218df..64d973d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -377,8 +377,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0, Rc=Rc, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
     )
 
-    q_diml = np.min([q_diml_eq24, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq24, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq24, q_diml_max)
+    max_reached = np.minimum(q_diml_eq24, q_diml_max) == q_diml_max
 
     check_validity_range(
         Hm0=Hm0,
@@ -754,8 +754,8 @@ def calculate_dimensionless_crest_freeboard(
         Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj, g=g
     )
 
-    Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq24, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq24, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml_eq24, Rc_diml_max) == Rc_diml_max
 
     check_validity_range(
         Hm0=Hm0,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index cefa5af..0bd631b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -376,8 +376,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         gamma_beta=gamma_beta,
     )
 
-    q_diml = np.min([q_diml_eqB1, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eqB1, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eqB1, q_diml_max)
+    max_reached = np.minimum(q_diml_eqB1, q_diml_max) == q_diml_max
 
     if include_influence_wind:
         gamma_w = calculate_influence_wind_gamma_w(
@@ -908,7 +908,7 @@ def calculate_dimensionless_crest_freeboard(
         )
 
         Rc_diml_prev = Rc_diml if n_iter > 1 else np.inf
-        Rc_diml = np.min([Rc_diml_eqB1, Rc_diml_max], axis=0)
+        Rc_diml = np.minimum(Rc_diml_eqB1, Rc_diml_max)
         max_reached = Rc_diml == Rc_diml_max
 
         if not include_influence_wind:
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index de7a1e8..735ffde 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -329,8 +329,8 @@ def calculate_dimensionless_wave_runup_height_z2p(
     z2p_diml_eq3a = c1 * gamma_b * gamma_f_adj * gamma_beta * ksi_mm10
     z2p_diml_eq3b = c4 * gamma_f_adj * gamma_beta * (c2 - c3 / np.sqrt(ksi_mm10))
 
-    z2p_diml = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0)
-    max_reached = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0) == z2p_diml_eq3b
+    z2p_diml = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b)
+    max_reached = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b) == z2p_diml_eq3b
 
     check_validity_range(
         Hm0=Hm0,
-- 
2.43.0


From 39b8dacf455d17ec3c071bde86125869ebf1ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:49 +0000
Subject: [PATCH 32/44] fix: Goda (1967) transmission accepts arrays for its
 coefficients

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index 952eb1d..deca113 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -44,6 +44,8 @@ def calculate_wave_transmission_Kt(
     check_is_array = [
         isinstance(Rc, np.ndarray),
         isinstance(Hsi, np.ndarray),
+        isinstance(alpha_1, np.ndarray),
+        isinstance(beta_1, np.ndarray),
     ]
 
     if not any(check_is_array):
-- 
2.43.0


From fd359ac65b65a918c19b39d2a725ade4440f28db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 33/44] fix: Hudson (1959) damage factors can be looked up at
 100% damage

---
 .../functions/structural/stability_rock_armour/hudson1959.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
index d8deb79..a17e7a6 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
@@ -138,6 +138,7 @@ def lookup_table_damage_factors(
     mult_factors_smooth = np.array([1.0, 1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56, 1.56])
 
     ind = np.searchsorted(percentages, damage_percentage, "right")
+    ind = np.minimum(ind, percentages.size - 1)
     if rock_type.lower().strip() == "rough":
         factor = mult_factors_rough[ind]
     elif rock_type.lower().strip() == "smooth":
-- 
2.43.0


From eab22b13560ebea4bf3f61266ba59326e589a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 34/44] fix: rock armour validity checks use the requested
 water density

---
 .../structural/stability_rock_armour/scaravaglione2025.py        | 1 +
 .../structural/stability_rock_armour/vandermeer1988_modified.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index c21e5a2..f3816b3 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -204,6 +204,7 @@ def calculate_damage_number_S(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
index cd3b905..a2d1aaf 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
@@ -218,6 +218,7 @@ def calculate_damage_number_S(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
-- 
2.43.0


From c2be6e8b001e4d0989510a25c888dfe094c4dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:15 +0000
Subject: [PATCH 35/44] fix: rock size and wave height validity checks use the
 requested water density

---
 .../structural/stability_rock_armour/scaravaglione2025.py       | 2 ++
 .../structural/stability_rock_armour/vandermeer1988_modified.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index f3816b3..dbe10f9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -281,6 +281,7 @@ def calculate_nominal_rock_diameter_Dn50(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -369,5 +370,6 @@ def calculate_significant_wave_height_Hm0(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hm0
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
index a2d1aaf..f6c1cef 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
@@ -321,6 +321,7 @@ def calculate_nominal_rock_diameter_Dn50(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -444,5 +445,6 @@ def calculate_significant_wave_height_Hs(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hs
-- 
2.43.0


From 880e11b53416f97af84985ece28c585d3d39dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:21 +0000
Subject: [PATCH 36/44] fix: Jumelet et al. (2024) wave height accepts integer
 wave periods

---
 .../functions/structural/stability_rock_armour/jumelet2024.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
index dc69e38..f748190 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
@@ -294,7 +294,7 @@ def calculate_significant_wave_height_Hs(
             * np.power(S, 0.2)
             * np.power(N_plunging, -0.1)
             * cot_alpha
-            * np.sqrt((2 * np.pi / g) * np.power(Tmm10, -2))
+            * np.sqrt((2 * np.pi / g) * np.power(Tmm10, -2.0))
             * Delta
             * Dn50,
             2.0,
-- 
2.43.0


From 5a4df2e9101f37a2d47d7b8f9bef38da05537bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:50 +0000
Subject: [PATCH 37/44] fix: Takahashi depth search ends for undefined wave
 heights

---
 .../structural/stability_toe_berm/takahashi1990_caisson.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index e2ff429..a589ff5 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -300,7 +300,7 @@ def calculate_significant_depth_above_toe_hacc(
 
     while firsteval == (Ns < Ns_out):
         hacc_in += dht
-        if hacc_in > 100 * Hs:
+        if not hacc_in < 100 * Hs:
             raise ValueError("No depth above the toe gives the requested stability")
         Ns_out = calculate_stability_number_Ns(
             Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
-- 
2.43.0


From 3b4422894b22ae3eb2c2e752b3a0850609b52156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:17 +0000
Subject: [PATCH 38/44] fix: iterations continue for the other elements when
 one is undefined

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py       | 2 +-
 .../functions/hydraulic/wave_runup/taw2002.py                 | 2 +-
 .../structural/stability_rock_armour/etemadshahidi2020.py     | 4 ++--
 .../functions/structural/stability_rock_armour/jumelet2024.py | 2 +-
 .../stability_rock_armour/kramerburcharth2004_lowcrested.py   | 4 ++--
 .../functions/structural/stability_rock_rear/vangent2007.py   | 2 +-
 .../structural/stability_rock_rear/vangentpozueta2004.py      | 2 +-
 .../structural/stability_toe_berm/etemadshahidi2021.py        | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 0bd631b..5f25cb6 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -880,7 +880,7 @@ def calculate_dimensionless_crest_freeboard(
 
     Rc_diff = np.inf
     n_iter = 0
-    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+    while np.any(Rc_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Rc_diml_eqB1 = (
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 735ffde..1a9c8cb 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -454,7 +454,7 @@ def iteration_procedure_z2p(
 
     while (
         n_iter <= max_iter
-        and np.max(abs(z2p_estimate_i1 - z2p_estimate_i0)) > tolerance
+        and np.any(abs(z2p_estimate_i1 - z2p_estimate_i0) > tolerance)
     ):
         z2p_estimate_i0 = z2p_estimate_i1
 
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
index 9646c92..1d32bb6 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
@@ -376,7 +376,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_s_prev = np.inf
     Cp_s = Cp_init
 
-    while np.max(Dn50_s_diff) > tolerance and n_iter_s < max_iter:
+    while np.any(Dn50_s_diff > tolerance) and n_iter_s < max_iter:
         n_iter_s += 1
 
         Dn50_s = (
@@ -399,7 +399,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_pl_prev = np.inf
     Cp_pl = Cp_init
 
-    while np.max(Dn50_pl_diff) > tolerance and n_iter_pl < max_iter:
+    while np.any(Dn50_pl_diff > tolerance) and n_iter_pl < max_iter:
         n_iter_pl += 1
 
         Dn50_pl = (
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
index f748190..7f7a7c7 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
@@ -282,7 +282,7 @@ def calculate_significant_wave_height_Hs(
     Hs_diff = np.inf
     Hs_prev = Hs_init
 
-    while np.max(Hs_diff) > tolerance and n_iter < max_iter:
+    while np.any(Hs_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Fp = calculate_fraction_plunging_waves_Fp(ksi_mm10=ksi_mm10)
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
index 5d7f03a..3939abc 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
@@ -82,7 +82,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_prev = np.inf
     Dn50 = Hs / (Delta * Ns_init)
 
-    while np.max(Dn50_diff) > tolerance and n_iter < max_iter:
+    while np.any(Dn50_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Dn50 = (1.0 / 1.36) * ((Hs / Delta) - Rc * (0.06 * (Rc / Dn50) - 0.23))
@@ -192,7 +192,7 @@ def calculate_crest_freeboard_Rc(
     Rc_prev = np.inf
     Rc = Rc_Dn50_init * Dn50
 
-    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+    while np.any(Rc_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Rc = ((Hs / Delta) - 1.36 * Dn50) / (0.06 * (Rc / Dn50) - 0.23)
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 48dc6c5..4629a9b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -369,7 +369,7 @@ def calculate_maximum_significant_wave_height_Hs(
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-    while iteration < max_iterations and np.max(np.abs(Hs_i1 - Hs_i0)) > tolerance:
+    while iteration < max_iterations and np.any(np.abs(Hs_i1 - Hs_i0) > tolerance):
 
         iteration += 1
         Hs_i0 = Hs_i1
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
index bc05cb3..1e3b567 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
@@ -413,7 +413,7 @@ def calculate_maximum_significant_wave_height_Hs(
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-    while iteration < max_iterations and np.max(np.abs(Hs_i1 - Hs_i0)) > tolerance:
+    while iteration < max_iterations and np.any(np.abs(Hs_i1 - Hs_i0) > tolerance):
 
         iteration += 1
         Hs_i0 = Hs_i1
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index e9007c9..3743011 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -430,7 +430,7 @@ def calculate_significant_wave_height_Hs(
     Hs_diff = np.inf
     Hs_prev = Hs_init
 
-    while np.max(Hs_diff) > 1e-3 and n_iter < max_iter:
+    while np.any(Hs_diff > 1e-3) and n_iter < max_iter:
         n_iter += 1
 
         Hs = (
-- 
2.43.0


From 082c2c20fa280c07f5cec3d2e3c3d85752a99727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:55 +0000
Subject: [PATCH 39/44] fix: Xbloc and XblocPlus correction factors accept
 arrays as documented

---
 .../stability_concrete_armour/xbloc.py        | 40 +++++++------------
 .../stability_concrete_armour/xblocplus.py    | 23 ++++-------
 2 files changed, 22 insertions(+), 41 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
index e064d88..14aa79c 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
@@ -210,15 +210,11 @@ def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha <= 30 and cot_alpha > 20:
-        correction_factor = 1.1
-    elif cot_alpha <= 20 and cot_alpha > 15:
-        correction_factor = 1.25
-    elif cot_alpha <= 15 and cot_alpha > 10:
-        correction_factor = 1.5
-    elif cot_alpha <= 10:
-        correction_factor = 2.0
+    correction_factor = np.select(
+        [cot_alpha <= 10, cot_alpha <= 15, cot_alpha <= 20, cot_alpha <= 30],
+        [2.0, 1.5, 1.25, 1.1],
+        default=1.0,
+    )[()]
 
     return correction_factor
 
@@ -271,12 +267,9 @@ def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(
     correction_factor = float | npt.NDArray[np.float64]
         Correction factor applied on volume or mass
     """
-    correction_factor = 1.0
-
-    if rel_freeboard < 0.5:
-        correction_factor = 2.0
-    elif rel_freeboard < 1.0:
-        correction_factor = 1.5
+    correction_factor = np.select(
+        [rel_freeboard < 0.5, rel_freeboard < 1.0], [2.0, 1.5], default=1.0
+    )[()]
 
     return correction_factor
 
@@ -297,12 +290,9 @@ def calculate_correctionfactor_unit_mass_M_by_rel_depth(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-
-    if rel_depth > 2.5:
-        correction_factor = 1.5
-    if rel_depth > 3.5:
-        correction_factor = 2.0
+    correction_factor = np.select(
+        [rel_depth > 3.5, rel_depth > 2.5], [2.0, 1.5], default=1.0
+    )[()]
 
     return correction_factor
 
@@ -376,10 +366,8 @@ def calculate_correctionfactor_unit_mass_M_by_structure_slope(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha > 2 / 3:
-        correction_factor = 1.25
-    elif cot_alpha > 1 / 2:
-        correction_factor = 1.5
+    correction_factor = np.select(
+        [cot_alpha > 2 / 3, cot_alpha > 1 / 2], [1.25, 1.5], default=1.0
+    )[()]
 
     return correction_factor
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
index c6a16aa..ead6673 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
@@ -209,15 +209,11 @@ def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha <= 30 and cot_alpha > 20:
-        correction_factor = 1.1
-    elif cot_alpha <= 20 and cot_alpha > 15:
-        correction_factor = 1.25
-    elif cot_alpha <= 15 and cot_alpha > 10:
-        correction_factor = 1.5
-    elif cot_alpha <= 10:
-        correction_factor = 2.0
+    correction_factor = np.select(
+        [cot_alpha <= 10, cot_alpha <= 15, cot_alpha <= 20, cot_alpha <= 30],
+        [2.0, 1.5, 1.25, 1.1],
+        default=1.0,
+    )[()]
 
     return correction_factor
 
@@ -270,12 +266,9 @@ def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(
     correction_factor = float | npt.NDArray[np.float64]
         Correction factor applied on volume or mass
     """
-    correction_factor = 1.0
-
-    if rel_freeboard < 0.5:
-        correction_factor = 1.5
-    elif rel_freeboard < 1.0:
-        correction_factor = 1.25
+    correction_factor = np.select(
+        [rel_freeboard < 0.5, rel_freeboard < 1.0], [1.5, 1.25], default=1.0
+    )[()]
 
     return correction_factor
 
-- 
2.43.0


From d882004a30cbf057d4e0b1ad3a7f0ee0bb818369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:28 +0000
Subject: [PATCH 40/44] fix: Van der Meer (1998) depth above toe accepts arrays
 as documented

---
 .../structural/stability_toe_berm/vandermeer1998.py          | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index cc479eb..7ac3774 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -272,10 +272,7 @@ def calculate_depth_above_toe_ht(
     )
 
     ht = (((Hs * Nod**-0.15) / (Delta * Dn50)) - 2) / 6.2
-    if ht > 0:
-        ht = ht ** (1 / 2.7) * h
-    else:
-        ht = np.nan
+    ht = np.where(ht > 0, np.abs(ht) ** (1 / 2.7) * h, np.nan)[()]
 
     check_validity(Hs=Hs, ht=ht, h=h, Dn50=Dn50, Nod=Nod, Delta=Delta)
 
-- 
2.43.0


From acbd4cfdea7b42344c69d3a378e2eb4586e13f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:03 +0000
Subject: [PATCH 41/44] fix: Goda caisson computations accept arrays as
 documented

---
 .../structural/forces_caisson/goda1985.py     | 102 +++++++-----------
 1 file changed, 39 insertions(+), 63 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index 610a210..e3da321 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -90,7 +90,7 @@ def check_impulsive_breaking(
     Hsi: float | npt.NDArray[np.float64] = np.nan,
     d: float | npt.NDArray[np.float64] = np.nan,
     h_s: float | npt.NDArray[np.float64] = np.nan,
-) -> bool:
+) -> bool | npt.NDArray[np.bool_]:
     """Check whether impulsive breaking occurs
 
     Parameters
@@ -116,58 +116,41 @@ def check_impulsive_breaking(
 
     Returns
     -------
-    bool
+    bool | npt.NDArray[np.bool_]
         Boolean indicating whether impulsive breaking occurs
     """
 
-    all_is_nans = [
-        np.isnan(beta),
-        np.isnan(B1),
-        np.isnan(L),
-        np.isnan(cota_seabed),
-        np.isnan(offshore_wave_steepness),
-        np.isnan(Rc),
-        np.isnan(Hsi),
-    ]
+    # a condition with a missing (NaN) input is not met
+    condition_1 = (
+        np.less(beta, 20)
+        & np.less(B1 / L, 0.02)
+        & np.less(cota_seabed, 50)
+        & np.less(offshore_wave_steepness, 0.03)
+        & np.greater(Rc / Hsi, 0.3)
+    )
+    if np.any(condition_1):
+        core_utility.check_variable_validity_range(
+            "Impulsive breaking condition 1", "Goda (2000)", True, False, False
+        )
 
-    if not any(all_is_nans):
-        if (
-            beta < 20
-            and B1 / L < 0.02
-            and cota_seabed < 50
-            and offshore_wave_steepness < 0.03
-            and Rc / Hsi > 0.3
-        ):
-
-            core_utility.check_variable_validity_range(
-                "Impulsive breaking condition 1", "Goda (2000)", True, False, False
-            )
-            return True
-
-    all_is_nans = [
-        np.isnan(beta),
-        np.isnan(B1),
-        np.isnan(L),
-        np.isnan(d),
-        np.isnan(h_s),
-        np.isnan(Rc),
-        np.isnan(Hsi),
-    ]
+    condition_2 = (
+        np.less(beta, 20)
+        & np.less(0.02, B1 / L)
+        & np.less(B1 / L, 0.3)
+        & np.less(d / h_s, 0.6)
+        & np.greater(Rc / Hsi, 0.3)
+    )
+    if np.any(condition_2):
+        core_utility.check_variable_validity_range(
+            "Impulsive breaking condition 2", "Goda (2000)", True, False, False
+        )
+
+    impulsive_breaking = condition_1 | condition_2
 
-    if not any(all_is_nans):
-        if (
-            beta < 20
-            and 0.02 < B1 / L
-            and B1 / L < 0.3
-            and d / h_s < 0.6
-            and Rc / Hsi > 0.3
-        ):
-            core_utility.check_variable_validity_range(
-                "Impulsive breaking condition 2", "Goda (2000)", True, False, False
-            )
-            return True
+    if np.ndim(impulsive_breaking) == 0:
+        return bool(impulsive_breaking)
 
-    return False
+    return impulsive_breaking
 
 
 def calculate_forces_and_reactions(
@@ -538,10 +521,7 @@ def calculate_pressures_and_forces(
 
     # beta, if not 0 should be rotated by 15 degrees towards the normal of the breakwater according to Goda (2000)
     beta = np.abs(beta)
-    if beta >= 15:
-        beta_use = beta - 15
-    elif beta < 15:
-        beta_use = 0
+    beta_use = np.maximum(beta - 15, 0)
     cos_beta = np.cos(np.deg2rad(beta_use))
 
     h_5Hs = h_s + (Hsi * 5) / cota_seabed
@@ -566,10 +546,7 @@ def calculate_pressures_and_forces(
     p1 = 0.5 * (1 + cos_beta) * (alpha_1 + alpha_2 * cos_beta**2) * rho_water * g * HD
     p2 = p1 / (np.cosh(2 * np.pi * h_s / L))
     p3 = alpha_3 * p1
-    if etastar > Rc:
-        p4 = p1 * (1 - (Rc / etastar))
-    else:
-        p4 = 0
+    p4 = np.where(etastar > Rc, p1 * (1 - (Rc / etastar)), 0)[()]
 
     hstar_c = np.minimum(etastar, Rc)
 
@@ -586,8 +563,7 @@ def calculate_pressures_and_forces(
     FU = 0.5 * pu * Bup
     MU = (2 / 3) * FU * Bup
 
-    impulsive_breaking = False
-    if check_impulsive_breaking(
+    impulsive_breaking = check_impulsive_breaking(
         beta=beta,
         B1=B1,
         cota_seabed=cota_seabed,
@@ -597,8 +573,7 @@ def calculate_pressures_and_forces(
         L=L,
         offshore_wave_steepness=offshore_wave_steepness,
         Rc=Rc,
-    ):
-        impulsive_breaking = True
+    )
 
     if not return_dict:
         return (
@@ -807,9 +782,10 @@ def calculate_bearing_pressures(
     We = Wup - FU
     te = Me / We
 
-    if te <= 1 / 3 * Bup:
-        pe = (2 * We) / (3 * te)
-    else:
-        pe = (2 * We / Bup) * (2 - 3 * (te / Bup))
+    pe = np.where(
+        te <= 1 / 3 * Bup,
+        (2 * We) / (3 * te),
+        (2 * We / Bup) * (2 - 3 * (te / Bup)),
+    )[()]
 
     return pe, Me, We, te
-- 
2.43.0


From 59fda160163930cd61c3fbe3380a4dd20b4d2aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:58 +0000
Subject: [PATCH 42/44] fix: validity ranges accept arrays of more dimensions
 and numpy numbers as documented

---
 deltares_coastal_structures_toolbox/functions/core_utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_utility.py b/deltares_coastal_structures_toolbox/functions/core_utility.py
index 3d02426..c4075af 100644
--- a/deltares_coastal_structures_toolbox/functions/core_utility.py
+++ b/deltares_coastal_structures_toolbox/functions/core_utility.py
@@ -32,8 +32,8 @@ def check_variable_validity_range(
         A boolean with True if the value is within the validity range, False otherwise.
     """
 
-    if isinstance(values, np.ndarray):
-        values = values.tolist()
+    if isinstance(values, (np.ndarray, np.generic)):
+        values = np.ravel(values).tolist()
 
     if isinstance(values, (int, float)):
         values = [values]
-- 
2.43.0


From 73c8bd6231cb69e35cc9edabd086a96e6c865ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:24 +0000
Subject: [PATCH 43/44] fix: transmission over arrays evaluates, and warns for,
 the first element once

---
 .../functions/hydraulic/wave_transmission/briganti2003.py       | 2 +-
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/briganti2003.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/briganti2003.py
index 7118649..029972f 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/briganti2003.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/briganti2003.py
@@ -115,7 +115,7 @@ def calculate_wave_transmission_Kt(
         check_validity(s0p=s0p, ksi_0p=ksi_0p)
     else:
         # arrays, so vectorize this function
-        vfunc = np.vectorize(calculate_wave_transmission_Kt)
+        vfunc = np.vectorize(calculate_wave_transmission_Kt, otypes=[float])
         Kt = vfunc(Hsi, Tpi, Rc, B, cot_alpha)
 
     return Kt
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index deca113..80d794a 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -61,7 +61,7 @@ def calculate_wave_transmission_Kt(
 
     else:
         # arrays, so vectorize this function
-        vfunc = np.vectorize(calculate_wave_transmission_Kt)
+        vfunc = np.vectorize(calculate_wave_transmission_Kt, otypes=[float])
         Kt = vfunc(Hsi, Rc, alpha_1, beta_1)
 
     return Kt
-- 
2.43.0


From e97da62e67d64f1ac286dd340e444e63041773e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:55 +0000
Subject: [PATCH 44/44] fix: an undefined quantity keeps its column in the NN
 overtopping input file

---
 .../functions/hydraulic/wave_overtopping/vangent2007.py          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 4e9baee..10042fe 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -171,6 +171,7 @@ def write_input_file_NN_Overtopping(
         index=False,
         header=False,
         mode="a",
+        na_rep="nan",
     )
 
     return
-- 
2.43.0

