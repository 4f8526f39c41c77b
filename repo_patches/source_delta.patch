From 95e357525f2fe2003350e0add3fb780ba7dc661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:46 +0000
Subject: [PATCH 01/49] fix: TAW 2002 overtopping with sigma and design
 coefficients crashed

After warning that sigma only applies to the best fit coefficients the
corrections cor1/cor3 were left unset, so the call ended in an
UnboundLocalError instead of using the design coefficients.
---
 .../functions/hydraulic/wave_overtopping/taw2002.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 11bf436..ba9daf8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -302,6 +302,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
         else:
+            cor1 = 0
+            cor3 = 0
             warnings.warn(
                 (
                     "Sigma is only applicable to the best fit coefficients! The design values of the coefficients "
@@ -674,6 +676,8 @@ def calculate_dimensionless_crest_freeboard(
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
         else:
+            cor1 = 0
+            cor3 = 0
             warnings.warn(
                 (
                     "Sigma is only applicable to the best fit coefficients! The design values of the coefficients "
-- 
2.43.0


From 3df21f249c21d288f5a72b172b693544e14d40e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:55 +0000
Subject: [PATCH 02/49] fix: TAW 2002 crest freeboard ignored g in the maximum
 equation

---
 .../functions/hydraulic/wave_overtopping/taw2002.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index ba9daf8..7133e6a 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -757,7 +757,13 @@ def calculate_dimensionless_crest_freeboard(
     )
 
     Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
+        Hm0=Hm0,
+        q=q,
+        c3=c3,
+        cor3=cor3,
+        gamma_beta=gamma_beta,
+        gamma_f=gamma_f_adj,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-- 
2.43.0


From ddb5c13a566c717b50ae4c8b214373116850f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:26 +0000
Subject: [PATCH 03/49] fix: EurOtop 2018 run-up ignored an explicitly given
 gamma_beta

---
 .../functions/hydraulic/wave_runup/eurotop2018.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index b2caa1e..6012533 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -179,10 +179,11 @@ def calculate_dimensionless_wave_runup_height_z2p(
         c1=c1, c2=c2, c3=c3, c4=c4, use_best_fit=use_best_fit
     )
 
-    gamma_beta = calculate_influence_oblique_waves_gamma_beta(
-        beta=beta,
-        gamma_f=gamma_f,
-    )
+    if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
+        gamma_beta = calculate_influence_oblique_waves_gamma_beta(
+            beta=beta,
+            gamma_f=gamma_f,
+        )
 
     z2p_diml, max_reached = (
         wave_runup_taw2002.calculate_dimensionless_wave_runup_height_z2p(
-- 
2.43.0


From 05177c9477e2cacb7f6890e09ca1a2c830b04eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:32 +0000
Subject: [PATCH 04/49] fix: TAW 2002 run-up failed for a single slope without
 explicit gamma_b

The berm length was computed without cot_alpha, so a single slope raised
the error for a missing slope.
---
 .../functions/hydraulic/wave_runup/taw2002.py                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 952a73b..fa1bdf4 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -300,6 +300,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
     if np.isnan(gamma_b):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
+            cot_alpha=cot_alpha,
             cot_alpha_down=cot_alpha_down,
             cot_alpha_up=cot_alpha_up,
             B_berm=B_berm,
-- 
2.43.0


From 7cf11d5dec6a3f0975f2a7f7b11ce18bfd2a39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:39 +0000
Subject: [PATCH 05/49] fix: incomplete composite slope gave NaN instead of the
 missing-slope error

---
 .../functions/hydraulic/wave_runup/taw2002.py                 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index fa1bdf4..0d38b05 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -571,7 +571,9 @@ def check_composite_slope(
         Raise error when no slopes are provided
     """
 
-    if np.all(np.isnan(cot_alpha)) and np.all(np.isnan(cot_alpha_down)):
+    if np.all(np.isnan(cot_alpha)) and (
+        np.all(np.isnan(cot_alpha_down)) or np.all(np.isnan(cot_alpha_up))
+    ):
         raise ValueError(
             "Either a single (cot_alpha) or composite (cot_alpha_down & cot_alpha_up) slope should be provided"
         )
-- 
2.43.0


From ba98533cd2f7f6d0acff764c2761fb3c7009b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:46 +0000
Subject: [PATCH 06/49] fix: EurOtop 2018 overtopping ignored an explicitly
 given gamma_b

---
 .../hydraulic/wave_overtopping/eurotop2018.py | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 1a0efa3..8f3a9c8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,24 +265,25 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
@@ -678,24 +679,25 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
-- 
2.43.0


From 3b28fd32937162d927fc1f72f91a47247304c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:54 +0000
Subject: [PATCH 07/49] fix: EurOtop 2018 freeboard ignored use_best_fit in the
 composite slope

The discharge functions use the selected coefficient set for the average
slope; the inverse functions always used the design set, so freeboard and
discharge were not each other's inverse.
---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 8f3a9c8..91eb375 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -664,6 +664,7 @@ def calculate_dimensionless_crest_freeboard(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
@@ -1181,6 +1182,7 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
-- 
2.43.0


From aa9e1745bdc53354cc1d158c748ebdbb7b889bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:03 +0000
Subject: [PATCH 08/49] fix: EurOtop 2018 maximum discharge used the unadjusted
 roughness factor

The inverse and the rubble mound functions use the roughness factor
adjusted for the breaker parameter in the maximum equation; the discharge
function did not, so the two directions disagreed.
---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 91eb375..984c75d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -307,7 +307,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0,
         Rc=Rc,
         gamma_beta=gamma_beta,
-        gamma_f=gamma_f,
+        gamma_f=gamma_f_adj,
         gamma_star=gamma_star,
         c2=c2,
         c3=c3,
-- 
2.43.0


From 36817603b17553526596b8a5c9fa01f640de83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:13 +0000
Subject: [PATCH 09/49] fix: van Gent 2021 caisson overtopping was NaN without
 swell

Without crossing seas the swell term 0.0 * Hm0_swell is NaN for the
default Hm0_swell.
---
 .../functions/hydraulic/wave_overtopping/vangent2021_caisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index a7315c2..48e6ebc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -201,6 +201,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
@@ -400,6 +401,7 @@ def calculate_dimensionless_crest_freeboard(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
-- 
2.43.0


From 575dee65addd24f0041fce1b71dea96f3a6fe0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:19 +0000
Subject: [PATCH 10/49] fix: van Gent 2021/2025 overtopping without wave angle
 returned NaN

Raise a ValueError when neither beta nor gamma_beta is given, as the other
overtopping functions do.
---
 .../hydraulic/wave_overtopping/vangent2021_caisson.py         | 4 ++++
 .../functions/hydraulic/wave_overtopping/vangent2025.py       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index 48e6ebc..41fe061 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -209,6 +209,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             )
 
     if np.isnan(gamma_beta):
+        if np.isnan(beta):
+            raise ValueError("Either beta or gamma_beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
@@ -409,6 +411,8 @@ def calculate_dimensionless_crest_freeboard(
             )
 
     if np.isnan(gamma_beta):
+        if np.isnan(beta):
+            raise ValueError("Either beta or gamma_beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 307cbb6..c5d7938 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -332,6 +332,8 @@ def calculate_dimensionless_overtopping_discharge_q(
     """
 
     if np.isnan(gamma_beta):
+        if np.isnan(beta):
+            raise ValueError("Either beta or gamma_beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
@@ -849,6 +851,8 @@ def calculate_dimensionless_crest_freeboard(
     """
 
     if np.isnan(gamma_beta):
+        if np.isnan(beta):
+            raise ValueError("Either beta or gamma_beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
-- 
2.43.0


From 83b749a3836e585307638d475c08286b7d779ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:24 +0000
Subject: [PATCH 11/49] fix: van Gent 2025 overtopping without gamma_v returned
 NaN

Raise a ValueError when the required influence factor for a crest wall is
not given, as is done for gamma_f.
---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index c5d7938..58fd006 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -340,6 +340,9 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
+    if np.isnan(gamma_v):
+        raise ValueError("gamma_v should be provided")
+
     if np.isnan(gamma_b):
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
@@ -859,6 +862,9 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
+    if np.isnan(gamma_v):
+        raise ValueError("gamma_v should be provided")
+
     if np.isnan(gamma_b):
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
-- 
2.43.0


From 6d9b51aa50a1b2554119978f7914c14314f3e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:30 +0000
Subject: [PATCH 12/49] fix: van Gent 2025 freeboard ignored the design
 correction in the maximum

The discharge function applies the design correction to the smaller of the
two equations; the inverse corrected only one of them (and used the default
g in the other).
---
 .../functions/hydraulic/wave_overtopping/vangent2025.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 58fd006..4db14f0 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -929,13 +929,14 @@ def calculate_dimensionless_crest_freeboard(
     Rc_diml_max = Rc_diml_max_equation(
         Hm0=Hm0,
         Hm0_swell=Hm0_swell,
-        q=q,
+        q=q_diml * np.sqrt(g * Hm0**3),
         cot_alpha=cot_alpha,
         ksi_mm10=ksi_mm10,
         gamma_f=gamma_f,
         gamma_b=gamma_b,
         gamma_v=gamma_v,
         gamma_beta=gamma_beta,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-- 
2.43.0


From 4ee3f4de2ce7b6f3f7ac031d1e910e4f7675d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:35 +0000
Subject: [PATCH 13/49] fix: van Gent 2025 freeboard with wind was not the
 inverse of discharge

The wind factor depends on the discharge without wind of the governing
equation; the inverse evaluated it with the discharge including wind and
left the maximum equation out of the iteration.
---
 .../hydraulic/wave_overtopping/vangent2025.py | 49 ++++++++++++-------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 4db14f0..495b2ef 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -897,22 +897,36 @@ def calculate_dimensionless_crest_freeboard(
         + 0.4 * Hm0_swell / Hm0
     )
 
+    q_diml_iter = q_diml
+    Rc_diml_max = Rc_diml_max_equation(
+        Hm0=Hm0,
+        Hm0_swell=Hm0_swell,
+        q=q_diml_iter * np.sqrt(g * Hm0**3),
+        cot_alpha=cot_alpha,
+        ksi_mm10=ksi_mm10,
+        gamma_f=gamma_f,
+        gamma_b=gamma_b,
+        gamma_v=gamma_v,
+        gamma_beta=gamma_beta,
+        g=g,
+    )
+
     if include_influence_wind:
         Rc_diff = np.inf
         n_iter = 0
         while np.max(Rc_diff) > tolerance and n_iter < max_iter:
             n_iter += 1
 
+            Rc_diml_prev = np.min([Rc_diml, Rc_diml_max], axis=0)
+
             gamma_w = calculate_influence_wind_gamma_w(
-                Rc=Rc_diml * Hm0,
+                Rc=Rc_diml_prev * Hm0,
                 Ac=Ac,
                 Hm0=Hm0,
-                q_diml=q_diml,
+                q_diml=q_diml_iter,
             )
             q_diml_iter = q_diml / gamma_w
 
-            Rc_diml_prev = Rc_diml
-
             Rc_diml = (
                 np.log((1.0 / 6.8) * cot_alpha * q_diml_iter)
                 * (-1.0 / 5.0)
@@ -923,21 +937,20 @@ def calculate_dimensionless_crest_freeboard(
                 * ksi_mm10
                 + 0.4 * Hm0_swell / Hm0
             )
+            Rc_diml_max = Rc_diml_max_equation(
+                Hm0=Hm0,
+                Hm0_swell=Hm0_swell,
+                q=q_diml_iter * np.sqrt(g * Hm0**3),
+                cot_alpha=cot_alpha,
+                ksi_mm10=ksi_mm10,
+                gamma_f=gamma_f,
+                gamma_b=gamma_b,
+                gamma_v=gamma_v,
+                gamma_beta=gamma_beta,
+                g=g,
+            )
 
-            Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
-
-    Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0,
-        Hm0_swell=Hm0_swell,
-        q=q_diml * np.sqrt(g * Hm0**3),
-        cot_alpha=cot_alpha,
-        ksi_mm10=ksi_mm10,
-        gamma_f=gamma_f,
-        gamma_b=gamma_b,
-        gamma_v=gamma_v,
-        gamma_beta=gamma_beta,
-        g=g,
-    )
+            Rc_diff = np.abs(np.min([Rc_diml, Rc_diml_max], axis=0) - Rc_diml_prev)
 
     Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
     max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
-- 
2.43.0


From 7acdb9b015fc8c84f95fccbf00174c69bf008560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:43 +0000
Subject: [PATCH 14/49] fix: van Gent 2025 validity checks for Gc, B_berm and
 db tested other inputs

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 495b2ef..1514d37 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -135,12 +135,12 @@ def check_validity_range(
         core_utility.check_variable_validity_range(
             "Non-dimensional armour width in front of crest wall Gc / Hm0",
             "Van Gent et al. (2025)",
-            Rc / Hm0,
+            Gc / Hm0,
             0.6,
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B_berm)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm width B / Hm0",
             "Van Gent et al. (2025)",
@@ -149,7 +149,7 @@ def check_validity_range(
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(db)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm height db / Hm0",
             "Van Gent et al. (2025)",
-- 
2.43.0


From 0ca41455274793c579700c9b4a5b85fbbb1680fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:56 +0000
Subject: [PATCH 15/49] fix: Takahashi 1990 wave height search failed at the
 edge of its table

For stability numbers at or near the lower limit of 1.8 the coarse table was
empty or its best entry was the last one, ending in an IndexError or
ValueError.
---
 .../stability_toe_berm/takahashi1990_caisson.py          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index a466f3c..677363c 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -177,11 +177,12 @@ def calculate_significant_wave_height_Hs(
     )
     Hs_new = core_physics.check_usage_stabilitynumber(Dn=Dn50, Ns=Ns, Delta=Delta)[0]
 
-    # span coarse between Hs_prev and Hs_new*2
+    # span coarse between Hs_start and Hs_new, with a margin so that the solution lies inside the table
+    dHs = Hs_start / 20
     Hs_table_in = np.arange(
-        start=np.minimum(Hs_start, Hs_new),
-        step=Hs_start / 20,
-        stop=np.maximum(Hs_start, Hs_new),
+        start=np.minimum(Hs_start, Hs_new) - dHs,
+        step=dHs,
+        stop=np.maximum(Hs_start, Hs_new) + 2 * dHs,
     )
     Hs_table_out = np.array([])
 
-- 
2.43.0


From 40e2190226385f32bfdbdf0ba217fae276a15f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:03 +0000
Subject: [PATCH 16/49] fix: Takahashi 1990 toe depth search never ended
 without a solution

For stability numbers below those the formula can give (e.g. below 1.8) the
search looped forever.
---
 .../structural/stability_toe_berm/takahashi1990_caisson.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index 677363c..3168947 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -294,6 +294,8 @@ def calculate_significant_depth_above_toe_hacc(
     firsteval = Ns < Ns_out
 
     while firsteval == (Ns < Ns_out):
+        if hacc_in > 100 * Hs:
+            raise ValueError("No water depth above the toe gives this stability number")
         hacc_in += dht
         Ns_out = calculate_stability_number_Ns(
             Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
-- 
2.43.0


From 36ab7013314f91e8b83a712c633606d3551d909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:11 +0000
Subject: [PATCH 17/49] fix: Etemad-Shahidi 2021 toe validity check raised a
 TypeError for Tmm10

---
 .../structural/stability_toe_berm/etemadshahidi2021.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index fd13f24..2c6c457 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -62,7 +62,7 @@ def check_validity(
         )
 
     if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Tmm10)):
-        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, Tmm10=Tmm10)
+        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10)
         core_utility.check_variable_validity_range(
             "Wave steepness sm-1,0",
             "Etemad-Shahidi et al. (2021)",
-- 
2.43.0


From 7f5b7bf0459e84e07bb5aceb1e3a683b09140ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:15 +0000
Subject: [PATCH 18/49] fix: Etemad-Shahidi 2021 toe calculations checked only
 ht/Hs for validity

---
 .../stability_toe_berm/etemadshahidi2021.py   | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 2c6c457..b807562 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -98,7 +98,7 @@ def check_validity(
             23.40,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(ht)):
+    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Bt)):
         core_utility.check_variable_validity_range(
             "Relative toe width Bt/Hs",
             "Etemad-Shahidi et al. (2021)",
@@ -248,7 +248,18 @@ def calculate_damage_Nod(
         1.0 / c5,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Nod
 
@@ -338,7 +349,18 @@ def calculate_nominal_diameter_Dn50(
         -1.0,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Dn50
 
-- 
2.43.0


From 62e73fbab8a6f268e62426ab950dcbaaf962ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:23 +0000
Subject: [PATCH 19/49] fix: Etemad-Shahidi 2021 toe wave height ignored
 max_iter and skipped validity checks

---
 .../stability_toe_berm/etemadshahidi2021.py       | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index b807562..4fc0978 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -473,4 +473,19 @@ def calculate_significant_wave_height_Hs(
 
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
 
+        n_iter += 1
+
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
+
     return Hs
-- 
2.43.0


From 1dac0eb74d31e64307a7eb29bdeaa444f09737ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:31 +0000
Subject: [PATCH 20/49] fix: de Ridder 2024 crest freeboard eq. 24 ignored g

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index 27560fe..d8a3fdc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -147,6 +147,7 @@ def calculate_crest_freeboard_discharge_q_eq24(
         smm10_HF=smm10_HF,
         gamma_f=gamma_f,
         q=q,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 0f8afa455dcab9de2426afc236de8a9fb1862aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 21/49] fix: de Ridder 2024 never checked the short wave
 steepness

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index d8a3fdc..0232024 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -198,6 +198,7 @@ def calculate_crest_freeboard_discharge_q_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
@@ -246,6 +247,7 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc_diml * Hm0,
     )
@@ -369,6 +371,7 @@ def calculate_dimensionless_overtopping_discharge_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
     )
@@ -414,6 +417,7 @@ def calculate_dimensionless_overtopping_discharge_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From 4cf14f9007a7f7c3270618f59979c08ddccbd5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:48 +0000
Subject: [PATCH 22/49] fix: de Ridder 2026 never checked the short wave
 steepness

---
 .../functions/hydraulic/wave_overtopping/deridder2026.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index b1086c8..806b2c3 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -351,6 +351,7 @@ def calculate_dimensionless_overtopping_discharge_eq28(
     )
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         theta=theta,
@@ -420,6 +421,7 @@ def calculate_dimensionless_overtopping_discharge_eq32(
 
     check_validity_range(
         Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From f0050e8bf6b5b064e0303f71034f255572be679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:27 +0000
Subject: [PATCH 23/49] fix: local wavelength for arrays of T or of one depth
 was wrong or failed

---
 .../functions/core_physics.py                 | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_physics.py b/deltares_coastal_structures_toolbox/functions/core_physics.py
index d6e7737..a665618 100644
--- a/deltares_coastal_structures_toolbox/functions/core_physics.py
+++ b/deltares_coastal_structures_toolbox/functions/core_physics.py
@@ -393,17 +393,14 @@ def calculate_local_wavelength(
         Wave length at local water depth
     """
 
-    # implementation of disper handles arrays for T, but not for h, hence this implementation
-    if isinstance(h, (float, int)):
-        k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)[0]
-    elif len(h) > 1 and isinstance(T, float):
-        k = np.array([])
-        for hsub in h:
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / T), h=hsub, g=g))
-    elif len(h) > 1 and len(h) == len(T):
-        k = np.array([])
-        for hsub, Tsub in zip(h, T):
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=g))
+    # implementation of disper handles arrays for T, but not for h and g, hence this implementation
+    T_all, h_all, g_all = np.broadcast_arrays(T, h, g)
+    k = np.array(
+        [
+            dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=gsub)[0]
+            for Tsub, hsub, gsub in zip(T_all.flat, h_all.flat, g_all.flat)
+        ]
+    ).reshape(T_all.shape)[()]
 
     L = (2 * np.pi) / k
 
-- 
2.43.0


From a01e526458c40d78142e1e5ecfb22f50d4a3c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:33 +0000
Subject: [PATCH 24/49] fix: Goda 1967 transmission of an array was truncated
 to integers

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index a645d08..952eb1d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -51,7 +51,7 @@ def calculate_wave_transmission_Kt(
         Rc_over_Hsi = Rc / Hsi
 
         if Rc_over_Hsi <= -1 * alpha_1 - beta_1:
-            Kt = 1
+            Kt = 1.0
         elif Rc_over_Hsi <= alpha_1 - beta_1:
             Kt = 0.5 * (1 - np.sin((np.pi / 2) * ((Rc_over_Hsi + beta_1) / (alpha_1))))
         else:
-- 
2.43.0


From 1ee83bc5dd9441e7464fe15d4273ecb67d6d1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 25/49] fix: Hudson damage factor failed for the upper limit of
 100% damage

---
 .../functions/structural/stability_rock_armour/hudson1959.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
index d8deb79..8b7cdf3 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
@@ -138,6 +138,7 @@ def lookup_table_damage_factors(
     mult_factors_smooth = np.array([1.0, 1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56, 1.56])
 
     ind = np.searchsorted(percentages, damage_percentage, "right")
+    ind = np.minimum(ind, len(percentages) - 1)
     if rock_type.lower().strip() == "rough":
         factor = mult_factors_rough[ind]
     elif rock_type.lower().strip() == "smooth":
-- 
2.43.0


From b6399cdcd6d597f1aec22a9b1b667ebcedc75e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 26/49] fix: vandermeer1988_modified validity check of Ns
 ignored rho_water

---
 .../stability_rock_armour/vandermeer1988_modified.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
index cd3b905..f6c1cef 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
@@ -218,6 +218,7 @@ def calculate_damage_number_S(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -320,6 +321,7 @@ def calculate_nominal_rock_diameter_Dn50(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -443,5 +445,6 @@ def calculate_significant_wave_height_Hs(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hs
-- 
2.43.0


From 4b2d61d36a37f39edcf21749b4ee597da2640a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 27/49] fix: scaravaglione2025 validity check of Ns ignored
 rho_water

---
 .../structural/stability_rock_armour/scaravaglione2025.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index c21e5a2..dbe10f9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -204,6 +204,7 @@ def calculate_damage_number_S(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -280,6 +281,7 @@ def calculate_nominal_rock_diameter_Dn50(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -368,5 +370,6 @@ def calculate_significant_wave_height_Hm0(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hm0
-- 
2.43.0


From 5673c2777406fc8c2b3ee58de4e024d2e5758390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:11 +0000
Subject: [PATCH 28/49] fix: van der Meer 1988 wave height did not check the
 ratio H2%/Hs

---
 .../functions/structural/stability_rock_armour/vandermeer1988.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988.py
index 42f042c..95bb7b7 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988.py
@@ -407,6 +407,7 @@ def calculate_significant_wave_height_Hs(
 
     check_validity_range(
         Hs=Hs,
+        H2p=ratio_H2p_Hs * Hs,
         N_waves=N_waves,
         cot_alpha=cot_alpha,
         P=P,
-- 
2.43.0


From 1e616986575ddfd9e3d1d3ba19ef07ef73cf8666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 29/49] fix: van Gent 2007 rear side calculations did not check
 the wave steepness

---
 .../functions/structural/stability_rock_rear/vangent2007.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 2fd7e39..24ee175 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -215,6 +215,7 @@ def calculate_damage_number_S(
     check_validity_range(
         Dn50=Dn50,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -293,6 +294,7 @@ def calculate_nominal_rock_diameter_Dn50(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -399,6 +401,7 @@ def calculate_maximum_significant_wave_height_Hs(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
-- 
2.43.0


From 2cc3f82f07699e400b6a5ee34b0474e4c18e5e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:24 +0000
Subject: [PATCH 30/49] fix: van Gent 2024 set-up checked B/Hm0 only when hc
 was given

---
 .../functions/hydraulic/wave_transmission/vangent2024_setup.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
index 05958f8..3ed4f18 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
@@ -85,7 +85,7 @@ def check_validity_range(
                     3.0,
                 )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(hc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B)):
         match structure_type:
             case "permeable":
                 core_utility.check_variable_validity_range(
-- 
2.43.0


From d9a15c39b02ec8fd8c8d46005520b8634a3d47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:32 +0000
Subject: [PATCH 31/49] fix: van der Meer 1998 toe validity check multiplied Ns
 by Dn50 squared

---
 .../functions/structural/stability_toe_berm/vandermeer1998.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index 57e7cf1..a520992 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -76,7 +76,7 @@ def check_validity(
         core_utility.check_variable_validity_range(
             "Nod vs Ns",
             "van der Meer (1998)",
-            (Nod**-0.15) * (Hs / Delta * Dn50),
+            (Nod**-0.15) * (Hs / (Delta * Dn50)),
             2,
             np.inf,
         )
-- 
2.43.0


From dbface045cb3df78369f81ad5af487bbcc20ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:39 +0000
Subject: [PATCH 32/49] fix: crest wall forces under oblique waves became
 negative

---
 .../structural/forces_crestwall/vangentvanderwerf2019.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
index e1cf5ab..a91242b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
@@ -418,7 +418,7 @@ def calculate_FH2p_oblique(
         z2p=z2p, Ac=Ac, beta=beta
     )
 
-    FH2p_oblique = gamma_FH_beta * FH2p_perpendicular
+    FH2p_oblique = np.maximum(gamma_FH_beta * FH2p_perpendicular, 0.0)
 
     check_validity(Hm0=Hm0, Ac=Ac, Rc=Rc, beta=beta)
 
@@ -636,7 +636,7 @@ def calculate_FV2p_oblique(
         z2p=z2p, Ac=Ac, beta=beta
     )
 
-    FV2p_oblique = gamma_FV_beta * FV2p_perpendicular
+    FV2p_oblique = np.maximum(gamma_FV_beta * FV2p_perpendicular, 0.0)
 
     check_validity(Hm0=Hm0, Ac=Ac, beta=beta, Fb=Fb)
 
-- 
2.43.0


From 18e7ec937beb776b4c3c1f990aad81504b127f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:00 +0000
Subject: [PATCH 33/49] fix: van Gent 2007 rear side wave height failed when
 Rc2_front is zero

---
 .../functions/structural/stability_rock_rear/vangent2007.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 24ee175..4ab57b2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -367,7 +367,7 @@ def calculate_maximum_significant_wave_height_Hs(
 
     Dn50 = core_physics.check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
 
-    Hs_i1 = Rc2_front
+    Hs_i1 = Rc
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-- 
2.43.0


From f0174371ccebcccbad98d554c7a7e51dacb4d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:43 +0000
Subject: [PATCH 34/49] fix: adjusted roughness factor fell back to gamma_f or
 exceeded 1 for long waves

---
 .../functions/hydraulic/wave_runup/taw2002.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 0d38b05..03755b7 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -828,8 +828,8 @@ def calculate_adjusted_influence_roughness_gamma_f(
     """
 
     gamma_f_adj = np.where(
-        (gamma_b * ksi_mm10 >= 1.8) & (gamma_b * ksi_mm10 <= 10.0),
-        ((ksi_mm10 - 1.8) * (1 - gamma_f) / (10.0 - 1.8)) + gamma_f,
+        gamma_b * ksi_mm10 >= 1.8,
+        np.minimum(((ksi_mm10 - 1.8) * (1 - gamma_f) / (10.0 - 1.8)) + gamma_f, 1.0),
         gamma_f,
     )
 
-- 
2.43.0


From 0ff001f1f89b01001f15e9e00920857ed57caac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:05 +0000
Subject: [PATCH 35/49] fix: van Gent 2001 z2% ignored explicit coefficients
 when Hm0 is given

---
 .../hydraulic/wave_runup/vangent2001.py          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
index bbafab7..d2585e7 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
@@ -58,8 +58,8 @@ def calculate_wave_runup_height_z2p(
     cot_alpha: float | npt.NDArray[np.float64],
     Hm0: float | npt.NDArray[np.float64] = np.nan,
     Hs: float | npt.NDArray[np.float64] = np.nan,
-    c0: float = 1.35,
-    c1: float = 4.7,
+    c0: float = np.nan,
+    c1: float = np.nan,
 ) -> float:
     """Calculate the wave runup height with a 2% probability of exceedance z2% with the Van Gent (2001) formula.
 
@@ -89,9 +89,9 @@ def calculate_wave_runup_height_z2p(
     Hs : float | npt.NDArray[np.float64], optional
         Significant wave height (m), by default np.nan
     c0 : float, optional
-        Coefficient in wave runup formula (-), by default 1.35
+        Coefficient in wave runup formula (-), by default 1.35 for Hs and 1.45 for Hm0
     c1 : float, optional
-        Coefficient in wave runup formula (-), by default 4.7
+        Coefficient in wave runup formula (-), by default 4.7 for Hs and 3.8 for Hm0
 
     Returns
     -------
@@ -109,13 +109,17 @@ def calculate_wave_runup_height_z2p(
 
     if np.isnan(Hs) and not np.isnan(Hm0):
         # Use coefficients for Hm0 instead of Hs
-        c0 = 1.45
-        c1 = 3.8
+        c0_default, c1_default = 1.45, 3.8
 
         H = Hm0
     else:
+        c0_default, c1_default = 1.35, 4.7
+
         H = Hs
 
+    c0 = c0_default if np.isnan(c0) else c0
+    c1 = c1_default if np.isnan(c1) else c1
+
     z2p = calculate_wave_runup_height_zXp(
         H=H, Tmm10=Tmm10, gamma=gamma, cot_alpha=cot_alpha, c0=c0, c1=c1
     )
-- 
2.43.0


From 4b49180796d7b0afd59bbf8fee02b528e33f318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:45 +0000
Subject: [PATCH 36/49] fix: Accropode KD at a 5% seabed slope was rounded down
 one step

---
 .../stability_concrete_armour/accropode_hudson1959.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode_hudson1959.py
index 2935960..4ae7365 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/accropode_hudson1959.py
@@ -217,7 +217,7 @@ def calculate_KD_breaking_trunk_from_seabed_slope(
     graph_KD = np.array([15, 15, 9.7, 8])
 
     seabed_slope_KD = np.interp(seabed_slope_perc, graph_seabed_slope_perc, graph_KD)
-    seabed_slope_KD = np.floor(seabed_slope_KD / 0.1) * 0.1
+    seabed_slope_KD = np.floor(np.round(seabed_slope_KD / 0.1, 9)) * 0.1
 
     check_validity_range(seabed_slope_perc=seabed_slope_perc)
 
-- 
2.43.0


From 56fc7e3d743b90408583b688b1fb882c6f922209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:00 +0000
Subject: [PATCH 37/49] fix: Jumelet 2024 wave height failed for a wave period
 given as a whole number

---
 .../functions/structural/stability_rock_armour/jumelet2024.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
index dc69e38..f748190 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
@@ -294,7 +294,7 @@ def calculate_significant_wave_height_Hs(
             * np.power(S, 0.2)
             * np.power(N_plunging, -0.1)
             * cot_alpha
-            * np.sqrt((2 * np.pi / g) * np.power(Tmm10, -2))
+            * np.sqrt((2 * np.pi / g) * np.power(Tmm10, -2.0))
             * Delta
             * Dn50,
             2.0,
-- 
2.43.0


From 2c83a1ea9d7f5e9c4cc694a84ffae100379cf2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:50 +0000
Subject: [PATCH 38/49] fix: Takahashi depth search steps must not change in
 size for array input

hacc_in and dht were the same array, so the in-place addition doubled the
search step every time.
---
 .../structural/stability_toe_berm/takahashi1990_caisson.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index 3168947..261007e 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -296,7 +296,7 @@ def calculate_significant_depth_above_toe_hacc(
     while firsteval == (Ns < Ns_out):
         if hacc_in > 100 * Hs:
             raise ValueError("No water depth above the toe gives this stability number")
-        hacc_in += dht
+        hacc_in = hacc_in + dht
         Ns_out = calculate_stability_number_Ns(
             Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
         )
@@ -318,7 +318,7 @@ def calculate_significant_depth_above_toe_hacc(
         firsteval = Ns < Ns_out
 
         while firsteval == (Ns < Ns_out):
-            hacc_in += dht
+            hacc_in = hacc_in + dht
             Ns_out = calculate_stability_number_Ns(
                 Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
             )
-- 
2.43.0


From 673c47d32d0fe685e63edd9cbb13b4fa50c69dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:38 +0000
Subject: [PATCH 39/49] fix: Xbloc and XblocPlus seabed slope correction failed
 for a horizontal seabed (0%)

---
 .../functions/structural/stability_concrete_armour/xbloc.py   | 4 +++-
 .../structural/stability_concrete_armour/xblocplus.py         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
index e064d88..eac5740 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
@@ -247,7 +247,9 @@ def calculate_correctionfactor_unit_mass_M_by_percslope_seabed(
         Correction factor applied on volume or mass
     """
 
-    cot_alpha = 100 / perc_slope
+    # a horizontal seabed (0%) has an infinite cotangent
+    with np.errstate(divide="ignore"):
+        cot_alpha = np.divide(100, perc_slope)
 
     correction_factor = calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         cot_alpha=cot_alpha
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
index c6a16aa..5c55567 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
@@ -246,7 +246,9 @@ def calculate_correctionfactor_unit_mass_M_by_percslope_seabed(
         Correction factor applied on volume or mass
     """
 
-    cot_alpha = 100 / perc_slope
+    # a horizontal seabed (0%) has an infinite cotangent
+    with np.errstate(divide="ignore"):
+        cot_alpha = np.divide(100, perc_slope)
 
     correction_factor = calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         cot_alpha=cot_alpha
-- 
2.43.0


From 573157a9c077aaa427277352b57be946f59f87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 40/49] fix: validity checks crashed for arrays with more than
 one dimension

---
 deltares_coastal_structures_toolbox/functions/core_utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_utility.py b/deltares_coastal_structures_toolbox/functions/core_utility.py
index 3d02426..19e69cb 100644
--- a/deltares_coastal_structures_toolbox/functions/core_utility.py
+++ b/deltares_coastal_structures_toolbox/functions/core_utility.py
@@ -33,7 +33,7 @@ def check_variable_validity_range(
     """
 
     if isinstance(values, np.ndarray):
-        values = values.tolist()
+        values = values.ravel().tolist()
 
     if isinstance(values, (int, float)):
         values = [values]
-- 
2.43.0


From 5175e45939ed3cce0342566cab8109cbeeecbd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 41/49] fix: Van Gent 2021 caisson overtopping refused arrays
 of beta, gamma_beta or Hm0_swell

---
 .../wave_overtopping/vangent2021_caisson.py          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index 41fe061..7cc515d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -203,13 +203,13 @@ def calculate_dimensionless_overtopping_discharge_q(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.all(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
-        if np.isnan(beta):
+    if np.all(np.isnan(gamma_beta)):
+        if np.all(np.isnan(beta)):
             raise ValueError("Either beta or gamma_beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
@@ -405,13 +405,13 @@ def calculate_dimensionless_crest_freeboard(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.all(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
-        if np.isnan(beta):
+    if np.all(np.isnan(gamma_beta)):
+        if np.all(np.isnan(beta)):
             raise ValueError("Either beta or gamma_beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
-- 
2.43.0


From 7f965a854f3d8fe4b49758f9cbdfc8f24d63a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 42/49] fix: Van Gent 2001 run-up refused arrays of the wave
 height

---
 .../functions/hydraulic/wave_runup/vangent2001.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
index d2585e7..6f48fd5 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
@@ -104,10 +104,10 @@ def calculate_wave_runup_height_z2p(
         Raise an error when both or neither Hm0 and Hs are provided.
     """
 
-    if (np.isnan(Hm0) and np.isnan(Hs)) or (not np.isnan(Hs) and not np.isnan(Hm0)):
+    if np.all(np.isnan(Hm0)) == np.all(np.isnan(Hs)):
         raise ValueError("Either Hm0 or Hs should be provided")
 
-    if np.isnan(Hs) and not np.isnan(Hm0):
+    if np.all(np.isnan(Hs)) and not np.all(np.isnan(Hm0)):
         # Use coefficients for Hm0 instead of Hs
         c0_default, c1_default = 1.45, 3.8
 
-- 
2.43.0


From 509ce8dead822b20545561950bebfd99d7593079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 43/49] fix: EurOtop 2018 oblique waves refused arrays of
 gamma_f

---
 .../functions/hydraulic/wave_runup/eurotop2018.py      | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index 6012533..c6ea6a0 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -275,12 +275,10 @@ def calculate_influence_oblique_waves_gamma_beta(
         The influence factor for oblique wave incidence gamma_beta (-)
     """
 
-    if gamma_f > gamma_f_crit:
-        # Structure slope is smooth
-        c_gamma_beta = c_gamma_beta_smooth
-    else:
-        # Structure slope is rough
-        c_gamma_beta = c_gamma_beta_rough
+    # Structure slope is either smooth or rough
+    c_gamma_beta = np.where(
+        gamma_f > gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough
+    )
 
     gamma_beta = wave_runup_taw2002.calculate_influence_oblique_waves_gamma_beta(
         beta=beta,
-- 
2.43.0


From 20098807742c0661ddbcc3022ab49bcbbbfba8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 44/49] fix: TAW, EurOtop and Van Gent 2025 refused arrays for
 berms, composite slopes and some inputs only

---
 .../hydraulic/wave_overtopping/eurotop2018.py | 12 +++----
 .../hydraulic/wave_overtopping/taw2002.py     | 16 ++++-----
 .../hydraulic/wave_overtopping/vangent2025.py | 36 +++++++++----------
 .../functions/hydraulic/wave_runup/taw2002.py | 10 +++---
 4 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 984c75d..597ee83 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,7 +265,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -313,8 +313,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         c3=c3,
     )
 
-    q_diml = np.min([q_diml_eq510, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq510, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq510, q_diml_max)
+    max_reached = np.minimum(q_diml_eq510, q_diml_max) == q_diml_max
 
     return q_diml, max_reached
 
@@ -680,7 +680,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -733,8 +733,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq510, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq510, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq510, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml_eq510, Rc_diml_max) == Rc_diml_max
 
     return Rc_diml, max_reached
 
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 7133e6a..ef6ecee 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -294,7 +294,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         c1 = 4.3
         c3 = 2.3
 
-    if sigma == 0:
+    if np.all(sigma == 0):
         cor1 = 0
         cor3 = 0
     else:
@@ -341,7 +341,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -380,8 +380,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0, Rc=Rc, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
     )
 
-    q_diml = np.min([q_diml_eq24, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq24, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq24, q_diml_max)
+    max_reached = np.minimum(q_diml_eq24, q_diml_max) == q_diml_max
 
     check_validity_range(
         Hm0=Hm0,
@@ -668,7 +668,7 @@ def calculate_dimensionless_crest_freeboard(
         c1 = 4.3
         c3 = 2.3
 
-    if sigma == 0:
+    if np.all(sigma == 0):
         cor1 = 0
         cor3 = 0
     else:
@@ -715,7 +715,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -766,8 +766,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq24, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq24, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml_eq24, Rc_diml_max) == Rc_diml_max
 
     check_validity_range(
         Hm0=Hm0,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 1514d37..1d5970c 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -331,8 +331,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
-        if np.isnan(beta):
+    if np.all(np.isnan(gamma_beta)):
+        if np.all(np.isnan(beta)):
             raise ValueError("Either beta or gamma_beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
@@ -340,10 +340,10 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_v):
+    if np.all(np.isnan(gamma_v)):
         raise ValueError("gamma_v should be provided")
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -353,8 +353,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.all(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
@@ -381,8 +381,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         gamma_beta=gamma_beta,
     )
 
-    q_diml = np.min([q_diml_eqB1, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eqB1, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eqB1, q_diml_max)
+    max_reached = np.minimum(q_diml_eqB1, q_diml_max) == q_diml_max
 
     if include_influence_wind:
         gamma_w = calculate_influence_wind_gamma_w(
@@ -853,8 +853,8 @@ def calculate_dimensionless_crest_freeboard(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
-        if np.isnan(beta):
+    if np.all(np.isnan(gamma_beta)):
+        if np.all(np.isnan(beta)):
             raise ValueError("Either beta or gamma_beta should be provided")
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
@@ -862,10 +862,10 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_v):
+    if np.all(np.isnan(gamma_v)):
         raise ValueError("gamma_v should be provided")
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -875,8 +875,8 @@ def calculate_dimensionless_crest_freeboard(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.all(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
@@ -917,7 +917,7 @@ def calculate_dimensionless_crest_freeboard(
         while np.max(Rc_diff) > tolerance and n_iter < max_iter:
             n_iter += 1
 
-            Rc_diml_prev = np.min([Rc_diml, Rc_diml_max], axis=0)
+            Rc_diml_prev = np.minimum(Rc_diml, Rc_diml_max)
 
             gamma_w = calculate_influence_wind_gamma_w(
                 Rc=Rc_diml_prev * Hm0,
@@ -950,10 +950,10 @@ def calculate_dimensionless_crest_freeboard(
                 g=g,
             )
 
-            Rc_diff = np.abs(np.min([Rc_diml, Rc_diml_max], axis=0) - Rc_diml_prev)
+            Rc_diff = np.abs(np.minimum(Rc_diml, Rc_diml_max) - Rc_diml_prev)
 
-    Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml, Rc_diml_max) == Rc_diml_max
 
     check_validity_range(
         Hm0=Hm0,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 03755b7..1016ed0 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -297,7 +297,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -329,8 +329,8 @@ def calculate_dimensionless_wave_runup_height_z2p(
     z2p_diml_eq3a = c1 * gamma_b * gamma_f_adj * gamma_beta * ksi_mm10
     z2p_diml_eq3b = c4 * gamma_f_adj * gamma_beta * (c2 - c3 / np.sqrt(ksi_mm10))
 
-    z2p_diml = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0)
-    max_reached = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0) == z2p_diml_eq3b
+    z2p_diml = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b)
+    max_reached = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b) == z2p_diml_eq3b
 
     check_validity_range(
         Hm0=Hm0,
@@ -683,7 +683,7 @@ def iteration_procedure_gamma_b(
         The influence factor for a berm gamma_b (-)
     """
 
-    if B_berm == 0.0 or L_berm == 0.0:
+    if np.all(B_berm == 0.0) or np.all(L_berm == 0.0):
         gamma_b = 1.0
     else:
         z2p_i1, _ = calculate_wave_runup_height_z2p(
@@ -764,7 +764,7 @@ def calculate_influence_berm_gamma_b(
     )
     rB = B_berm / L_berm
 
-    gamma_b = np.max([np.min([1.0 - rB * (1.0 - rdh), 1.0]), 0.6])
+    gamma_b = np.maximum(np.minimum(1.0 - rB * (1.0 - rdh), 1.0), 0.6)
     return gamma_b
 
 
-- 
2.43.0


From 398ce49a67e796d6b8970511d8a3d2ecff17cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 45/49] fix: Goda 1967 transmission refused arrays of alpha_1
 and beta_1

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index 952eb1d..deca113 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -44,6 +44,8 @@ def calculate_wave_transmission_Kt(
     check_is_array = [
         isinstance(Rc, np.ndarray),
         isinstance(Hsi, np.ndarray),
+        isinstance(alpha_1, np.ndarray),
+        isinstance(beta_1, np.ndarray),
     ]
 
     if not any(check_is_array):
-- 
2.43.0


From a8094809f18b0ebf4b7413282a05e3e8d2f5838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 46/49] fix: Van der Meer 1998 toe depth refused arrays

---
 .../structural/stability_toe_berm/vandermeer1998.py          | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index a520992..3b28c2a 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -272,10 +272,7 @@ def calculate_depth_above_toe_ht(
     )
 
     ht = (((Hs * Nod**-0.15) / (Delta * Dn50)) - 2) / 6.2
-    if ht > 0:
-        ht = ht ** (1 / 2.7) * h
-    else:
-        ht = np.nan
+    ht = np.where(ht > 0, np.maximum(ht, 0) ** (1 / 2.7) * h, np.nan)[()]
 
     check_validity(Hs=Hs, ht=ht, h=h, Dn50=Dn50, Nod=Nod, Delta=Delta)
 
-- 
2.43.0


From 74050fb48e0c792ff2f6ce32eebacd954b145f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 47/49] fix: Xbloc and XblocPlus correction factors refused
 arrays

---
 .../stability_concrete_armour/xbloc.py        | 44 ++++++++-----------
 .../stability_concrete_armour/xblocplus.py    | 25 +++++------
 2 files changed, 28 insertions(+), 41 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
index eac5740..cfee789 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
@@ -210,15 +210,12 @@ def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha <= 30 and cot_alpha > 20:
-        correction_factor = 1.1
-    elif cot_alpha <= 20 and cot_alpha > 15:
-        correction_factor = 1.25
-    elif cot_alpha <= 15 and cot_alpha > 10:
-        correction_factor = 1.5
-    elif cot_alpha <= 10:
-        correction_factor = 2.0
+    cot_alpha = np.asarray(cot_alpha)
+    correction_factor = np.select(
+        [cot_alpha <= 10, cot_alpha <= 15, cot_alpha <= 20, cot_alpha <= 30],
+        [2.0, 1.5, 1.25, 1.1],
+        default=1.0,
+    )[()]
 
     return correction_factor
 
@@ -273,12 +270,10 @@ def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(
     correction_factor = float | npt.NDArray[np.float64]
         Correction factor applied on volume or mass
     """
-    correction_factor = 1.0
-
-    if rel_freeboard < 0.5:
-        correction_factor = 2.0
-    elif rel_freeboard < 1.0:
-        correction_factor = 1.5
+    rel_freeboard = np.asarray(rel_freeboard)
+    correction_factor = np.select(
+        [rel_freeboard < 0.5, rel_freeboard < 1.0], [2.0, 1.5], default=1.0
+    )[()]
 
     return correction_factor
 
@@ -299,12 +294,10 @@ def calculate_correctionfactor_unit_mass_M_by_rel_depth(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-
-    if rel_depth > 2.5:
-        correction_factor = 1.5
-    if rel_depth > 3.5:
-        correction_factor = 2.0
+    rel_depth = np.asarray(rel_depth)
+    correction_factor = np.select(
+        [rel_depth > 3.5, rel_depth > 2.5], [2.0, 1.5], default=1.0
+    )[()]
 
     return correction_factor
 
@@ -378,10 +371,9 @@ def calculate_correctionfactor_unit_mass_M_by_structure_slope(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha > 2 / 3:
-        correction_factor = 1.25
-    elif cot_alpha > 1 / 2:
-        correction_factor = 1.5
+    cot_alpha = np.asarray(cot_alpha)
+    correction_factor = np.select(
+        [cot_alpha > 2 / 3, cot_alpha > 1 / 2], [1.25, 1.5], default=1.0
+    )[()]
 
     return correction_factor
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
index 5c55567..a353a69 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
@@ -209,15 +209,12 @@ def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha <= 30 and cot_alpha > 20:
-        correction_factor = 1.1
-    elif cot_alpha <= 20 and cot_alpha > 15:
-        correction_factor = 1.25
-    elif cot_alpha <= 15 and cot_alpha > 10:
-        correction_factor = 1.5
-    elif cot_alpha <= 10:
-        correction_factor = 2.0
+    cot_alpha = np.asarray(cot_alpha)
+    correction_factor = np.select(
+        [cot_alpha <= 10, cot_alpha <= 15, cot_alpha <= 20, cot_alpha <= 30],
+        [2.0, 1.5, 1.25, 1.1],
+        default=1.0,
+    )[()]
 
     return correction_factor
 
@@ -272,12 +269,10 @@ def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(
     correction_factor = float | npt.NDArray[np.float64]
         Correction factor applied on volume or mass
     """
-    correction_factor = 1.0
-
-    if rel_freeboard < 0.5:
-        correction_factor = 1.5
-    elif rel_freeboard < 1.0:
-        correction_factor = 1.25
+    rel_freeboard = np.asarray(rel_freeboard)
+    correction_factor = np.select(
+        [rel_freeboard < 0.5, rel_freeboard < 1.0], [1.5, 1.25], default=1.0
+    )[()]
 
     return correction_factor
 
-- 
2.43.0


From 606465d7e010faec54bcc56d0e27d3ded9296b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 48/49] fix: Goda caisson forces refused arrays

---
 .../structural/forces_caisson/goda1985.py     | 95 +++++++------------
 1 file changed, 33 insertions(+), 62 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index 610a210..819c950 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -120,54 +120,32 @@ def check_impulsive_breaking(
         Boolean indicating whether impulsive breaking occurs
     """
 
-    all_is_nans = [
-        np.isnan(beta),
-        np.isnan(B1),
-        np.isnan(L),
-        np.isnan(cota_seabed),
-        np.isnan(offshore_wave_steepness),
-        np.isnan(Rc),
-        np.isnan(Hsi),
-    ]
-
-    if not any(all_is_nans):
-        if (
-            beta < 20
-            and B1 / L < 0.02
-            and cota_seabed < 50
-            and offshore_wave_steepness < 0.03
-            and Rc / Hsi > 0.3
-        ):
-
-            core_utility.check_variable_validity_range(
-                "Impulsive breaking condition 1", "Goda (2000)", True, False, False
-            )
-            return True
-
-    all_is_nans = [
-        np.isnan(beta),
-        np.isnan(B1),
-        np.isnan(L),
-        np.isnan(d),
-        np.isnan(h_s),
-        np.isnan(Rc),
-        np.isnan(Hsi),
-    ]
+    # a condition with a missing (NaN) input is never met
+    condition_1 = (
+        (beta < 20)
+        & (B1 / L < 0.02)
+        & (cota_seabed < 50)
+        & (offshore_wave_steepness < 0.03)
+        & (Rc / Hsi > 0.3)
+    )
+    if np.any(condition_1):
+        core_utility.check_variable_validity_range(
+            "Impulsive breaking condition 1", "Goda (2000)", True, False, False
+        )
 
-    if not any(all_is_nans):
-        if (
-            beta < 20
-            and 0.02 < B1 / L
-            and B1 / L < 0.3
-            and d / h_s < 0.6
-            and Rc / Hsi > 0.3
-        ):
-            core_utility.check_variable_validity_range(
-                "Impulsive breaking condition 2", "Goda (2000)", True, False, False
-            )
-            return True
+    condition_2 = (
+        (beta < 20)
+        & (0.02 < B1 / L)
+        & (B1 / L < 0.3)
+        & (d / h_s < 0.6)
+        & (Rc / Hsi > 0.3)
+    )
+    if np.any(condition_2):
+        core_utility.check_variable_validity_range(
+            "Impulsive breaking condition 2", "Goda (2000)", True, False, False
+        )
 
-    return False
+    return condition_1 | condition_2
 
 
 def calculate_forces_and_reactions(
@@ -538,10 +516,7 @@ def calculate_pressures_and_forces(
 
     # beta, if not 0 should be rotated by 15 degrees towards the normal of the breakwater according to Goda (2000)
     beta = np.abs(beta)
-    if beta >= 15:
-        beta_use = beta - 15
-    elif beta < 15:
-        beta_use = 0
+    beta_use = np.maximum(beta - 15, 0)
     cos_beta = np.cos(np.deg2rad(beta_use))
 
     h_5Hs = h_s + (Hsi * 5) / cota_seabed
@@ -566,10 +541,7 @@ def calculate_pressures_and_forces(
     p1 = 0.5 * (1 + cos_beta) * (alpha_1 + alpha_2 * cos_beta**2) * rho_water * g * HD
     p2 = p1 / (np.cosh(2 * np.pi * h_s / L))
     p3 = alpha_3 * p1
-    if etastar > Rc:
-        p4 = p1 * (1 - (Rc / etastar))
-    else:
-        p4 = 0
+    p4 = np.where(etastar > Rc, p1 * (1 - (Rc / etastar)), 0)[()]
 
     hstar_c = np.minimum(etastar, Rc)
 
@@ -586,8 +558,7 @@ def calculate_pressures_and_forces(
     FU = 0.5 * pu * Bup
     MU = (2 / 3) * FU * Bup
 
-    impulsive_breaking = False
-    if check_impulsive_breaking(
+    impulsive_breaking = check_impulsive_breaking(
         beta=beta,
         B1=B1,
         cota_seabed=cota_seabed,
@@ -597,8 +568,7 @@ def calculate_pressures_and_forces(
         L=L,
         offshore_wave_steepness=offshore_wave_steepness,
         Rc=Rc,
-    ):
-        impulsive_breaking = True
+    )
 
     if not return_dict:
         return (
@@ -807,9 +777,10 @@ def calculate_bearing_pressures(
     We = Wup - FU
     te = Me / We
 
-    if te <= 1 / 3 * Bup:
-        pe = (2 * We) / (3 * te)
-    else:
-        pe = (2 * We / Bup) * (2 - 3 * (te / Bup))
+    pe = np.where(
+        te <= 1 / 3 * Bup,
+        (2 * We) / (3 * te),
+        (2 * We / Bup) * (2 - 3 * (te / Bup)),
+    )[()]
 
     return pe, Me, We, te
-- 
2.43.0


From 8ffd53dcaa3c9a9688902a226543eee4895de2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:10 +0000
Subject: [PATCH 49/49] fix: overtopping input files could not be written for
 an integer beta or a scalar beta with arrays

---
 .../wave_overtopping/denbieman2021.py         | 46 +++++++++----------
 .../hydraulic/wave_overtopping/vangent2007.py | 44 ++++++++----------
 2 files changed, 41 insertions(+), 49 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
index 76d2ef1..9158427 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
@@ -80,32 +80,28 @@ def write_input_file_XGB_Overtopping(
         Name of the input file, by default "input_XGB_Overtopping"
     """
 
-    if isinstance(beta, float):
-        index = [0]
-    else:
-        index = None
+    data = {
+        "b": beta,
+        "h": h,
+        "Hm0 toe": Hm0,
+        "Tm-1,0 toe": Tmm10,
+        "ht": ht,
+        "Bt": Bt,
+        "hb": db,
+        "B": B_berm,
+        "Rc": Rc,
+        "Ac": Ac,
+        "Gc": Gc,
+        "cotad": cot_alpha_down,
+        "cotau": cot_alpha_up,
+        "gf_d": gamma_f_down,
+        "gf_u": gamma_f_up,
+        "tanaf": tan_alpha_f,
+    }
+    # scalars alone need an index
+    index = [0] if all(np.ndim(value) == 0 for value in data.values()) else None
 
-    input_dataframe = pd.DataFrame(
-        data={
-            "b": beta,
-            "h": h,
-            "Hm0 toe": Hm0,
-            "Tm-1,0 toe": Tmm10,
-            "ht": ht,
-            "Bt": Bt,
-            "hb": db,
-            "B": B_berm,
-            "Rc": Rc,
-            "Ac": Ac,
-            "Gc": Gc,
-            "cotad": cot_alpha_down,
-            "cotau": cot_alpha_up,
-            "gf_d": gamma_f_down,
-            "gf_u": gamma_f_up,
-            "tanaf": tan_alpha_f,
-        },
-        index=index,
-    )
+    input_dataframe = pd.DataFrame(data=data, index=index)
     input_dataframe.to_csv(os.path.join(output_dir, f"{file_name}.csv"), sep=";")
 
     return
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 8409d70..400f5f8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -123,31 +123,27 @@ def write_input_file_NN_Overtopping(
             + "------------------------------------------------\n"
         )
 
-    if isinstance(beta, float):
-        index = [0]
-    else:
-        index = None
+    data = {
+        "b": beta,
+        "h": h,
+        "Hm0 toe": Hm0,
+        "Tm-1,0 toe": Tmm10,
+        "ht": ht,
+        "Bt": Bt,
+        "gf": gamma_f,
+        "cotad": cot_alpha_down,
+        "cotau": cot_alpha_up,
+        "Rc": Rc,
+        "B": B_berm,
+        "hb": db,
+        "tanaB": tan_alpha_B,
+        "Ac": Ac,
+        "Gc": Gc,
+    }
+    # scalars alone need an index
+    index = [0] if all(np.ndim(value) == 0 for value in data.values()) else None
 
-    input_dataframe = pd.DataFrame(
-        data={
-            "b": beta,
-            "h": h,
-            "Hm0 toe": Hm0,
-            "Tm-1,0 toe": Tmm10,
-            "ht": ht,
-            "Bt": Bt,
-            "gf": gamma_f,
-            "cotad": cot_alpha_down,
-            "cotau": cot_alpha_up,
-            "Rc": Rc,
-            "B": B_berm,
-            "hb": db,
-            "tanaB": tan_alpha_B,
-            "Ac": Ac,
-            "Gc": Gc,
-        },
-        index=index,
-    )
+    input_dataframe = pd.DataFrame(data=data, index=index)
     input_dataframe.to_csv(
         os.path.join(output_dir, f"{file_name}.inp"),
         sep=" ",
-- 
2.43.0

