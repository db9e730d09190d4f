From 72672095969f67e697a2a38e5962c1a3e55f7665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 01/24] fix: report the violated limit in NumericParameter
 warnings

---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b1ac2c9..3f938c8 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -457,14 +457,14 @@ class NumericParameter(Parameter):
             if self.min is not None and value < self.min:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is less than the recommended limit ({self.min}).",
+                    f"is less than the recommended limit ({self.min}).",
                     UserWarning,
                     stacklevel=2,
                 )
             elif self.max is not None and self.max < value:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is greater than the recommended limit ({self.max}).",
+                    f"is greater than the recommended limit ({self.max}).",
                     UserWarning,
                     stacklevel=2,
                 )
-- 
2.43.0


From 43bdb94d1cea0aee81722660e8c8c9ec78a87092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 02/24] fix: missing Scenario and Coefficients attributes raise
 AttributeError

---
 src/pygmm/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 3f938c8..5832858 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -126,7 +126,10 @@ class Scenario(collections.UserDict):
 
     def __getattr__(self, item):
         """Access the data with attributes."""
-        return self.data[item]
+        try:
+            return self.__dict__["data"][item]
+        except KeyError:
+            raise AttributeError(item) from None
 
     def __repr__(self):
         """Representation."""
@@ -548,7 +551,10 @@ class Coefficients(collections.abc.Mapping):
         return self._data[key]
 
     def __getattr__(self, key):
-        return self.__getitem__(key)
+        try:
+            return self.__dict__["_data"][key]
+        except KeyError:
+            raise AttributeError(key) from None
 
     def __len__(self):
         return len(self._data)
-- 
2.43.0


From be6c4c3bfe3fde0e6ffd5f0a119ee14ed18fe539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 03/24] fix: BSSA14 basin term uses the scenario region

---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index b98a311..e9a0f04 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -205,7 +205,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         else:
             # Compute the site term
             site = self.calc_site_term(
-                pga_ref, s.v_s30, s.depth_1_0, s.get("depth_1_0", None)
+                pga_ref, s.v_s30, s.depth_1_0, s.region
             )
 
         ln_resp = event + path + site
-- 
2.43.0


From f660e9ebec88529e44987f52a240b3ad325d21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 04/24] fix: CB14 applies the China anelastic attenuation

---
 src/pygmm/campbell_bozorgnia_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a2a5868..8caf34b 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -188,7 +188,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         # Anaelastic attenuation term
         if s.region in ["japan", "italy"]:
             dc_20 = c.dc_20jp
-        elif s.region == ["china"]:
+        elif s.region == "china":
             dc_20 = c.dc_20ch
         else:
             dc_20 = c.dc_20ca
-- 
2.43.0


From 339593a4befa2c7973f30adfc1208b7dccac7a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 05/24] fix: CB14 records estimated inputs in the scenario

---
 src/pygmm/campbell_bozorgnia_2014.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index 8caf34b..a1a29bf 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -77,21 +77,21 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
                     mech,
                 )
         if s.depth_2_5 is None:
-            s.depth_2_5 = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
+            s["depth_2_5"] = self.calc_depth_2_5(s.v_s30, s.region, s.depth_1_0)
 
         if s.depth_tor is None:
-            s.depth_tor = CY14.calc_depth_tor(s.mag, s.mechanism)
+            s["depth_tor"] = CY14.calc_depth_tor(s.mag, s.mechanism)
 
         if s.width is None:
-            s.width = CampbellBozorgnia2014.calc_width(
+            s["width"] = CampbellBozorgnia2014.calc_width(
                 s.mag, s.dip, s.depth_tor, s.depth_bot
             )
 
         if s.depth_bor is None:
-            s.depth_bor = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
+            s["depth_bor"] = self.calc_depth_bor(s.depth_tor, s.dip, s.width)
 
         if s.depth_hyp is None:
-            s.depth_hyp = CampbellBozorgnia2014.calc_depth_hyp(
+            s["depth_hyp"] = CampbellBozorgnia2014.calc_depth_hyp(
                 s.mag, s.dip, s.depth_tor, s.depth_bor
             )
 
-- 
2.43.0


From a88df8c1a2f0aa817a4834b4b8849d3ebe02d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 06/24] fix: AB06 nonlinear slope between 180 and 300 m/s
 includes b_2

---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index d17e5ee..79cfe5d 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -153,7 +153,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         if s.v_s30 <= VS_1:
             b_nl = c.b_1
         elif VS_1 < s.v_s30 <= VS_2:
-            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(VS_1 / VS_2)
+            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(
+                VS_1 / VS_2
+            ) + c.b_2
         elif VS_2 < s.v_s30 <= VS_REF:
             b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
         else:
-- 
2.43.0


From 9d2f5f3c0ec808e9ca3daa843baf494c3f20f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 07/24] fix: AB06 peak velocity and displacement are in cm/s
 and cm

---
 src/pygmm/atkinson_boore_2006.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 79cfe5d..8ff8a23 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -39,6 +39,10 @@ class AtkinsonBoore2006(model.GroundMotionModel):
     INDEX_PGA = 2
     INDICES_PSA = np.arange(3, 27)
 
+    # The response is divided by gravity in cm/sec/sec
+    PGV_SCALE = 980.665
+    PGD_SCALE = 980.665
+
     PARAMS = [
         model.NumericParameter("mag", True),
         model.NumericParameter("dist_rup", True),
-- 
2.43.0


From e509ef3fc69ace62ecc2616ac1052795e8678a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 08/24] fix: AB06 standard deviation is converted from log10 to
 natural log

---
 src/pygmm/atkinson_boore_2006.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 8ff8a23..df787e2 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -112,7 +112,7 @@ class AtkinsonBoore2006(model.GroundMotionModel):
             natural log standard deviation
 
         """
-        ln_std = np.ones_like(self.PERIODS) * 0.30
+        ln_std = np.ones_like(self.PERIODS) * 0.30 * np.log(10)
         return ln_std
 
     def _calc_stress_factor(self) -> float:
-- 
2.43.0


From 5b746b48370d103957a5ea07c455741f1bae8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 09/24] fix: AB06 stress correction scales with the logarithm
 of the stress ratio

---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index df787e2..b2461a2 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -131,7 +131,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         v1 = c.delta + 0.05
         v2 = 0.05 + c.delta * np.maximum(s.mag - c.m_1, 0) / (c.m_h - c.m_1)
 
-        log10_stress_factor = np.minimum(2.0, stress_drop / 140.0) * np.minimum(v1, v2)
+        # Number of doublings relative to 140 bars, at most one
+        scale = np.log2(np.minimum(2.0, stress_drop / 140.0))
+        log10_stress_factor = scale * np.minimum(v1, v2)
 
         return np.interp(self.PERIODS, c.period, log10_stress_factor)
 
-- 
2.43.0


From b2030546d76a379d800df14022778797cadeec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 10/24] fix: CB14 short-period spectral accelerations are not
 less than PGA

---
 src/pygmm/campbell_bozorgnia_2014.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a1a29bf..aff200b 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -196,6 +196,9 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         f_atn = (c.c_20 + dc_20) * max(s.dist_rup - 80, 0)
 
         ln_resp = f_mag + f_dis + f_flt + f_hng + site_term + f_hyp + f_dip + f_atn
+        # Equation 1: PSA at periods less than 0.25 s is not less than PGA
+        mask = np.logical_and(0 < c.period, c.period < 0.25)
+        ln_resp[mask] = np.maximum(ln_resp, ln_resp[self.INDEX_PGA])[mask]
         return ln_resp
 
     @classmethod
-- 
2.43.0


From cf184e8e8e103e1839c80376bea7b4dd4d286854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 11/24] fix: interpolate the BA19 standard deviations whatever
 the order of the end values

---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 595f878..c9bbc6d 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -171,7 +171,7 @@ class BaylessAbrahamson2019(model.Model):
         c = self.COEFF
 
         def interp(left, right):
-            return np.clip(left + (right - left) / 2 * (s.mag - 4), left, right)
+            return left + (right - left) * np.clip((s.mag - 4) / 2, 0, 1)
 
         tau = interp(c.s1, c.s2)
         phi_s2s = interp(c.s3, c.s4)
-- 
2.43.0


From efdc034a1cda558e7d349a8d8cefa8cc7d69ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 12/24] fix: GA11 interp_ln_std returns the logarithmic
 standard deviation, not its exponential

---
 src/pygmm/gulerce_abrahamson_2011.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index eaccece..6ff0003 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -106,12 +106,10 @@ class GulerceAbrahamson2011(model.Model):
 
         """
 
-        return np.exp(
-            np.interp(
-                np.log(periods),
-                np.log(self.PERIODS[self.INDICES_PSA]),
-                self._ln_std[self.INDICES_PSA],
-            )
+        return np.interp(
+            np.log(periods),
+            np.log(self.PERIODS[self.INDICES_PSA]),
+            self._ln_std[self.INDICES_PSA],
         )
 
     def _calc_ln_ratio(self):
-- 
2.43.0


From 8e7ca5c79fc8fe8b9069df086f6d29d74722880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 13/24] fix: AS96 counts the increment to the 75 % level once

---
 src/pygmm/abrahamson_silva_1996.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 30fcd7c..0f8cfe0 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -70,7 +70,10 @@ class AbrahamsonSilva1996(model.Model):
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-        ln_dur = self._ln_dur + self.calc_ln_dur_incr(nias)
+        # The increment to 75% is already part of the duration
+        ln_dur = (
+            self._ln_dur + self.calc_ln_dur_incr(nias) - self.calc_ln_dur_incr(0.75)
+        )
 
         if stds is not None:
             std_errs = np.interp(
-- 
2.43.0


From 6d4c1e702270120a8bec98ec39b8926aa714201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 14/24] fix: AS96 does not overwrite the energy levels given by
 the caller

---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 0f8cfe0..e0e6b67 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -53,7 +53,7 @@ class AbrahamsonSilva1996(model.Model):
     @staticmethod
     def calc_ln_dur_incr(nias):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
@@ -66,7 +66,7 @@ class AbrahamsonSilva1996(model.Model):
 
     def interp(self, nias, stds=None):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-- 
2.43.0


From 129988c9ab1522ce8d9857c5a874b733adde9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 15/24] fix: AS16 basin term uses the depth difference in
 metres

---
 src/pygmm/afshari_stewart_2016.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 6ba6720..f81907e 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -86,7 +86,8 @@ class AfshariStewart2016(model.Model):
         dz_1ref = 200
         # depth to bedrock duration
         if s.depth_1_0 is not None:
-            dz_1 = s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism)
+            # Differential depth in meters
+            dz_1 = 1000 * (s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism))
             F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)
         else:
             F_dz1 = 0
-- 
2.43.0


From 5297c2bc7c1cadec26907d5ae6a880a74bd99e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 16/24] fix: PR23 conditional model at the 75 % level returns
 the base model

---
 src/pygmm/pinilla_ramos_et_al_2023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2023.py b/src/pygmm/pinilla_ramos_et_al_2023.py
index 2c223d6..b42ff42 100644
--- a/src/pygmm/pinilla_ramos_et_al_2023.py
+++ b/src/pygmm/pinilla_ramos_et_al_2023.py
@@ -105,7 +105,7 @@ class PinillaRamosEtAl2023(model.Model):
             0.092914,
             0.067803,
             0.034992,
-            1,
+            0,
             -0.044725,
             -0.112447,
             -0.209689,
-- 
2.43.0


From c2fc2be539e766cf8e1e391202fbdc967be801bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 17/24] fix: PR24 duration_model uses every element of its
 array arguments

---
 src/pygmm/pinilla_ramos_et_al_2024.py | 47 +++++++++++++++------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2024.py b/src/pygmm/pinilla_ramos_et_al_2024.py
index 63f727b..9da2dc6 100644
--- a/src/pygmm/pinilla_ramos_et_al_2024.py
+++ b/src/pygmm/pinilla_ramos_et_al_2024.py
@@ -788,32 +788,37 @@ def duration_model(
     """
     from .model import Scenario
 
-    # Convert inputs to arrays
-    mag_arr = np.atleast_1d(mag)
-    rrup_arr = np.atleast_1d(rrup)
-    vs30_arr = np.atleast_1d(vs30)
-
-    # Create scenario and model
-    scenario = Scenario(
-        mag=mag_arr[0],
-        dist_rup=rrup_arr[0],
-        v_s30=vs30_arr[0],
-        event_type=eq_type,
-        region=region,
+    # Convert inputs to arrays of the same length
+    mag_arr, rrup_arr, vs30_arr = np.broadcast_arrays(
+        np.atleast_1d(mag), np.atleast_1d(rrup), np.atleast_1d(vs30)
     )
-    model_inst = PinillaRamosEtAl2024(scenario)
 
-    if np.isclose(energy, 0.75):
-        duration, plus_sigma, minus_sigma = (
-            model_inst.duration,
-            model_inst.duration_plus_sigma,
-            model_inst.duration_minus_sigma,
+    results = []
+    for m, r, v in zip(mag_arr, rrup_arr, vs30_arr):
+        # Create scenario and model
+        scenario = Scenario(
+            mag=m,
+            dist_rup=r,
+            v_s30=v,
+            event_type=eq_type,
+            region=region,
         )
-    else:
-        duration, plus_sigma, minus_sigma = model_inst.duration_for_energy(energy)
+        model_inst = PinillaRamosEtAl2024(scenario)
+
+        if np.isclose(energy, 0.75):
+            results.append(
+                (
+                    model_inst.duration,
+                    model_inst.duration_plus_sigma,
+                    model_inst.duration_minus_sigma,
+                )
+            )
+        else:
+            results.append(model_inst.duration_for_energy(energy))
 
     # Return as arrays to match expected return type
-    return np.array([duration]), np.array([plus_sigma]), np.array([minus_sigma])
+    duration, plus_sigma, minus_sigma = zip(*results)
+    return np.array(duration), np.array(plus_sigma), np.array(minus_sigma)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 78ed05229dd9758fd78e3d5928bfb12bdee6e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 18/24] fix: Stafford covariance keeps the standard deviations
 given by the caller

---
 src/pygmm/stafford_2017.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 4768df4..207a94a 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -292,7 +292,10 @@ class Stafford2017:
         """
         if sigma_E is None or sigma_S is None or sigma_A is None:
             # Compute standard deviations if not provided
-            sigma_E, sigma_S, sigma_A = cls.compute_variances(freqs)
+            model_E, model_S, model_A = cls.compute_variances(freqs)
+            sigma_E = model_E if sigma_E is None else sigma_E
+            sigma_S = model_S if sigma_S is None else sigma_S
+            sigma_A = model_A if sigma_A is None else sigma_A
 
         # Check input dimensions
         n = len(freqs)
-- 
2.43.0


From ab1d997289d5a29db79174693fb5f7d28e9d0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 19/24] fix: BA18 correlation accepts any array-like of
 frequencies

---
 src/pygmm/bayless_abrahamson_2018.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygmm/bayless_abrahamson_2018.py b/src/pygmm/bayless_abrahamson_2018.py
index f3db13f..55a777c 100644
--- a/src/pygmm/bayless_abrahamson_2018.py
+++ b/src/pygmm/bayless_abrahamson_2018.py
@@ -39,6 +39,8 @@ class BaylessAbrahamson2018:
             Correlation coefficient matrix
         """
 
+        freqs = np.asarray(freqs)
+
         # Create two matrices of frequencies
         n = freqs.shape[0]
         freqs_row = np.full((n, n), freqs)
-- 
2.43.0


From caa62bb59c12be7a2918a9aa46fc76557978d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 20/24] fix: conditional spectrum vector when every period is
 conditioned

---
 src/pygmm/kishida_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/kishida_2017.py b/src/pygmm/kishida_2017.py
index 7244613..2cf4971 100644
--- a/src/pygmm/kishida_2017.py
+++ b/src/pygmm/kishida_2017.py
@@ -55,7 +55,7 @@ def calc_cond_mean_spectrum_vector(
     if not np.all(np.diff(periods) > 0):
         raise ValueError("`periods` must be increasing")
 
-    mask = ln_psas_cond.mask
+    mask = np.ma.getmaskarray(ln_psas_cond)
 
     # Group the periods into those not being conditioned upon, and those used
     # for the conditioning. See Equations (14), (15), and (16)
-- 
2.43.0


From 2e951164640759d84b3b72c291b98557b3618194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 21/24] fix: AB20 can be constructed and exposes its
 conditional PGV

---
 src/pygmm/abrahamson_bhasin_2020.py | 35 ++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/pygmm/abrahamson_bhasin_2020.py b/src/pygmm/abrahamson_bhasin_2020.py
index 1b56c98..1d7f83e 100644
--- a/src/pygmm/abrahamson_bhasin_2020.py
+++ b/src/pygmm/abrahamson_bhasin_2020.py
@@ -85,9 +85,9 @@ class AbrahamsonBhasin2020(model.Model):
     def __init__(
         self,
         scenario: model.Scenario,
-        psa=Optional[float],
-        pga=Optional[float],
-        psa_1s=Optional[float],
+        psa: Optional[float] = None,
+        pga: Optional[float] = None,
+        psa_1s: Optional[float] = None,
     ):
         super().__init__(scenario)
 
@@ -119,7 +119,7 @@ class AbrahamsonBhasin2020(model.Model):
             + C.a_4 * (s.mag - 6)
             + C.a_5 * (8.5 - s.mag) ** 2
             + C.a_6 * np.log(s.dist_rup + 5 * np.exp(0.4 * (s.mag - 6)))
-            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(C.v_s30 / self.V_REF)
+            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(s.v_s30 / self.V_REF)
         )
 
         if method == "psa(T=Tpgv)":
@@ -127,21 +127,34 @@ class AbrahamsonBhasin2020(model.Model):
         else:
 
             def interp(var_1, var_2):
-                if s.mag < C.mag_1:
+                if s.mag < C.M_1:
                     val = var_1
-                elif s.mag > C.mag_2:
+                elif s.mag > C.M_2:
                     val = var_2
                 else:
-                    val = var_1 + (var_2 - var_1) * (s.mag - C.mag_1) / (
-                        C.mag_2 - C.mag_1
-                    )
+                    val = var_1 + (var_2 - var_1) * (s.mag - C.M_1) / (C.M_2 - C.M_1)
                 return val
 
             phi = interp(C.phi_1, C.phi_2)
             tau = interp(C.tau_1, C.tau_2)
 
-        ln_std = np.sqrt(phi**2 + tau**2)
-        return ln_mean, ln_std
+        self._ln_pgv = ln_mean
+        self._ln_std = np.sqrt(phi**2 + tau**2)
+
+    @property
+    def ln_pgv(self) -> float:
+        """Natural logarithm of the conditional peak ground velocity."""
+        return self._ln_pgv
+
+    @property
+    def pgv(self) -> float:
+        """Conditional peak ground velocity (cm/sec)."""
+        return np.exp(self._ln_pgv)
+
+    @property
+    def ln_std(self) -> float:
+        """Logarithmic standard deviation of the conditional peak ground velocity."""
+        return self._ln_std
 
     @classmethod
     def ln_period_pgv(cls, mag: float) -> float:
-- 
2.43.0


From 00d5a77613c2a5844bb13db7e5b52de158c985b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 22/24] fix: BA19 standard deviation is defined above 24 Hz

---
 src/pygmm/bayless_abrahamson_2019.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index c9bbc6d..292ec92 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -177,7 +177,10 @@ class BaylessAbrahamson2019(model.Model):
         phi_s2s = interp(c.s3, c.s4)
         phi_ss = interp(c.s5, c.s6)
 
-        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c.c1a**2)
+        # No adjustment is tabulated (zero) for the extrapolated frequencies
+        c1a = np.where(np.isnan(c.c1a), 0, c.c1a)
+
+        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c1a**2)
         return ln_std
 
     @staticmethod
-- 
2.43.0


From 262a3c2ab91b57db49664c81e2a4f2ba0706d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:49 +0000
Subject: [PATCH 23/24] fix: CB14 soft-site term for Japan adds to the linear
 Japanese term

---
 src/pygmm/campbell_bozorgnia_2014.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index aff200b..a781381 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -250,12 +250,12 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         if region == "japan":
             # Apply regional correction for Japan
+            f_site += (c.c_13 + c.k_2 * cls.COEFF_N) * np.log(vs_ratio)
             if v_s30 <= 200:
+                # Additional term for soft sites
                 f_site += (c.c_12 + c.k_2 * cls.COEFF_N) * (
                     np.log(vs_ratio) - np.log(200 / c.k_1)
                 )
-            else:
-                f_site += (c.c_13 + c.k_2 * cls.COEFF_N) * np.log(vs_ratio)
 
         # Basin response term
         if np.isnan(pga_ref):
-- 
2.43.0


From 8074e93970eb9de8300d2ce74105b3cb80c7f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:56 +0000
Subject: [PATCH 24/24] fix: ASK14 applies the basin term at a site velocity of
 1180 m/s

---
 src/pygmm/abrahamson_silva_kamai_2014.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_kamai_2014.py b/src/pygmm/abrahamson_silva_kamai_2014.py
index 8c873fd..283ce64 100644
--- a/src/pygmm/abrahamson_silva_kamai_2014.py
+++ b/src/pygmm/abrahamson_silva_kamai_2014.py
@@ -124,7 +124,9 @@ class AbrahamsonSilvaKamai2014(model.GroundMotionModel):
         else:
             f7, f8 = 0, 0
 
-        site_term = self.calc_site_term(resp_ref, v_s30, s.depth_1_0, s.region)
+        # No basin response for the reference response
+        depth_1_0 = None if np.all(np.isnan(resp_ref)) else s.depth_1_0
+        site_term = self.calc_site_term(resp_ref, v_s30, depth_1_0, s.region)
 
         # Aftershock term
         if s.is_aftershock:
@@ -197,7 +199,7 @@ class AbrahamsonSilvaKamai2014(model.GroundMotionModel):
         )[mask]
 
         # Basin term
-        if v_s30 == cls.V_REF or depth_1_0 is None:
+        if depth_1_0 is None:
             # No basin response
             f10 = 0
         else:
-- 
2.43.0

