From 3000898ac748a7d87d4c7b0f18dd62965511e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 1/5] fix: impulse response heat uptake is independent of the
 parameters' units

The heat uptake used the bare magnitudes of lambda0 and of the efficacy
term, so it was silently wrong (or an AssertionError) if q1, q2, d1 or d2
were given in other units than the model's own, e.g. if they came from a
two-layer model whose depths were given in km.
---
 src/openscm_twolayermodel/impulse_response_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index dc1d3f8..1d0b236 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -33,6 +33,7 @@ class ImpulseResponseModel(
     _q1_unit = "delta_degC/(W/m^2)"
     _q2_unit = "delta_degC/(W/m^2)"
     _efficacy_unit = "dimensionless"
+    _lambda0_unit = "W/m^2/delta_degC"
     _delta_t_unit = "yr"
 
     _erf_unit = "W/m^2"
@@ -215,10 +216,10 @@ class ImpulseResponseModel(
 
     def _calculate_next_rndt(self, t1, t2, erf, efficacy):
         two_layer_paras = self.get_two_layer_parameters()
-        lambda0 = two_layer_paras["lambda0"]
+        lambda0_mag = two_layer_paras["lambda0"].to(self._lambda0_unit).magnitude
 
         if np.equal(efficacy, 1):
-            efficacy_term = 0 * ur(self._erf_unit)
+            efficacy_term_mag = 0
         else:
             gh = _calculate_geoffroy_helper_parameters(
                 two_layer_paras["du"],
@@ -236,10 +237,9 @@ class ImpulseResponseModel(
                 * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
             )
 
-            if str(efficacy_term.units) != "watt / meter ** 2":
-                raise AssertionError("units should have come out as W/m^2")
+            efficacy_term_mag = efficacy_term.to(self._rndt_unit).magnitude
 
-        out = erf - lambda0.magnitude * (t1 + t2) - efficacy_term.magnitude
+        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag
 
         return out
 
-- 
2.43.0


From 68013b267afaf0a373374819239e44ae84b205ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 2/5] fix: only treat a time axis as yearly if its steps last
 one year

Any axis whose calendar years were consecutive was run with a timestep of
one year, e.g. a December-January pair of monthly (or 31 December-1 January
pair of daily) values, although the steps are then not one year long.
---
 src/openscm_twolayermodel/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index ea817ed..837ed3b 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -153,11 +153,16 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _select_timestep(driver):
         year_diff = driver["year"].diff().dropna()
-        if (year_diff == 1).all():
-            # assume yearly timesteps
+        time_diff = driver["time"].diff().dropna()
+        if (year_diff == 1).all() and all(
+            np.logical_and(
+                time_diff <= np.timedelta64(367, "D"),
+                time_diff >= np.timedelta64(364, "D"),
+            )
+        ):
+            # assume yearly timesteps (a day of leeway as decimal years get rounded)
             return 1 * ur("yr")
 
-        time_diff = driver["time"].diff().dropna()
         if all(
             np.logical_and(
                 time_diff <= np.timedelta64(31, "D"),
-- 
2.43.0


From de83c1d47ae2e2dc5915b92fca1c83d886c04ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 3/5] fix: refuse scenarios with missing values inside their
 time series

Such a scenario only passed the timestep check because another scenario
filled the time axis. Its values were then run as if they were contiguous,
with the wrong timestep; on its own the same scenario is rejected.
---
 src/openscm_twolayermodel/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 837ed3b..5077684 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -242,6 +242,11 @@ class TwoLayerVariant(Model):
         ):
             meta = dict(zip(driver_ts.index.names, label))
             row_no_nan = row.dropna()
+            if (np.diff(np.flatnonzero(row.notnull())) > 1).any():
+                raise NotImplementedError(
+                    "Missing values within the time series of scenario: {}, "
+                    "the timestep must be constant".format(meta)
+                )
 
             self.set_drivers(row_no_nan.values * ur(meta["unit"]))
             self.reset()
-- 
2.43.0


From 0986cac6ded2eb3d2f90d8d8916531ac4bea619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 4/5] fix: running scenarios given as a data frame leaves that
 data frame unmodified

---
 src/openscm_twolayermodel/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 5077684..8806b80 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -1,6 +1,7 @@
 """
 Module containing the base for model implementations
 """
+import copy
 from abc import ABC, abstractmethod
 
 import numpy as np
@@ -135,7 +136,8 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _ensure_scenarios_are_scmrun(scenarios):
         if not isinstance(scenarios, ScmRun):
-            driver = ScmRun(scenarios)
+            # ScmRun modifies data frames it is initialised with
+            driver = ScmRun(copy.deepcopy(scenarios))
         else:
             driver = scenarios.copy()
 
-- 
2.43.0


From eedddaeb7d819a360d882846ac976877b303b96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 5/5] fix: climate sensitivity of doubling forcings stored as
 unsigned integers

Negating the forcing first wraps around for unsigned magnitudes, so
convert_lambda_to_ecs returned sensitivities of the wrong sign and size.
---
 src/openscm_twolayermodel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/utils.py b/src/openscm_twolayermodel/utils.py
index 6a620f9..fe1243c 100644
--- a/src/openscm_twolayermodel/utils.py
+++ b/src/openscm_twolayermodel/utils.py
@@ -34,4 +34,4 @@ def convert_lambda_to_ecs(lambda_val, f2x=3.74 * unit_registry("W/m^2")):
     if not isinstance(f2x, pint.Quantity):
         raise TypeError("f2x is not a pint.Quantity")
 
-    return -f2x / lambda_val
+    return -(f2x / lambda_val)
-- 
2.43.0

