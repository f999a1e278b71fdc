From e14bfc9b9cd83069c86a24496c23541fff28301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 01/31] fix: honour a random variable test seed of 0

---
 gerabaldi/models/random_vars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 3944970..a809aec 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -30,7 +30,7 @@ class RandomVar:
         if dist_type:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
-        if test_seed:
+        if test_seed is not None:
             self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
         else:
             self._generator = getattr(np.random.default_rng(), self._dist_type)
-- 
2.43.0


From e9b203c19b595e3cc8991426fb2eed6af63c904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 02/31] fix: make the order of condition dependencies
 deterministic across processes

---
 gerabaldi/models/devices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8c09506..d72d5c6 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1116,7 +1116,8 @@ class DegPrmMdl(LatentMdl):
         else:
             depends_conds.extend([arg for arg in self.cond_mdl.compute_args if arg in conditions])
         # There is a chance to have overlapping environmental condition dependencies, so remove any duplicates
-        return [*set(depends_conds)]
+        # Keep the order of first occurrence so that sampling order does not depend on the interpreter's hash seed
+        return list(dict.fromkeys(depends_conds))
 
 
 class CircPrmMdl(LatentMdl):
-- 
2.43.0


From 0521d06d52b58489d08730fed837a2b3b6a9129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 03/31] fix: let several parameters share one variation model
 or instrument object

---
 gerabaldi/models/phys_envs.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 58b006d..6078164 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -326,24 +326,26 @@ class PhysTestEnv:
         self.name = env_name
         # Non-mutable default argument setup
         if env_vrtns is None:
-            env_vrtns = []
+            env_vrtns = {}
         elif type(env_vrtns) is dict:
-            # If passed as a dictionary, set the object names and transform to list
+            # If passed as a dictionary, set the object names
             for prm in env_vrtns:
                 env_vrtns[prm].name = prm
-            env_vrtns = [env_vrtns[prm] for prm in env_vrtns]
+        else:
+            env_vrtns = {mdl.name: mdl for mdl in env_vrtns}
         if meas_instms is None:
-            meas_instms = []
+            meas_instms = {}
         elif type(meas_instms) is dict:
             for prm in meas_instms:
                 meas_instms[prm].name = prm
-            meas_instms = [meas_instms[prm] for prm in meas_instms]
+        else:
+            meas_instms = {instm.name: instm for instm in meas_instms}
 
-        # Create attributes for each parameter
+        # Create attributes for each parameter, by key as the same object may be used for several parameters
         for prm in env_vrtns:
-            setattr(self, prm.name + '_var', prm)
+            setattr(self, prm + '_var', env_vrtns[prm])
         for prm in meas_instms:
-            setattr(self, prm.name + '_instm', prm)
+            setattr(self, prm + '_instm', meas_instms[prm])
 
     def meas_instm(self, prm: str) -> MeasInstrument:
         """
-- 
2.43.0


From cdb844df70df3f94f9a30d646eea59a6c3f88a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 04/31] fix: measure not-a-number values and numpy scalars
 without failing

---
 gerabaldi/models/phys_envs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 6078164..f5a87a4 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -84,7 +84,7 @@ class MeasInstrument:
             # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
             # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or np.isinf(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
@@ -93,7 +93,7 @@ class MeasInstrument:
         # Convert the measured values back into the passed data type
         if rtrn_type == np.ndarray:
             meas_vals = np.array(meas_vals)
-        elif rtrn_type is int or rtrn_type is float:
+        elif issubclass(rtrn_type, (int, float, np.number)):
             meas_vals = meas_vals[0]
         return meas_vals
 
-- 
2.43.0


From 74136aaa340fc12af6ec39a23e0ec8e2720df9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 05/31] fix: replace the default stream handler when
 configuring the logger

---
 gerabaldi/helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 09af102..57d08bd 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -70,17 +70,18 @@ def configure_logger(
     """
     logger = logging.getLogger('gerabaldi')
     # If the user has provided a global logging level, set accordingly
-    if logging_level:
+    if logging_level is not None:
         logger.setLevel(logging_level)
 
     # Identify any existing logging output handlers based on their types
     existing_stream_handler = None
     existing_file_handler = None
     for handler in logger.handlers:
-        if type(handler) is logging.StreamHandler and type(handler) is not logging.FileHandler:
-            existing_stream_handler = handler
-        elif type(handler) is logging.FileHandler:
+        # File handlers are also stream handlers, and the default handler's type is a subclass of StreamHandler
+        if isinstance(handler, logging.FileHandler):
             existing_file_handler = handler
+        elif isinstance(handler, logging.StreamHandler):
+            existing_stream_handler = handler
 
     # If the user provided a custom stream handler, remove the default one, add the custom one
     if stream_handler:
-- 
2.43.0


From 120d74a1857b4ef6d1e8581dd58f11bd852258f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 06/31] fix: simulate devices with parameters that the test
 does not measure

---
 gerabaldi/models/devices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index d72d5c6..94f6f1d 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1306,16 +1306,16 @@ class DeviceMdl:
         """
         latents, init_mech_vals, init_prm_vals = {}, {}, {}
         for prm in self.prm_mdl_list:
+            # In case the parameter is not directly measured and instead used in calculating other parameters,
+            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
+            if prm not in sample_counts:
+                sample_counts[prm] = max(sample_counts.values(), default=1)
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_mech_vals[prm] = self.prm_mdl(prm).gen_init_mech_vals(sample_counts[prm], num_chps, num_lots)
             # Then initialize the un-aged values for the device parameters
-            # In case the parameter is not directly measured and instead used in calculating other parameters,
-            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
-            if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_prm_vals[prm] = self.prm_mdl(prm).init_mdl.gen_init_vals(sample_counts[prm], num_chps, num_lots)
         # Return a simulation state containing all the generated initial information about the devices to be tested
-- 
2.43.0


From 3dfd39ddcb1c900762f971eaeae1d1994d96c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 07/31] fix: leave the caller's device counts unchanged when
 generating an initial state

---
 gerabaldi/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d35eb2b..8a4efcc 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -53,7 +53,8 @@ def gen_init_state(
     if quantity_info and not dev_counts:
         devs, chps, lots = quantity_info.dev_counts, quantity_info.num_chps, quantity_info.num_lots
     elif dev_counts:
-        devs, chps, lots = dev_counts, num_chps, num_lots
+        # Copied as the counts may be increased below, which should not alter the caller's mapping
+        devs, chps, lots = dev_counts.copy(), num_chps, num_lots
     else:
         raise UserConfigError(
             'The number of devices for each parameter must be specified either manually or by report.'
-- 
2.43.0


From a6fb792be46fcbf89fb1d9fcdabf3d2d01217c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 08/31] fix: accept numeric elapsed times when generating an
 initial state

---
 gerabaldi/sim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 8a4efcc..ec7ca93 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -82,8 +82,10 @@ def gen_init_state(
 
     # Now initialize the physical state and override the elapsed time if specified
     init_state = dev_mdl.gen_init_state(devs, chps, lots)
-    if elapsed_time != 0:
-        init_state.elapsed = elapsed_time
+    if not isinstance(elapsed_time, timedelta):
+        # Numeric times without explicit units are in hours, as elsewhere in the package
+        elapsed_time = _convert_time(elapsed_time, None)
+    init_state.elapsed = elapsed_time
     return init_state
 
 
-- 
2.43.0


From ff7dd09ba7c2f6136ac8f5a7b43522e9f2fb8eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 09/31] fix: simulate all the devices of a passed initial state

---
 gerabaldi/sim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index ec7ca93..953b82c 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -5,6 +5,7 @@
 
 from __future__ import annotations
 
+import numpy as np
 import pandas as pd
 from datetime import timedelta
 from copy import deepcopy
@@ -225,7 +226,13 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
     test_report = SimReport(test_def)
 
     # Prepare the simulation data persistence structure
-    sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    if not init_state:
+        sim_state = gen_init_state(dev_mdl, quantity_info=test_report)
+    else:
+        sim_state = deepcopy(init_state)
+        # The passed state determines how many devices there are, which can be more than the test itself measures
+        for prm in sim_state.curr_prm_vals:
+            test_report.dev_counts[prm] = np.shape(sim_state.curr_prm_vals[prm])[2]
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From ab98eaae04cc2128fb07eefdff67d5b17ee3ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 10/31] fix: report measurements of undefined parameters with
 MissingParamError

---
 gerabaldi/models/phys_envs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index f5a87a4..de2c578 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -15,7 +15,7 @@ from pandas import Series
 from gerabaldi.models.devices import DeviceMdl
 from gerabaldi.models.reports import SimReport
 from gerabaldi.models.random_vars import Deterministic, RandomVar
-from gerabaldi.exceptions import InvalidTypeError, UserConfigError
+from gerabaldi.exceptions import InvalidTypeError, MissingParamError, UserConfigError
 from gerabaldi.helpers import _on_demand_import
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
@@ -453,6 +453,10 @@ class PhysTestEnv:
                 # in terms of stochastic variations, but shares the same test batch variation.
                 # This assignment is left for readability purposes to make the following line less confusing
                 cond = prm
+                if cond not in base_vals:
+                    raise MissingParamError(
+                        f"Cannot generate values for '{prm}', it is neither a device parameter nor a specified condition."
+                    )
                 sensor_vals = self.vrtn_mdl(cond).gen_chp_vrtns(batch[cond], dev_counts[prm])
                 # We treat each sensor as a separate chip with only 1 device for measurement each
                 cond_vals[prm] = {cond: self.vrtn_mdl(cond).gen_dev_vrtns(sensor_vals, 1)}
-- 
2.43.0


From 793fa50b6572f3ec45791429586ed867516b8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 11/31] fix: measure the requested devices of a circuit
 parameter on every lot and chip

---
 gerabaldi/models/devices.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 94f6f1d..bbe327f 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1175,14 +1175,15 @@ class CircPrmMdl(LatentMdl):
         """
         arg_vals = {}
         for arg in self.compute_args:
+            # More devices may be simulated than are measured, condition values are only generated for those measured
             if arg in latents:
-                arg_vals[arg] = latents[arg]
+                arg_vals[arg] = latents[arg][:, :, :num_samples]
             elif arg in strs_conds:
                 arg_vals[arg] = strs_conds[arg]
             elif arg in degraded_prm_vals:
-                arg_vals[arg] = degraded_prm_vals[arg]
+                arg_vals[arg] = degraded_prm_vals[arg][:, :, :num_samples]
 
-        return self.compute(**arg_vals)[:][:][:num_samples]
+        return self.compute(**arg_vals)
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From eb0fd29728584c134fcab50c8272e30dda9e40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:22 +0000
Subject: [PATCH 12/31] fix: support equations written for single values for
 all models and population sizes

---
 gerabaldi/helpers.py        | 14 ++++++++++++++
 gerabaldi/models/devices.py | 24 +++++++++---------------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 57d08bd..f128ba6 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -191,3 +191,17 @@ def _loop_compute(eqn, args_dict: dict, dims: tuple):
                 args = _get_single_index(args_dict, i, j, k)
                 computed[i, j, k] = eqn(**args)
     return computed
+
+
+def _compute_vals(eqn, args_dict: dict, dims: tuple, array_compute: bool = True):
+    """Compute an equation for all samples, using array computation if possible. Always returns one value per sample."""
+    if array_compute:
+        try:
+            vals = eqn(**args_dict)
+        except (TypeError, ValueError):
+            # Equations written for single values fail in one of these ways when passed arrays
+            pass
+        else:
+            # Equations written for single values may accept single element arrays, but then return a single value
+            return vals if np.ndim(vals) > 0 else np.full(dims, vals)
+    return _loop_compute(eqn, args_dict, dims)
diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index bbe327f..fdcfc63 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -13,7 +13,7 @@ from gerabaldi.math import minimize
 from gerabaldi.models.random_vars import RandomVar, Deterministic
 from gerabaldi.models.states import SimState
 from gerabaldi.exceptions import InvalidTypeError, UserConfigError
-from gerabaldi.helpers import logger, _on_demand_import, _loop_compute
+from gerabaldi.helpers import logger, _on_demand_import, _compute_vals, _loop_compute
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
 pymc = _on_demand_import('pymc')
@@ -454,7 +454,7 @@ class MechMdl(LatentMdl):
         # Calculate the degradation for all samples
         try:
             deg_vals = self.compute(**arg_vals)
-        except ValueError:
+        except (TypeError, ValueError):
             deg_vals = _loop_compute(self.compute, arg_vals, dims)
 
         # Overwrite the calculated degradation for the samples that we knew wouldn't degrade to the previous values
@@ -544,7 +544,7 @@ class DegMechMdl(MechMdl):
             # Calculate the degradation for the sample
             try:
                 return abs(curr_deg_val - self.compute(**arg_vals))
-            except ValueError:
+            except (TypeError, ValueError):
                 return abs(curr_deg_val - _loop_compute(self.compute, arg_vals, dims))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
@@ -726,7 +726,7 @@ class CondShiftMdl(LatentMdl):
                 arg_vals[arg] = strs_conds[arg]
         try:
             return self.compute(**arg_vals)
-        except ValueError:
+        except (TypeError, ValueError):
             return _loop_compute(self.compute, arg_vals, dims)
 
 
@@ -787,7 +787,7 @@ class InitValMdl(LatentMdl):
         # Can either generate the dev and lot variations here, or they could be provided as method arguments
         latents = self.gen_latent_vals(num_devs, num_chps, num_lots)
         # Compute the initial values using the model's specified equation
-        return self.compute(**latents)
+        return _compute_vals(self.compute, latents, (num_lots, num_chps, num_devs))
 
 
 class DegPrmMdl(LatentMdl):
@@ -1037,11 +1037,7 @@ class DegPrmMdl(LatentMdl):
                 arg_vals[arg] = latents[arg]
 
         # Now compute the parameter values using all the calculated mechanism and conditional shift values
-        try:
-            prm_vals = self.compute(**arg_vals)
-        except ValueError:
-            prm_vals = _loop_compute(self.compute, arg_vals, strs_dims)
-        return prm_vals, mech_vals
+        return _compute_vals(self.compute, arg_vals, strs_dims, self.array_compute), mech_vals
 
     def calc_cond_shifted_vals(
         self, meas_dims: tuple, strs_conds: dict, deg_vals: np.ndarray, latents: dict
@@ -1086,10 +1082,7 @@ class DegPrmMdl(LatentMdl):
                 arg_vals[arg] = latents[arg]
 
         # Now compute the parameter values
-        try:
-            return self.compute(**arg_vals)
-        except ValueError:
-            return _loop_compute(self.compute, arg_vals, meas_dims)
+        return _compute_vals(self.compute, arg_vals, meas_dims, self.array_compute)
 
     def get_dependencies(self, conditions, target):
         """
@@ -1183,7 +1176,8 @@ class CircPrmMdl(LatentMdl):
             elif arg in degraded_prm_vals:
                 arg_vals[arg] = degraded_prm_vals[arg][:, :, :num_samples]
 
-        return self.compute(**arg_vals)
+        # The population dimensions are the same for all the inputs
+        return _compute_vals(self.compute, arg_vals, np.broadcast_shapes(*[np.shape(val) for val in arg_vals.values()]))
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From a16f8bed66be60b7072d0504b9a0ccd0009b5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:22 +0000
Subject: [PATCH 13/31] fix: find equivalent stress times of saturating
 mechanisms and in any time unit

The search started on a flat stretch for mechanisms that saturate or that are
below a threshold, so that fresh devices never degraded or degraded devices
healed. Bracket the minimum of each sample first. The limits of the search
were also in mechanism time units, so that degradation stopped once times in
milli- or microseconds exceeded 9e9.
---
 gerabaldi/models/devices.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index fdcfc63..08d4c52 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,13 +7,14 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from datetime import timedelta
 from typing import Callable
 
 from gerabaldi.math import minimize
 from gerabaldi.models.random_vars import RandomVar, Deterministic
 from gerabaldi.models.states import SimState
 from gerabaldi.exceptions import InvalidTypeError, UserConfigError
-from gerabaldi.helpers import logger, _on_demand_import, _compute_vals, _loop_compute
+from gerabaldi.helpers import logger, _on_demand_import, _convert_time, _compute_vals, _loop_compute
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
 pymc = _on_demand_import('pymc')
@@ -414,6 +415,10 @@ class MechMdl(LatentMdl):
             else:
                 self.time_unit = prm_time_unit
 
+    def _max_equiv_time(self) -> float:
+        # Longest equivalent stress time considered, 10 billion hours, in the time unit of the mechanism
+        return _convert_time(timedelta(hours=1), self.time_unit) * 1e10
+
     def calc_deg_vals(
         self, times: np.ndarray, pre_deg_vals: np.ndarray, strs_conds: dict, latents: dict, dims: tuple
     ) -> np.ndarray:
@@ -441,7 +446,7 @@ class MechMdl(LatentMdl):
         """
         # To support degradation mechanisms that exhibit threshold behaviours, we first identify whether some samples
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
-        no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
+        no_deg_mask = np.where(times > 0.9 * self._max_equiv_time(), pre_deg_vals, np.inf)
 
         # Add the stress time to the argument dict
         arg_vals = {'time': times}
@@ -547,9 +552,21 @@ class DegMechMdl(MechMdl):
             except (TypeError, ValueError):
                 return abs(curr_deg_val - _loop_compute(self.compute, arg_vals, dims))
 
+        # Equations that saturate or have not reached a threshold are flat over wide time ranges, which the search cannot
+        # handle, thus first bracket the minimum of each sample using a coarse scan. If there are several minima use the
+        # earliest if the degradation is achieved, otherwise the latest as no length of time is sufficient.
+        f_args = {'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents}
+        scan_times = np.geomspace(1e-3, self._max_equiv_time(), 60)
+        low, high = scan_times[0], scan_times[1]
+        best = residue(np.full_like(deg_val, scan_times[0], dtype=float), **f_args)
+        for i, time in enumerate(scan_times[1:], 1):
+            res = residue(np.full_like(deg_val, time, dtype=float), **f_args)
+            is_best = np.less(res, best) | (np.equal(res, best) & np.greater(best, 0))
+            low, high = np.where(is_best, scan_times[i - 1], low), np.where(is_best, scan_times[min(i + 1, 59)], high)
+            best = np.where(is_best, res, best)
+
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
-        return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, 1e10), maxiter=50, log_gold=True)
+        return minimize(residue, extra_args=f_args, bounds=(low, high), maxiter=50, log_gold=True)
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From 5565f01c9a8666b3181335719a82d9b5ef5064c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:33 +0000
Subject: [PATCH 14/31] fix: allow stressing the default mechanism that does
 not wear out

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 08d4c52..3d62720 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -374,7 +374,7 @@ class MechMdl(LatentMdl):
     ):
         if not mech_eqn:
             # Default is a non-degrading model, parameter stays the same (i.e. 'fresh') regardless of stress and time
-            def no_wear_out():
+            def no_wear_out(time):
                 return unitary_val
 
             mech_eqn = no_wear_out
-- 
2.43.0


From a29e237749dad71fb67100b3c0bde16c3b695f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:24 +0000
Subject: [PATCH 15/31] fix: export latent variables with deterministic values
 without side effects

A centre of 0 was not restored after the export, nothing was restored after a
failed export, a deterministic value of 0 was ignored and the export to Pyro
failed as torch operations do not accept numbers.
---
 gerabaldi/models/devices.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 3d62720..8fa788c 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,7 +7,9 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from copy import copy
 from datetime import timedelta
+from operator import add, mul
 from typing import Callable
 
 from gerabaldi.math import minimize
@@ -220,16 +222,17 @@ class LatentVar:
                 raise NotImplementedError(f'Requested target CBI framework {target_framework} is not yet supported.')
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
-            old_centre = None
-            if self.deter_val:
+            dev_vrtn_mdl = self.dev_vrtn_mdl
+            if self.deter_val is not None and self.deter_val != self._unitary:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
-                old_centre = self.dev_vrtn_mdl.get_centre()
-                self.dev_vrtn_mdl.set_centre(self.deter_val, op)
+                # Only adjust a copy to avoid any method side effects.
+                dev_vrtn_mdl = copy(self.dev_vrtn_mdl)
+                dev_vrtn_mdl.set_centre(self.deter_val, mul if self.vrtn_type == 'scaling' else add)
 
             # Normal probabilistic model export, only incorporate the stochastic layers if used
             if self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 if target_framework == 'pymc':
@@ -237,18 +240,15 @@ class LatentVar:
                 else:
                     cbi_dist = op(op(dev, chp), lot)
             elif self._chp_vrtns and not self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, chp)) if target_framework == 'pymc' else op(dev, chp)
             elif not self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, lot)) if target_framework == 'pymc' else op(dev, lot)
             else:
-                cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-            # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre:
-                self.dev_vrtn_mdl.set_centre(old_centre)
+                cbi_dist = dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             return cbi_dist
         else:
             raise UserConfigError(f'Cannot export deterministic latent variable {self.name} for CBI use.')
-- 
2.43.0


From a3f41f9f95561038fa49c8a970305010a7421a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:24 +0000
Subject: [PATCH 16/31] fix: name the distributions of latent variable layers
 that are assigned later

---
 gerabaldi/models/devices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8fa788c..b09612f 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -166,6 +166,9 @@ class LatentVar:
             if not self._lot_vrtns:
                 value = Deterministic(self._unitary)
         super().__setattr__(name, value)
+        # The naming of the distributions depends on which layers are defined, so update it for the new distribution
+        if name in ('dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl') and getattr(self, 'name', None) is not None:
+            self.name = self.name
 
     def gen_latent_vals(self, num_devs: int = 1, num_chps: int = 1, num_lots: int = 1) -> np.ndarray:
         """
-- 
2.43.0


From 73eaed592c706338ccfb791569d9d748f140e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:24 +0000
Subject: [PATCH 17/31] fix: declare the event dimension of models exported to
 Pyro on their distribution

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index b09612f..361f9e9 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -357,7 +357,7 @@ class LatentMdl:
         if target_framework == 'pymc':
             return pymc.Normal(name=self.name, mu=computed, sigma=1, observed=observed[self.name])
         else:
-            return pyro.sample(self.name, dist.Normal(computed, 0.1), obs=observed[self.name]).to_event(1)
+            return pyro.sample(self.name, dist.Normal(computed, 0.1).to_event(1), obs=observed[self.name])
 
 
 class MechMdl(LatentMdl):
-- 
2.43.0


From d355ba647b2565c4224d7ee8d2ba602b3268e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:37 +0000
Subject: [PATCH 18/31] fix: allow exporting or converting a report whose times
 were already converted

Raw times were taken to be timedeltas, and a rejected conversion unit was kept
as the time unit of the report.
---
 gerabaldi/models/reports.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 1aab807..5af339e 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -201,7 +201,7 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+        meas_cpy['time'] = self._get_meas_times(units)
         report_json['Measurements'] = meas_cpy.to_json()
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
@@ -226,5 +226,12 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        self.measurements['time'] = self._get_meas_times(units)
         self.time_unit = units
-        self.measurements['time'] = self.measurements['time'].apply(lambda time: _convert_time(time, self.time_unit))
+
+    def _get_meas_times(self, units: str) -> pd.Series:
+        times = self.measurements['time']
+        # If the report times were already converted they are raw values in the report's time unit
+        if pd.api.types.is_numeric_dtype(times):
+            times = times.apply(lambda time: _convert_time(time, self.time_unit))
+        return times.apply(lambda time: _convert_time(time, units))
-- 
2.43.0


From 35b3b3554c6c66f2a48b09f75ad7355966014504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:37 +0000
Subject: [PATCH 19/31] fix: create all the missing folders when exporting a
 report

---
 gerabaldi/models/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 5af339e..3681ad0 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -212,7 +212,7 @@ class SimReport:
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
             data_dir = file.rpartition('/')[0]
-            Path(data_dir).mkdir(exist_ok=True)
+            Path(data_dir).mkdir(parents=True, exist_ok=True)
             with open(file, 'w') as f:
                 json.dump(report_json, f)
             logger.info(f'Successfully exported test report {self.test_name} to file.')
-- 
2.43.0


From b0aa269be984718803a61f3a6a1e76282e38ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:37 +0000
Subject: [PATCH 20/31] fix: export and reload report values without loss of
 precision

---
 gerabaldi/models/reports.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 3681ad0..7e32ece 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -73,8 +73,8 @@ class SimReport:
                     raise FileNotFoundError(msg) from e
             self.test_name = report_json['Test Name']
             self.test_description = report_json['Description']
-            self.measurements = pd.read_json(report_json['Measurements'])
-            self.test_summary = pd.read_json(report_json['Test Summary'])
+            self.measurements = self._load_table(report_json['Measurements'])
+            self.test_summary = self._load_table(report_json['Test Summary'])
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
@@ -88,6 +88,17 @@ class SimReport:
             self.measurements, self.test_summary = None, None
             self.num_chps, self.num_lots, self.dev_counts = None, None, None
 
+    # The pandas JSON methods are not used as they truncate numbers to 10 decimals, drop infinite values, and guess types
+    @staticmethod
+    def _dump_table(table: pd.DataFrame) -> str:
+        return json.dumps(table.to_dict(), default=lambda val: val.item())
+
+    @staticmethod
+    def _load_table(table_json: str) -> pd.DataFrame:
+        table = pd.DataFrame(json.loads(table_json))
+        table.index = table.index.astype(int)
+        return table
+
     @staticmethod
     def format_measurements(
         measured_vals: list | pd.Series | np.ndarray,
@@ -202,12 +213,12 @@ class SimReport:
 
         meas_cpy = self.measurements.copy()
         meas_cpy['time'] = self._get_meas_times(units)
-        report_json['Measurements'] = meas_cpy.to_json()
+        report_json['Measurements'] = self._dump_table(meas_cpy)
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
         strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
         strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
-        report_json['Test Summary'] = strs_cpy.to_json()
+        report_json['Test Summary'] = self._dump_table(strs_cpy)
 
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
-- 
2.43.0


From 35b045eb61ef9f91cba68be4c7fd15f165fb8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:52 +0000
Subject: [PATCH 21/31] fix: allow exporting and converting reports of tests
 without measurements

---
 gerabaldi/models/reports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 7e32ece..8068688 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -241,7 +241,8 @@ class SimReport:
         self.time_unit = units
 
     def _get_meas_times(self, units: str) -> pd.Series:
-        times = self.measurements['time']
+        # Tests without any measurements result in a table without columns
+        times = self.measurements.get('time', pd.Series(dtype=float))
         # If the report times were already converted they are raw values in the report's time unit
         if pd.api.types.is_numeric_dtype(times):
             times = times.apply(lambda time: _convert_time(time, self.time_unit))
-- 
2.43.0


From f87c78af89a37b47ee4dcca8564c77f1ad41f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:00 +0000
Subject: [PATCH 22/31] fix: reject unknown time units when converting reports
 without measurements

---
 gerabaldi/models/reports.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 8068688..b4f18b7 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -237,6 +237,11 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        if units not in TIME_UNIT_MAP:
+            raise UserConfigError(
+                f'Invalid time units "{units}" requested, implemented options are days (d), hours (h), '
+                f'seconds (s), milliseconds (ms), and microseconds (us).'
+            )
         self.measurements['time'] = self._get_meas_times(units)
         self.time_unit = units
 
-- 
2.43.0


From 51f2528cb59e8a21080dcb52393f80b259a6f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:55 +0000
Subject: [PATCH 23/31] fix: simulate without the iteration cursor that
 executions of a test share

---
 gerabaldi/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 953b82c..0e2bf24 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -236,7 +236,8 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-    for i, step in enumerate(test_def):
+    # Does not use the iteration cursor of the test itself, as the same test may be in the middle of another execution
+    for i, step in enumerate(test_def.steps):
         # Check whether the next step is a measurement or period of stress
         if type(step) is StrsSpec:
             _sim_stress_step(step, sim_state, dev_mdl, test_env, test_report, i)
-- 
2.43.0


From f5ab70dc549e887bb8b1964a58f54e738aea70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:45 +0000
Subject: [PATCH 24/31] fix: allow a measured parameter named meas

Instruments and variation models were stored as attributes named after the
parameter, so a parameter called meas looked up the meas_instm method itself.
---
 gerabaldi/models/phys_envs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index de2c578..7aa7a91 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -343,9 +343,9 @@ class PhysTestEnv:
 
         # Create attributes for each parameter, by key as the same object may be used for several parameters
         for prm in env_vrtns:
-            setattr(self, prm + '_var', env_vrtns[prm])
+            setattr(self, f'_{prm}_var', env_vrtns[prm])
         for prm in meas_instms:
-            setattr(self, prm + '_instm', meas_instms[prm])
+            setattr(self, f'_{prm}_instm', meas_instms[prm])
 
     def meas_instm(self, prm: str) -> MeasInstrument:
         """
@@ -361,7 +361,7 @@ class PhysTestEnv:
         MeasDevice
             A device to measure the parameter, either one previously defined for it or an ideal one if none exists
         """
-        return getattr(self, prm + '_instm', MeasInstrument(prm))
+        return getattr(self, f'_{prm}_instm', MeasInstrument(prm))
 
     def vrtn_mdl(self, prm: str) -> EnvVrtnMdl:
         """
@@ -377,7 +377,7 @@ class PhysTestEnv:
         EnvVrtnMdl
             A stochastic model representing the parameter variability, if none associated returns an exact distribution
         """
-        return getattr(self, prm + '_var', EnvVrtnMdl())
+        return getattr(self, f'_{prm}_var', EnvVrtnMdl())
 
     def gen_env_cond_vals(
         self,
-- 
2.43.0


From 81257ac88cca2f26f8421a3257ac44779355641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:34 +0000
Subject: [PATCH 25/31] fix: round very small measured values instead of
 returning NaN

Scaling by a power of ten overflows for values below about 1e-305.
---
 gerabaldi/models/phys_envs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 7aa7a91..66f17bd 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -5,7 +5,6 @@
 
 from __future__ import annotations
 
-from math import floor, log10
 import numpy as np
 import pandas as pd
 
@@ -81,10 +80,10 @@ class MeasInstrument:
             meas_vals = meas_vals.add(self._error.sample(len(meas_vals)))
         if self._precision:
             # This line allows for rounding to significant figures instead of to a decimal place
-            # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
-            # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
+            # The number is formatted in scientific notation as scaling by powers of ten overflows for very small values
+            # Ternary operator is used to handle special cases that do not need any rounding
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or not np.isfinite(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x) else type(x)(float(f'{x:.{self._precision - 1}e}'))
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
-- 
2.43.0


From 7d4bd673237a003ee553223349d30a0e36128916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 26/31] fix: pass values of any number type to equations
 written for single values

---
 gerabaldi/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index f128ba6..6364862 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -177,7 +177,7 @@ def _get_single_index(vals: dict, i: int, j: int, k: int) -> dict:
             new[key] = _get_single_index(vals[key], i, j, k)
         elif type(val) in [np.ndarray, list]:
             new[key] = val[i][j][k]
-        elif type(val) in [int, float, np.float64, tuple]:
+        else:
             new[key] = val
     return new
 
-- 
2.43.0


From 2d613747559dec1e675fc13dd39ac16ecfeee61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:59 +0000
Subject: [PATCH 27/31] fix: find equivalent stress times of mechanisms with an
 incubation time in any time unit

---
 gerabaldi/math/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/math/minimize.py b/gerabaldi/math/minimize.py
index 9f8d449..e646d43 100644
--- a/gerabaldi/math/minimize.py
+++ b/gerabaldi/math/minimize.py
@@ -105,7 +105,8 @@ def minimize(func, extra_args: dict, bounds, precision=1e-5, mach_eps=MACH_64BIT
         # Now to update all the variables
         e = d
         d = step
-        is_less = np.less_equal(fu, fx)
+        # Of equal values keep the later point, residues are flat before a mechanism sets in but have no minimum there
+        is_less = np.less(fu, fx) | (np.equal(fu, fx) & np.greater_equal(u, x))
 
         a = np.where(is_less & np.greater_equal(u, x), x, np.where(~is_less & np.less(u, x), u, a))
         b = np.where(is_less & np.less(u, x), x, np.where(~is_less & np.greater_equal(u, x), u, b))
-- 
2.43.0


From 3deb093e67c7b4e66a76b2279097bb8b70c896a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:19 +0000
Subject: [PATCH 28/31] fix: accept durations given as numpy integers

---
 gerabaldi/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 6364862..d7bc4de 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -123,7 +123,8 @@ def _convert_time(time, units, **kwargs):
     if type(time) in [timedelta, pd.Timedelta]:
         return time.total_seconds() / TIME_SECOND_FACTORS[td_unit]
     else:
-        return timedelta(**{td_unit: time})
+        # Numpy integers are not accepted as they are
+        return timedelta(**{td_unit: time.item() if isinstance(time, np.generic) else time})
 
 
 def _on_demand_import(module: str, pypi_name: str = None):
-- 
2.43.0


From 89726117b8830494405bc01fe6d9972220805290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:57 +0000
Subject: [PATCH 29/31] fix: keep infinite degradation when the stress
 conditions cannot explain it

---
 gerabaldi/models/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 361f9e9..4074b47 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -449,7 +449,7 @@ class MechMdl(LatentMdl):
         """
         # To support degradation mechanisms that exhibit threshold behaviours, we first identify whether some samples
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
-        no_deg_mask = np.where(times > 0.9 * self._max_equiv_time(), pre_deg_vals, np.inf)
+        no_deg_mask = times > 0.9 * self._max_equiv_time()
 
         # Add the stress time to the argument dict
         arg_vals = {'time': times}
@@ -468,7 +468,7 @@ class MechMdl(LatentMdl):
         # Overwrite the calculated degradation for the samples that we knew wouldn't degrade to the previous values
         # Note that we do a little extra work here as deg_vals is still computed for the non-degrading samples, but this
         # allows for array computation.
-        return np.where(no_deg_mask == np.inf, deg_vals, no_deg_mask)
+        return np.where(no_deg_mask, pre_deg_vals, deg_vals)
 
 
 class DegMechMdl(MechMdl):
-- 
2.43.0


From de3f0b2ad0125025d50755ff3d98ce24117f3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:08 +0000
Subject: [PATCH 30/31] fix: accept numeric elapsed times when creating a
 simulation state

---
 gerabaldi/models/states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/states.py b/gerabaldi/models/states.py
index 427f182..52c4482 100644
--- a/gerabaldi/models/states.py
+++ b/gerabaldi/models/states.py
@@ -8,6 +8,8 @@ from __future__ import annotations
 from datetime import timedelta
 from copy import deepcopy
 
+from gerabaldi.helpers import _convert_time
+
 __all__ = ['SimState']
 
 
@@ -52,7 +54,8 @@ class SimState:
         elapsed_time: timedelta or float or int, optional
             The amount of accumulated stress time thus far, typically initialized to 0 (default 0)
         """
-        self.elapsed = elapsed_time
+        # Numeric times without explicit units are in hours, as elsewhere in the package
+        self.elapsed = elapsed_time if isinstance(elapsed_time, timedelta) else _convert_time(elapsed_time, None)
         self.curr_prm_vals = deepcopy(init_prm_vals)
         self.init_prm_vals = deepcopy(init_prm_vals)
         self.curr_deg_mech_vals = deepcopy(init_mech_vals)
-- 
2.43.0


From 25eb443bc52d627faa61e0b5c3b788df044734e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:08 +0000
Subject: [PATCH 31/31] fix: pass time units on to mechanism models of derived
 classes

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 4074b47..03369fc 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -894,7 +894,7 @@ class DegPrmMdl(LatentMdl):
     def propagate_time_unit(self, dev_time_unit: str = None) -> None:
         time_unit = self.time_unit if self.time_unit else dev_time_unit
         for mech in self.mech_mdl_list:
-            if type(self.mech_mdl(mech)) in (DegMechMdl, FailMechMdl):
+            if isinstance(self.mech_mdl(mech), MechMdl):
                 self.mech_mdl(mech).set_time_unit(time_unit)
 
     def mech_mdl(self, mdl):
-- 
2.43.0

