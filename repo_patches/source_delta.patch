From 19f4c339cdb59603c08defdb7d54feab4dee11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 001/125] fix: LookupTable with a single input variable (no
 multi-index levshape)

---
 foxes/models/turbine_models/lookup_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 5ae07d9..689bfe4 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -150,7 +150,7 @@ class LookupTable(TurbineModel):
                 dvars[oname] = (
                     self.input_vars,
                     pivot_matrix.to_numpy(config.dtype_double).reshape(
-                        pivot_matrix.index.levshape
+                        [len(coords[v]) for v in self.input_vars]
                     ),
                 )
 
-- 
2.43.0


From ed2f1d4b4883e234e3a58873a6929c700157b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 002/125] fix: LookupTable failed for empty state-turbine
 selections

---
 foxes/models/turbine_models/lookup_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 689bfe4..723e8a4 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -214,6 +214,10 @@ class LookupTable(TurbineModel):
         }
         del data, dims
 
+        # nothing to do for an empty selection of states and turbines:
+        if any(d.size == 0 for d in indata.values()):
+            return {v: fdata[v] for v in self.output_vars}
+
         iargs = dict(bounds_error=True)
         iargs.update(self._iargs)
         try:
-- 
2.43.0


From c01bb9e929e1756e831819933107371be0d02d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 003/125] fix: FieldDataNC restricted the x range by the upper
 y bound of the farm

---
 foxes/input/states/field_data_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 8a1b3bc..b426cf4 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -387,7 +387,7 @@ class FieldDataNC(States):
                     )
                 self.sel.update(
                     {
-                        self.x_coord: slice(xy_min[0], xy_max[1]),
+                        self.x_coord: slice(xy_min[0], xy_max[0]),
                         self.y_coord: slice(xy_min[1], xy_max[1]),
                     }
                 )
-- 
2.43.0


From 01e8e726041c0ad1a815f91d3115e1cdd2346f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 004/125] fix: YawedWakes objects shared one default base frame

---
 foxes/models/wake_frames/yawed_wakes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 38e1a5d..40d8b6e 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -42,7 +42,7 @@ class YawedWakes(WakeFrame):
 
     def __init__(
         self,
-        base_frame=RotorWD(),
+        base_frame=None,
         alpha=0.58,
         beta=0.07,
         induction="Madsen",
@@ -54,8 +54,8 @@ class YawedWakes(WakeFrame):
 
         Parameters
         ----------
-        base_frame: foxes.core.WakeFrame
-            The wake frame from which to start
+        base_frame: foxes.core.WakeFrame, optional
+            The wake frame from which to start, default is RotorWD
         alpha: float
             model parameter used to determine onset of far wake region,
             if not found in wake model
@@ -72,7 +72,7 @@ class YawedWakes(WakeFrame):
         """
         super().__init__(max_length_km=max_length_km)
 
-        self.base_frame = base_frame
+        self.base_frame = RotorWD() if base_frame is None else base_frame
         self.model = None
         self.alpha = alpha
         self.beta = beta
-- 
2.43.0


From 5f7dff11b005d84e00f7661436e82512e0b9412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 005/125] fix: chunks run by threads shared one chunk store
 (lost data in iterative runs)

---
 foxes/engines/pool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 2c17007..3271e5a 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -1,6 +1,7 @@
 import numpy as np
 import xarray as xr
 from abc import abstractmethod
+from copy import copy
 from tqdm import tqdm
 
 from foxes.core import Engine
@@ -9,7 +10,9 @@ import foxes.constants as FC
 
 def _run(algo, model, data, iterative, chunk_store, i0_t0, **cpars):
     """Helper function for running in a single process"""
-    algo.reset_chunk_store(chunk_store)
+    # threads share the objects, but each chunk needs its own chunk store:
+    algo = copy(algo)
+    algo.reset_chunk_store({k: copy(d) for k, d in chunk_store.items()})
     results = model.calculate(algo, *data, **cpars)
     chunk_store = algo.reset_chunk_store() if iterative else {}
     cstore = {i0_t0: chunk_store[i0_t0]} if i0_t0 in chunk_store else {}
-- 
2.43.0


From f35fc9f35ad84f184e39cde04dd7c1dfec28c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 006/125] fix: dask engines shared one default dask_config
 dictionary

---
 foxes/engines/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 8cbf28a..10bd6e5 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -79,7 +79,7 @@ class DaskBaseEngine(Engine):
 
         load_dask()
 
-        self.dask_config = dask_config
+        self.dask_config = dict(dask_config)
         self.progress_bar = progress_bar
 
     def __enter__(self):
-- 
2.43.0


From ea01b56197dcd63ffae7817bd9262e62eff49fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 007/125] fix: WSProduct gave zero wind speed where no wake
 contributes

---
 foxes/models/wake_superpositions/ws_product.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_superpositions/ws_product.py b/foxes/models/wake_superpositions/ws_product.py
index ce65425..c985074 100644
--- a/foxes/models/wake_superpositions/ws_product.py
+++ b/foxes/models/wake_superpositions/ws_product.py
@@ -118,11 +118,10 @@ class WSProduct(WakeSuperposition):
                 f"Superposition '{self.name}': Expecting wind speed variable, got {variable}"
             )
 
-        if np.max(np.abs(wake_delta)) < 1e-14:
-            wake_delta[:] = 1
-
+        # wake_delta is the product minus one, such that
+        # zero represents the absence of wakes:
         if np.any(st_sel):
-            wake_delta[st_sel] *= 1 + wake_model_result
+            wake_delta[st_sel] = (1 + wake_delta[st_sel]) * (1 + wake_model_result) - 1
 
         return wake_delta
 
@@ -164,7 +163,7 @@ class WSProduct(WakeSuperposition):
             (n_states, n_targets, n_tpoints)
 
         """
-        w = amb_results * (wake_delta - 1)
+        w = amb_results * wake_delta
         if self.lim_low is not None:
             w = np.maximum(w, self.lim_low - amb_results)
         if self.lim_high is not None:
-- 
2.43.0


From 8570a76110f5813b1bf0220b6f11c8d16b69bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 008/125] fix: timelines failed for states tables with weights

---
 foxes/input/states/states_table.py    | 2 +-
 foxes/models/wake_frames/timelines.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 1b5fb09..12d2983 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -260,7 +260,7 @@ class StatesTable(States):
         idata["coords"][self.VARS] = self._tvars
         idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data.to_numpy())
         if weights is not None:
-            idata["data_vars"][self.WEIGHT] = (FC.STATE, weights)
+            idata["data_vars"][self.WEIGHT] = ((FC.STATE,), weights)
 
         return idata
 
diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index f6605d7..53a5a8c 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -122,7 +122,7 @@ class Timelines(WakeFrame):
 
             if weight_data is None:
                 weight_data = ((FC.STATE,), tdata[FV.WEIGHT][:, 0, 0])
-            elif not np.all(tdata[FV.WEIGHT] == weight_data[1]):
+            elif not np.all(tdata[FV.WEIGHT][:, 0, 0] == weight_data[1]):
                 raise AssertionError(
                     f"States '{self.name}': weight data mismatch between heights"
                 )
-- 
2.43.0


From bf8c3403a1610cc41637d3ef89526761ccab3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 009/125] fix: XArrayEngine passed the chunk's state offset as
 an array

---
 foxes/engines/dask.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 10bd6e5..0b8f93a 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -205,6 +205,9 @@ def _run_as_ufunc(
     """
     Wrapper that mitigates between apply_ufunc and `calculate`.
     """
+    # dask may add axes of size 1 for extra loop dimensions:
+    states_i0 = int(np.ravel(state_inds)[0])
+
     n_prev = len(init_vars)
     if n_prev:
         prev = ldata[:n_prev]
@@ -222,19 +225,19 @@ def _run_as_ufunc(
         if i == 0:
             data.append(
                 MData(
-                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=state_inds[0]
+                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=states_i0
                 )
             )
         elif i == 1:
             data.append(
                 FData(
-                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=state_inds[0]
+                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=states_i0
                 )
             )
         elif i == 2:
             data.append(
                 TData(
-                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=state_inds[0]
+                    data=hdata, dims=hdims, loop_dims=loop_dims, states_i0=states_i0
                 )
             )
         else:
@@ -267,14 +270,14 @@ def _run_as_ufunc(
     }
 
     if len(data) == 1:
-        data.append(FData(odata, odims, loop_dims, states_i0=state_inds[0]))
+        data.append(FData(odata, odims, loop_dims, states_i0=states_i0))
     else:
         odata.update(data[-1])
         odims.update(data[-1].dims)
         if len(data) == 2:
-            data[-1] = FData(odata, odims, loop_dims, states_i0=state_inds[0])
+            data[-1] = FData(odata, odims, loop_dims, states_i0=states_i0)
         else:
-            data[-1] = TData(odata, odims, loop_dims, states_i0=state_inds[0])
+            data[-1] = TData(odata, odims, loop_dims, states_i0=states_i0)
     del odims, odata
 
     # link chunk state indices from mdata to fdata and tdata:
-- 
2.43.0


From 6e8849725d622931faf1f2a1c8f97b2bf86f2b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 010/125] fix: FieldDataNC lazy and fly modes ignored the
 selection of states at point evaluation

---
 foxes/input/states/field_data_nc.py | 61 +++++++++++++++--------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index b426cf4..9ee678a 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -473,6 +473,11 @@ class FieldDataNC(States):
 
         idata = super().load_data(algo, verbosity)
 
+        if self.load_mode in ["lazy", "fly"]:
+            # the positions of the states in the source, also after selections:
+            self.POS = self.var("pos")
+            idata["data_vars"][self.POS] = ((FC.STATE,), np.arange(self._N))
+
         if self.load_mode == "preload":
             self.X = self.var(FV.X)
             self.Y = self.var(FV.Y)
@@ -664,8 +669,7 @@ class FieldDataNC(States):
 
         # case lazy:
         elif self.load_mode == "lazy":
-            i0 = mdata.states_i0(counter=True)
-            s = slice(i0, i0 + n_states)
+            s = mdata[self.POS]
             ds = self.data_source.isel({self.states_coord: s}).load()
             __, h, y, x, data, weights = self._get_data(ds, coords, verbosity=0)
             del ds
@@ -676,41 +680,38 @@ class FieldDataNC(States):
             if self.weight_ncvar is not None:
                 vars += [self.weight_ncvar]
 
-            i0 = mdata.states_i0(counter=True)
-            i1 = i0 + n_states
+            pos = mdata[self.POS]
             j0 = 0
             data = []
+            order = []
             for fpath, n in self._files_maxi.items():
-                if i0 < j0:
-                    break
-                else:
-                    j1 = j0 + n
-                    if i0 < j1:
-                        a = i0 - j0
-                        b = min(i1, j1) - j0
-                        isel = copy(self.isel)
-                        isel[self.states_coord] = slice(a, b)
-
-                        data.append(
-                            _read_nc_file(
-                                fpath,
-                                coords=coords,
-                                vars=vars,
-                                nc_engine=config.nc_engine,
-                                isel=isel,
-                                sel=self.sel,
-                                minimal=False,
-                            )
+                j1 = j0 + n
+                found = np.where((pos >= j0) & (pos < j1))[0]
+                if len(found):
+                    isel = copy(self.isel) if self.isel is not None else {}
+                    isel[self.states_coord] = pos[found] - j0
+
+                    data.append(
+                        _read_nc_file(
+                            fpath,
+                            coords=coords,
+                            vars=vars,
+                            nc_engine=config.nc_engine,
+                            isel=isel,
+                            sel=self.sel,
+                            minimal=False,
                         )
+                    )
+                    order.append(found)
+                j0 = j1
 
-                        i0 += b - a
-                    j0 = j1
-
-            assert (
-                i0 == i1
-            ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': (i0, i1) = {(i0, i1)}"
+            order = np.concatenate(order) if len(order) else np.array([], dtype=int)
+            assert len(order) == len(
+                pos
+            ), f"States '{self.name}': Missing states for load_mode '{self.load_mode}': {pos}"
 
             data = xr.concat(data, dim=self.states_coord)
+            data = data.isel({self.states_coord: np.argsort(order)})
             __, h, y, x, data, weights = self._get_data(data, coords, verbosity=0)
 
         else:
-- 
2.43.0


From 520f3e9146e206484d341b4e0bc87865450f004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 011/125] fix: calc_farm with selected outputs failed

---
 foxes/core/farm_data_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/core/farm_data_model.py b/foxes/core/farm_data_model.py
index 2c05cb2..cb1ef4f 100644
--- a/foxes/core/farm_data_model.py
+++ b/foxes/core/farm_data_model.py
@@ -285,6 +285,9 @@ class FarmDataModelList(FarmDataModel):
                 f"{self.name}: Wrong parameters length, expecting list with {len(self.models)} entries, got {len(parameters)}"
             )
 
+        # models may use variables which are not requested as output:
+        self.ensure_variables(algo, mdata, fdata)
+
         for mi, m in enumerate(self.models):
             # print("MLIST VARS BEFORE",m.name,list(fdata.keys()),parameters[mi])
             res = m.calculate(algo, mdata, fdata, **parameters[mi])
-- 
2.43.0


From 7d280dc594e638bb76228ce626037726d19189d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 012/125] fix: calc_parameters given by the user were altered
 and mixed up between models

---
 foxes/algorithms/downwind/downwind.py   | 20 ++++++++++----------
 foxes/algorithms/iterative/iterative.py |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 79fe9d9..db38010 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -435,37 +435,37 @@ class Downwind(Algorithm):
 
         # 0) run pre-rotor turbine models via farm controller:
         mlist.models.append(self.farm_controller)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1]["pre_rotor"] = True
 
         # 1) set initial data:
         mlist.models.append(self.get_model("InitFarmData")())
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 2) calculate ambient rotor results:
         mlist.models.append(self.rotor_model)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1].update({"store": True})
 
         # 3) run post-rotor turbine models via farm controller:
         mlist.models.append(self.farm_controller)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1]["pre_rotor"] = False
 
         # 4) copy results to ambient, requires self.farm_vars:
         self.farm_vars = mlist.output_farm_vars(self)
         mlist.models.append(self.get_model("SetAmbFarmResults")())
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 5) calculate wake effects:
         if not ambient:
             mlist.models.append(self.get_model("FarmWakesCalculation")())
-            calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+            calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 6) reorder back to state-turbine dimensions:
         if outputs != False:
             mlist.models.append(self.get_model("ReorderFarmOutput")(outputs))
-            calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+            calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         return mlist, calc_pars
 
@@ -638,7 +638,7 @@ class Downwind(Algorithm):
 
         # 0) calculate states results:
         mlist.models.append(self.states)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 1) calculate ambient extra eval point results:
         mlist.models.append(emodels)
@@ -646,14 +646,14 @@ class Downwind(Algorithm):
 
         # 2) transfer ambient results:
         mlist.models.append(self.get_model("SetAmbPointResults")())
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         # 3) calc wake effects:
         if not ambient:
             mlist.models.append(
                 self.get_model("PointWakesCalculation")(emodels, emodels_cpars)
             )
-            calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+            calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
         return mlist, calc_pars
 
diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 3dd6820..94555f3 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -229,7 +229,7 @@ class Iterative(Downwind):
                 mlist.models.append(
                     self.get_model("FarmWakesCalculation")(urelax=urelax)
                 )
-                calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+                calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
                 # add under-relaxation:
                 if self._urelax is not None and len(self._urelax["last"]):
@@ -239,7 +239,7 @@ class Iterative(Downwind):
             # rotate back from downwind order:
             else:
                 mlist.models.append(self.get_model("ReorderFarmOutput")(outputs))
-                calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+                calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
 
             return mlist, calc_pars
 
-- 
2.43.0


From 6fae251b768d4df4aab0ce7919d01091c1c8ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 013/125] fix: profile dictionaries handed to states were
 altered

---
 foxes/input/states/single.py       | 1 +
 foxes/input/states/states_table.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/foxes/input/states/single.py b/foxes/input/states/single.py
index 96067cb..028ea92 100644
--- a/foxes/input/states/single.py
+++ b/foxes/input/states/single.py
@@ -109,6 +109,7 @@ class SingleStateStates(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
+                d = dict(d)
                 t = d.pop("type")
                 self._profiles[v] = VerticalProfile.new(t, **d)
             else:
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 12d2983..53698ae 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -160,6 +160,7 @@ class StatesTable(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
+                d = dict(d)
                 t = d.pop("type")
                 self._profiles[v] = VerticalProfile.new(t, **d)
             else:
-- 
2.43.0


From b93d6e0df6cb170415d65a0bcb73b324ccd3c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 014/125] fix: SectorManagement altered the user's table

---
 foxes/models/turbine_models/sector_management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 98f7a7e..cd018e3 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -89,7 +89,7 @@ class SectorManagement(TurbineModel):
         super().initialize(algo, verbosity)
 
         if isinstance(self.source, pd.DataFrame):
-            data = self.source
+            data = self.source.copy()
         else:
             fpath = get_input_path(self.source)
             if verbosity > 0:
-- 
2.43.0


From 9739c8f5de9942e75f6ba2a92bb2c0bb5b168660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 015/125] fix: SectorManagement applied rules to the wrong
 turbines and ignored selections

---
 .../turbine_models/sector_management.py       | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index cd018e3..e683ba6 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -3,7 +3,7 @@ import pandas as pd
 
 from foxes.core import TurbineModel
 from foxes.utils import PandasFileHelper
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 import foxes.variables as FV
 import foxes.constants as FC
 
@@ -191,17 +191,22 @@ class SectorManagement(TurbineModel):
         """
         # prepare:
         n_trbs = len(self._trbs)
-        if n_trbs == fdata.n_turbines and np.all(
-            self._trbs == np.arange(fdata.n_turbines)
-        ):
-            tsel = np.s_[:]
+
+        # find the turbines in the data, which are in downwind order
+        # after the pre-rotor stage:
+        states = np.arange(fdata.n_states)[:, None]
+        if self.pre_rotor:
+            tinds = np.zeros((fdata.n_states, n_trbs), dtype=config.dtype_int)
+            tinds[:] = self._trbs[None, :]
         else:
-            tsel = self._trbs
+            tinds = fdata[FV.ORDER_INV][:, self._trbs]
 
         # find state-turbine data that matches ranges:
-        rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
+        tsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        tsel[st_sel] = True
+        rsel = tsel[states, tinds]
         for vi, v in enumerate(self._rvars):
-            d = fdata[v][:, tsel]
+            d = fdata[v][states, tinds]
             if v in self._perds:
                 d = np.mod(d, self._perds[v])
                 mi = self._rdata[:, vi, 0]
@@ -227,7 +232,7 @@ class SectorManagement(TurbineModel):
         # set target data:
         if np.any(rsel):
             sel = np.where(rsel)
-            selt = self._trbs[sel[1]]
+            selt = tinds[sel]
             for vi, v in enumerate(self._tvars):
                 fdata[v][sel[0], selt] = self._tdata[None, sel[1], vi]
 
-- 
2.43.0


From 4039f7cd94f986502295764ee6da2a95007c4e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 016/125] fix: turbine data given by models ended up at the
 wrong turbines

---
 .../downwind/models/init_farm_data.py         | 13 ++++++++----
 foxes/core/farm_controller.py                 | 21 +++++++++++++------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 2d23d61..04d1b47 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -112,6 +112,7 @@ class InitFarmData(FarmDataModel):
         del tdata, sres, svrs
 
         # calculate and inverse:
+        mvars0 = set(mdata.keys())
         order = algo.wake_frame.calc_order(algo, mdata, fdata)
         ssel = np.zeros_like(order)
         ssel[:] = np.arange(n_states)[:, None]
@@ -128,10 +129,14 @@ class InitFarmData(FarmDataModel):
             if np.any(fdata[v] != fdata[v][0, 0, None, None]):
                 fdata[v] = fdata[v][ssel, order]
         fdata[FV.YAW] = fdata[FV.WD].copy()
+        ovars = self.output_farm_vars(algo)
+        for v in algo.farm_controller.pre_rotor_models.output_farm_vars(algo):
+            if v not in ovars:
+                fdata[v] = fdata[v][ssel, order]
+
+        # model data stays in farm order, except if computed during calc_order:
         for k in mdata.keys():
-            if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
-                mdata[k] != mdata[k][0, 0, None, None]
-            ):
+            if k not in mvars0 and tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE):
                 mdata[k] = mdata[k][ssel, order]
 
-        return {v: fdata[v] for v in self.output_farm_vars(algo)}
+        return {v: fdata[v] for v in ovars}
diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index eaba616..f5f4e46 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from foxes.config import config
 import foxes.constants as FC
+import foxes.variables as FV
 from foxes.utils import new_instance
 
 from .farm_data_model import FarmDataModelList, FarmDataModel
@@ -275,10 +276,18 @@ class FarmController(FarmDataModel):
         else:
             raise ValueError(f"Controller '{self.name}': No turbine model found.")
 
-    def __get_pars(self, algo, models, ptype, mdata=None, downwind_index=None):
+    def __get_pars(
+        self, algo, models, ptype, mdata, fdata, pre_rotor, downwind_index=None
+    ):
         """
         Private helper function for gathering model parameters.
         """
+        # the model data is in farm order, the farm data of
+        # post-rotor models is in downwind order:
+        tmsels = mdata[FC.TMODEL_SELS]
+        if not pre_rotor:
+            tmsels = tmsels[fdata[FV.ORDER_SSEL], fdata[FV.ORDER]]
+
         pars = []
         for m in models:
             mi = self.turbine_model_names.index(m.name)
@@ -286,11 +295,9 @@ class FarmController(FarmDataModel):
                 s = np.s_[:, :] if downwind_index is None else np.s_[:, downwind_index]
             else:
                 if downwind_index is None:
-                    s = mdata[FC.TMODEL_SELS][:, :, mi]
+                    s = tmsels[:, :, mi]
                 else:
-                    s = np.s_[
-                        mdata[FC.TMODEL_SELS][:, downwind_index, mi], downwind_index
-                    ]
+                    s = np.s_[tmsels[:, downwind_index, mi], downwind_index]
             pars.append({"st_sel": s})
             if m.name in self.pars:
                 pars[-1].update(self.pars[m.name][ptype])
@@ -395,7 +402,9 @@ class FarmController(FarmDataModel):
 
         """
         s = self.pre_rotor_models if pre_rotor else self.post_rotor_models
-        pars = self.__get_pars(algo, s.models, "calc", mdata, downwind_index)
+        pars = self.__get_pars(
+            algo, s.models, "calc", mdata, fdata, pre_rotor, downwind_index
+        )
         res = s.calculate(algo, mdata, fdata, parameters=pars)
         return res
 
-- 
2.43.0


From 7a2f5b6049a4ae380f5520c39edbea734ed0f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 017/125] fix: state selections of turbine models were taken
 from the wrong model

---
 foxes/core/farm_controller.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index f5f4e46..11ca300 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -118,7 +118,7 @@ class FarmController(FarmDataModel):
                 return True
         return False
 
-    def _analyze_models(self, algo, pre_rotor, models):
+    def _analyze_models(self, algo, pre_rotor, models, mstates_sels):
         """
         Helper function for model analysis
         """
@@ -152,7 +152,7 @@ class FarmController(FarmDataModel):
                         for tj, jnames in enumerate(mnames):
                             mi = tmis[tj]
                             if mi < len(jnames) and jnames[mi] == mname:
-                                ssel = algo.farm.turbines[tj].mstates_sel[mi]
+                                ssel = mstates_sels[tj][mi]
                                 tsel[:, tj] = True if ssel is None else ssel
                                 tmis[tj] += 1
                         tmsels.append(tsel)
@@ -228,6 +228,8 @@ class FarmController(FarmDataModel):
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
         postr_models = [[] for t in algo.farm.turbines]
+        prer_sels = [[] for t in algo.farm.turbines]
+        postr_sels = [[] for t in algo.farm.turbines]
         ttypes = {m.name: m for m in self.turbine_types}
         for ti, t in enumerate(algo.farm.turbines):
             prer = None
@@ -258,15 +260,17 @@ class FarmController(FarmDataModel):
                         )
                     if m.pre_rotor:
                         prer_models[ti].append(m)
+                        prer_sels[ti].append(t.mstates_sel[mi])
                     else:
                         postr_models[ti].append(m)
+                        postr_sels[ti].append(t.mstates_sel[mi])
 
         # analyze models:
         mnames_pre, tmsels_pre = self._analyze_models(
-            algo, pre_rotor=True, models=prer_models
+            algo, pre_rotor=True, models=prer_models, mstates_sels=prer_sels
         )
         mnames_post, tmsels_post = self._analyze_models(
-            algo, pre_rotor=False, models=postr_models
+            algo, pre_rotor=False, models=postr_models, mstates_sels=postr_sels
         )
         tmsels = tmsels_pre + tmsels_post
         self._tmall = [np.all(t) for t in tmsels]
@@ -289,8 +293,8 @@ class FarmController(FarmDataModel):
             tmsels = tmsels[fdata[FV.ORDER_SSEL], fdata[FV.ORDER]]
 
         pars = []
-        for m in models:
-            mi = self.turbine_model_names.index(m.name)
+        mi0 = 0 if pre_rotor else len(self.pre_rotor_models.models)
+        for mi, m in enumerate(models, start=mi0):
             if self._tmall[mi]:
                 s = np.s_[:, :] if downwind_index is None else np.s_[:, downwind_index]
             else:
-- 
2.43.0


From 0e3da534ec108f510aacaea90ebb394841a29749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 018/125] fix: iterative algorithm modified the cutin of a
 turbine type once per turbine

---
 foxes/algorithms/iterative/iterative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 94555f3..8fb2ff6 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -131,7 +131,7 @@ class Iterative(Downwind):
         """
         super().initialize()
         if len(self._mod_cutin):
-            for t in self.farm_controller.turbine_types:
+            for t in dict.fromkeys(self.farm_controller.turbine_types):
                 t.modify_cutin(**self._mod_cutin)
 
     @property
-- 
2.43.0


From 3a5fae6ab7b42c968ddb839a4700da9a98991876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 019/125] fix: iterative algorithm failed for ambient runs,
 max_it=0 and dropped its last iteration

---
 foxes/algorithms/iterative/iterative.py | 31 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 8fb2ff6..84d45be 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -79,6 +79,8 @@ class Iterative(Downwind):
         self._it = None
         self._mlist = None
         self._reamb = False
+        self._ambient = False
+        self._final_run = False
         self._urelax = None
 
         self._mod_cutin = dict(modify_ct=True, modify_P=False)
@@ -169,7 +171,14 @@ class Iterative(Downwind):
         """
         Helper function that creates model list
         """
-        if self._it == 0:
+        if ambient:
+            return super()._collect_farm_models(
+                outputs=outputs if self._final_run else False,
+                calc_parameters=calc_parameters,
+                ambient=True,
+            )
+
+        elif self._it == 0 and not self._final_run:
             self._mlist0, self._calc_pars0 = super()._collect_farm_models(
                 outputs=False,
                 calc_parameters=calc_parameters,
@@ -209,8 +218,8 @@ class Iterative(Downwind):
 
             return self._mlist0, self._calc_pars0
 
-        elif ambient or self._reamb:
-            return self._mlist0, self._calc_pars0
+        elif self._reamb and not self._final_run:
+            return FarmDataModelList(models=self._mlist0.models), self._calc_pars0
 
         else:
             # prepare:
@@ -245,7 +254,7 @@ class Iterative(Downwind):
 
     def _calc_farm_vars(self, mlist):
         """Helper function that gathers the farm variables"""
-        if self._it == 0:
+        if self._it == 0 and (self._ambient or not self._final_run):
             super()._calc_farm_vars(mlist)
 
     def _launch_parallel_farm_calc(self, mlist, *data, **kwargs):
@@ -291,6 +300,19 @@ class Iterative(Downwind):
         if outputs == "default":
             outputs = self.DEFAULT_FARM_OUTPUTS
 
+        self._ambient = kwargs.get("ambient", False)
+        if self._ambient:
+            # no wakes, hence nothing to iterate:
+            self._it = 0
+            self.__prev_farm_results = None
+            fres_dwnd = None
+            if ret_dwnd_order:
+                self._final_run = False
+                fres_dwnd = super().calc_farm(outputs=None, finalize=False, **kwargs)
+            self._final_run = True
+            fres = super().calc_farm(outputs=outputs, finalize=finalize, **kwargs)
+            return (fres, fres_dwnd) if ret_dwnd_order else fres
+
         fres = None
         self._it = -1
         self._final_run = False
@@ -323,6 +345,7 @@ class Iterative(Downwind):
         # final run, recovers farm order of results:
         self.print("Starting final run", vlim=0)
         self._final_run = True
+        self.__prev_farm_results = fres
         fres = super().calc_farm(outputs=outputs, finalize=False, **kwargs)
 
         # finalize models:
-- 
2.43.0


From 24896476e2d015d721b7ba34bb59cd4fb2c0331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 020/125] fix: the reported inverse of the downwind order was
 itself reordered

---
 foxes/algorithms/downwind/models/reorder_farm_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/reorder_farm_output.py b/foxes/algorithms/downwind/models/reorder_farm_output.py
index 3e2a500..b2d0f99 100644
--- a/foxes/algorithms/downwind/models/reorder_farm_output.py
+++ b/foxes/algorithms/downwind/models/reorder_farm_output.py
@@ -76,7 +76,7 @@ class ReorderFarmOutput(FarmDataModel):
         out = {}
         for v in self.output_farm_vars(algo):
             if (
-                v != FV.ORDER
+                v not in [FV.ORDER, FV.ORDER_SSEL, FV.ORDER_INV]
                 and fdata[v].shape[1] > 1
                 and np.any(fdata[v] != fdata[v][0, 0, None, None])
             ):
-- 
2.43.0


From bd05bd48c6ce8457cf5b35ac6ffec284cadfe166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 021/125] fix: changing the states of an algorithm left data of
 the previous states behind

---
 foxes/algorithms/downwind/downwind.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index db38010..383905e 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -206,10 +206,14 @@ class Downwind(Algorithm):
         """Resets the states"""
         if self.running:
             raise ValueError(f"{self.name}: Cannot set states while running")
-        if self.states.initialized:
+        # models may hold data that depends on the states, hence
+        # all of them will be initialized again by the next calculation:
+        if self.initialized:
+            self.finalize()
+        elif self.states.initialized:
             self.states.finalize(self, verbosity=self.verbosity)
         self.__states = value
-        self.init_states()
+        self.n_states = None
 
     @property
     def rotor_model(self):
-- 
2.43.0


From babca0723b1899fad24c1c611c2ab4ce063a1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 022/125] fix: under-relaxation of the iterative algorithm
 failed

---
 foxes/algorithms/iterative/models/farm_wakes_calc.py | 4 ++--
 foxes/algorithms/iterative/models/urelax.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 3d85c90..5708ded 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -156,8 +156,8 @@ class FarmWakesCalculation(FarmDataModel):
         wake_res[FV.WEIGHT] = weights
         rotor.eval_rpoint_results(algo, mdata, fdata, wake_res, rwghts)
         res = algo.farm_controller.calculate(algo, mdata, fdata, pre_rotor=False)
-        if self.urelax is not None:
-            res = self.urelax.calculate(algo, mdata, fdata, res)
         fdata.update(res)
+        if self.urelax is not None:
+            fdata.update(self.urelax.calculate(algo, mdata, fdata))
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
diff --git a/foxes/algorithms/iterative/models/urelax.py b/foxes/algorithms/iterative/models/urelax.py
index cb706b2..e4e4fa7 100644
--- a/foxes/algorithms/iterative/models/urelax.py
+++ b/foxes/algorithms/iterative/models/urelax.py
@@ -71,9 +71,9 @@ class URelax(FarmDataModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        i0 = fdata.states_i0(counter=True, algo=algo)
+        i0 = fdata.states_i0(counter=True)
         i1 = i0 + fdata.n_states
-        pres = algo.prev_farm_results
+        pres = algo.farm_results_downwind
 
         out = {}
         for v, u in self.urel.items():
-- 
2.43.0


From ea3aab6980b4ca4110b222b447767b5727d187cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 023/125] fix: ambient point calculation without farm results
 failed

---
 foxes/algorithms/downwind/downwind.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 383905e..d5d8c2e 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -1,4 +1,5 @@
 import numpy as np
+from xarray import Dataset
 
 from foxes.core import Algorithm, FarmDataModelList, get_engine
 from foxes.core import PointDataModel, PointDataModelList, FarmController
@@ -772,24 +773,23 @@ class Downwind(Algorithm):
         # subset selections:
         sel = {} if states_sel is None else {FC.STATE: states_sel}
         isel = {} if states_isel is None else {FC.STATE: states_isel}
-        if states_isel is not None:
+        if farm_results is not None and states_isel is not None:
             farm_results = farm_results.isel(isel)
-        if states_sel is not None:
+        if farm_results is not None and states_sel is not None:
             farm_results = farm_results.sel(sel)
-        n_states = farm_results.sizes[FC.STATE]
 
         # get input model data:
         model_data = self.get_models_data(sel=sel, isel=isel)
         if persist_mdata:
             model_data = model_data.persist()
         self.print("\nInput data:\n\n", model_data, "\n")
-        self.print(f"\nOutput farm variables:", ", ".join(self.farm_vars))
+        n_states = model_data.sizes[FC.STATE]
 
         # chunk farm results:
         self.print("\nInput farm data:\n\n", farm_results, "\n")
 
         # get point data:
-        if FC.STATE in farm_results.coords:
+        if farm_results is not None and FC.STATE in farm_results.coords:
             sinds = farm_results.coords[FC.STATE]
         elif model_data is not None and FC.STATE in model_data.coords:
             sinds = model_data.coords[FC.STATE]
@@ -800,6 +800,22 @@ class Downwind(Algorithm):
             point_data = point_data.persist()
         self.print("\nInput point data:\n\n", point_data, "\n")
 
+        # no farm data in case of ambient calculations without farm results:
+        if farm_results is None:
+            farm_results = Dataset(
+                data_vars={
+                    v: (
+                        (FC.STATE, FC.TURBINE),
+                        np.full(
+                            (n_states, self.n_turbines),
+                            np.nan,
+                            dtype=config.dtype_double,
+                        ),
+                    )
+                    for v in [FV.X, FV.Y, FV.H, FV.D]
+                }
+            )
+
         # check vars:
         ovars = mlist.output_point_vars(self) if outputs is None else outputs
         self.print(f"\nOutput point variables:", ", ".join(ovars))
-- 
2.43.0


From b4467c14597a4544ce9df2a049a054e5bc9b64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 024/125] fix: a failing calculation left the algorithm and its
 models in running state

---
 foxes/core/algorithm.py | 54 ++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/foxes/core/algorithm.py b/foxes/core/algorithm.py
index beafde3..f9011f4 100644
--- a/foxes/core/algorithm.py
+++ b/foxes/core/algorithm.py
@@ -826,21 +826,23 @@ class Algorithm(Model):
                 self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
             )
 
-        # run parallel calculation:
-        farm_results = self._launch_parallel_farm_calc(
-            *args,
-            chunk_store=chunk_store,
-            sel=None,
-            isel=None,
-            **kwargs,
-        )
-
-        # reset to not running:
-        for m in mdls:
-            m.unset_running(
-                self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
+        try:
+            # run parallel calculation:
+            farm_results = self._launch_parallel_farm_calc(
+                *args,
+                chunk_store=chunk_store,
+                sel=None,
+                isel=None,
+                **kwargs,
             )
 
+        finally:
+            # reset to not running, also after errors:
+            for m in mdls:
+                m.unset_running(
+                    self, data_stash, sel=None, isel=None, verbosity=self.verbosity - 2
+                )
+
         return farm_results
 
     @abstractmethod
@@ -904,20 +906,22 @@ class Algorithm(Model):
             self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
         )
 
-        # run parallel calculation:
         chunk_store = self.reset_chunk_store()
-        point_results = self._launch_parallel_points_calc(
-            *args,
-            chunk_store=chunk_store,
-            sel=sel,
-            isel=isel,
-            **kwargs,
-        )
+        try:
+            # run parallel calculation:
+            point_results = self._launch_parallel_points_calc(
+                *args,
+                chunk_store=chunk_store,
+                sel=sel,
+                isel=isel,
+                **kwargs,
+            )
 
-        # reset to not running:
-        self.unset_running(
-            self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
-        )
+        finally:
+            # reset to not running, also after errors:
+            self.unset_running(
+                self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
+            )
 
         return point_results
 
-- 
2.43.0


From e75d45c2e92e1b87c3e94fdd4f2efee27f1d950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 025/125] fix: iterative algorithm started from chunk data of
 previous calculations

---
 foxes/algorithms/iterative/iterative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 84d45be..181b82e 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -300,6 +300,9 @@ class Iterative(Downwind):
         if outputs == "default":
             outputs = self.DEFAULT_FARM_OUTPUTS
 
+        # do not start from chunk data of previous calculations:
+        self.reset_chunk_store()
+
         self._ambient = kwargs.get("ambient", False)
         if self._ambient:
             # no wakes, hence nothing to iterate:
-- 
2.43.0


From 7cc4be647ed31fbf5d49ba6767b34bd35bd9926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 026/125] fix: models of point calculations were left
 initialized after finalizing the algorithm

---
 foxes/algorithms/downwind/downwind.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index d5d8c2e..d0cf3c5 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -116,6 +116,7 @@ class Downwind(Algorithm):
         super().__init__(mbook, farm, **kwargs)
 
         self.__states = states
+        self.__point_mlists = []
         self.n_states = None
 
         self.__rotor_model = self.mbook.rotor_models.get_item(rotor_model)
@@ -393,6 +394,22 @@ class Downwind(Algorithm):
             self.states.initialize(self, self.verbosity)
             self.n_states = self.states.size()
 
+    def finalize(self, clear_mem=False):
+        """
+        Finalizes the algorithm.
+
+        Parameters
+        ----------
+        clear_mem: bool
+            Clear idata memory
+
+        """
+        # finalize models from earlier point calculations:
+        if not self.running:
+            while len(self.__point_mlists):
+                self.__point_mlists.pop().finalize(self, self.verbosity - 1)
+        super().finalize(clear_mem)
+
     def sub_models(self):
         """
         List of all sub-models
@@ -837,6 +854,8 @@ class Downwind(Algorithm):
             self.print("\n")
             mlist.finalize(self, self.verbosity - 1)
             self.finalize()
+        elif mlist not in self.__point_mlists:
+            self.__point_mlists.append(mlist)
 
         if ambient:
             dvars = [v for v in point_results.data_vars.keys() if v in FV.var2amb]
-- 
2.43.0


From 3ff3fc46d0681eb1e789307e65c23252602fa54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 027/125] fix: order of turbines along streamlines was
 undefined

---
 foxes/models/wake_frames/streamlines.py | 48 +++++++++++++------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index bd911e0..83e5244 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -71,33 +71,31 @@ class Streamlines2D(WakeFrame):
             # set streamline start point data (rotor centre):
             if i == 0:
                 data[:, :, i, :3] = fdata[FV.TXYH]
-                data[:, :, i, 3] = fdata[FV.AMB_WD]
 
-            # compute next step:
+            # calculate next point:
             else:
-
-                # calculate next point:
                 xyz = data[:, :, i - 1, :3]
                 n = wd2uv(data[:, :, i - 1, 3])
                 data[:, :, i, :2] = xyz[:, :, :2] + self.step * n
                 data[:, :, i, 2] = xyz[:, :, 2]
 
-                # calculate next tangential vector:
-                svars = algo.states.output_point_vars(algo)
-                tdata = TData.from_points(
-                    data[:, :, i, :3],
-                    data={
-                        v: np.full(
-                            (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
-                        )
-                        for v in svars
-                    },
-                    dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
-                )
-                data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[
-                    FV.WD
-                ][:, :, 0]
+            # calculate tangential vector:
+            svars = algo.states.output_point_vars(algo)
+            tdata = TData.from_points(
+                data[:, :, i, :3],
+                data={
+                    v: np.full(
+                        (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
+                    )
+                    for v in svars
+                },
+                dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
+            )
+            data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[FV.WD][
+                :, :, 0
+            ]
 
+            if i > 0:
                 sel = np.isnan(data[:, :, i, 3])
                 if np.any(sel):
                     data[sel, i, 3] = data[sel, i - 1, 3]
@@ -202,11 +200,15 @@ class Streamlines2D(WakeFrame):
                 :, :, 0, 0
             ]
 
-        # derive turbine order:
-        # TODO: Remove loop over states
+        # derive turbine order, each turbine follows all turbines upstream of it:
+        upstream = coosx > 0
+        count = np.sum(upstream, axis=1)
+        ssel = np.arange(n_states)
         order = np.zeros((n_states, n_turbines), dtype=config.dtype_int)
-        for si in range(n_states):
-            order[si] = np.lexsort(keys=coosx[si])
+        for oi in range(n_turbines):
+            order[:, oi] = np.argmin(count, axis=1)
+            count -= upstream[ssel, order[:, oi]]
+            count[ssel, order[:, oi]] = 2 * n_turbines
 
         return order
 
-- 
2.43.0


From 336bde4df609da727cba9ea2bbed27e905670c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 028/125] fix: the most upstream turbine ignored its own yaw in
 the single-pass wake evaluation

---
 .../downwind/models/farm_wakes_calc.py        | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/foxes/algorithms/downwind/models/farm_wakes_calc.py b/foxes/algorithms/downwind/models/farm_wakes_calc.py
index 48b6e42..0697737 100644
--- a/foxes/algorithms/downwind/models/farm_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/farm_wakes_calc.py
@@ -120,18 +120,17 @@ class FarmWakesCalculation(FarmDataModel):
             if wmodel.affects_downwind:
                 run_up = wname
                 for oi in range(n_turbines):
-                    if oi > 0:
-                        _evaluate(
-                            gmodel,
-                            tdatap,
-                            amb_res,
-                            rwghts,
-                            wake_res,
-                            wdeltas,
-                            oi,
-                            wmodel,
-                            pwake,
-                        )
+                    _evaluate(
+                        gmodel,
+                        tdatap,
+                        amb_res,
+                        rwghts,
+                        wake_res,
+                        wdeltas,
+                        oi,
+                        wmodel,
+                        pwake,
+                    )
 
                     if oi < n_turbines - 1:
                         tdata, wdelta = _get_wdata(
@@ -145,18 +144,17 @@ class FarmWakesCalculation(FarmDataModel):
             else:
                 run_down = wname
                 for oi in range(n_turbines - 1, -1, -1):
-                    if oi < n_turbines - 1:
-                        _evaluate(
-                            gmodel,
-                            tdatap,
-                            amb_res,
-                            rwghts,
-                            wake_res,
-                            wdeltas,
-                            oi,
-                            wmodel,
-                            pwake,
-                        )
+                    _evaluate(
+                        gmodel,
+                        tdatap,
+                        amb_res,
+                        rwghts,
+                        wake_res,
+                        wdeltas,
+                        oi,
+                        wmodel,
+                        pwake,
+                    )
 
                     if oi > 0:
                         tdata, wdelta = _get_wdata(
-- 
2.43.0


From 5e28e692317494eba6fc835b5e9310ce92088778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 029/125] fix: subtracting a list of areas failed

---
 foxes/utils/geom2d/area_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index d9d9eb8..af32d57 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -214,7 +214,7 @@ class AreaGeometry(metaclass=ABCMeta):
 
     def __sub__(self, g):
         if isinstance(g, list):
-            return AreaIntersection([self] + g.inverse())
+            return AreaIntersection([self] + [a.inverse() for a in g])
         else:
             return AreaIntersection([self, g.inverse()])
 
-- 
2.43.0


From 04b1ccca46fb525701ffe8b7a87a57fad4d43015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 030/125] fix: bounds of unbounded intersections of areas had
 the wrong sign

---
 foxes/utils/geom2d/area_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index af32d57..d7afc84 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -637,7 +637,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
                     if np.isinf(pmi[di]) and not np.isinf(imi[di]):
                         out[di] = np.minimum(out[di], imi[di])
             for di in range(2):
-                if not np.isinf(pmi[di]):
+                if not np.isinf(pmi[di]) or np.isinf(out[di]):
                     out[di] = -np.inf
             return out
 
@@ -665,7 +665,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
                     if np.isinf(pma[di]) and not np.isinf(ima[di]):
                         out[di] = np.maximum(out[di], ima[di])
             for di in range(2):
-                if not np.isinf(pma[di]):
+                if not np.isinf(pma[di]) or np.isinf(out[di]):
                     out[di] = np.inf
             return out
 
-- 
2.43.0


From 61f89656516e5b1fd5650cb6ebb98f71846bfb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 031/125] fix: nearest circle points failed if the centre is
 among the points

---
 foxes/utils/geom2d/circle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/circle.py b/foxes/utils/geom2d/circle.py
index 2d1788c..242a364 100644
--- a/foxes/utils/geom2d/circle.py
+++ b/foxes/utils/geom2d/circle.py
@@ -89,9 +89,9 @@ class Circle(AreaGeometry):
             if np.all(sel):
                 minp = self.centre + deltas / magd[:, None] * self.radius
             else:
-                minp = np.zeros_like(points)
-                minp[sel] = deltas[sel] / magd[sel]
-                minp[~sel][:, 0] = 1
+                minp = np.zeros_like(deltas)
+                minp[sel] = deltas[sel] / magd[sel, None]
+                minp[~sel, 0] = 1
                 minp = self.centre + minp * self.radius
             return dists, minp
         else:
-- 
2.43.0


From f28c9b01ea741dd68f3e66133d51a0d2e664b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 032/125] fix: distances to polygons with integer corner points
 failed

---
 foxes/utils/geom2d/polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/polygon.py b/foxes/utils/geom2d/polygon.py
index 11aa015..469ae42 100644
--- a/foxes/utils/geom2d/polygon.py
+++ b/foxes/utils/geom2d/polygon.py
@@ -32,10 +32,10 @@ class ClosedPolygon(AreaGeometry):
             The polygon points, shape: (n_points, 2)
 
         """
-        self.points = points
+        self.points = np.array(points, dtype=np.float64)
 
-        if not np.all(points[0] == points[-1]):
-            self.points = np.append(self.points, points[[0]], axis=0)
+        if not np.all(self.points[0] == self.points[-1]):
+            self.points = np.append(self.points, self.points[[0]], axis=0)
 
         self.poly = Path(self.points, closed=True)
 
-- 
2.43.0


From 2da617cf4e4b994cc02f4367bf543dba5379c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 033/125] fix: model names with text behind the last part of
 the template were accepted

---
 foxes/utils/factory.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index ea230c4..22458d4 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -291,6 +291,20 @@ class Factory:
                         return False
                 w = name[j : j + i]
                 j += i + len(p)
+                if pi == len(self._pre) - 1 and j < len(name):
+                    # the name must end with the suffix
+                    k = len(name) - len(p)
+                    if pi == 0 or name[k:] != p:
+                        if error:
+                            raise ValueError(
+                                f"Factory '{self.name_template}': Name '{name}' not matching template"
+                            )
+                        elif ret_pars:
+                            return False, {}
+                        else:
+                            return False
+                    w = name[j - i - len(p) : k]
+                    j = len(name)
             else:
                 w = name[j:]
             if pi > 0:
-- 
2.43.0


From ffc873e6ced690be215c7f0d9801243f4e15bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 034/125] fix: model names with invalid values raised unrelated
 errors and were reported as known

---
 foxes/utils/factory.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index 22458d4..f68a97c 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -317,10 +317,17 @@ class Factory:
                 data = wlist[vi]
                 if v in self.options:
                     o = self.options[v]
-                    if hasattr(o, "__call__"):
-                        kwargs[w] = o(data)
-                    else:
-                        kwargs[w] = self.options[v][data]
+                    try:
+                        if hasattr(o, "__call__"):
+                            kwargs[w] = o(data)
+                        else:
+                            kwargs[w] = self.options[v][data]
+                    except Exception as e:
+                        if error:
+                            raise ValueError(
+                                f"Factory '{self.name_template}': Name '{name}' has invalid value '{data}' for variable '{v}'"
+                            ) from e
+                        return False, {}
                 else:
                     kwargs[w] = data
 
@@ -628,8 +635,13 @@ class FDict(Dict):
         found = super().__contains__(key)
         if not found:
             for f in self.factories:
-                if f.check_match(key):
+                try:
+                    f.construct(key)
                     return True
+                except ValueError:
+                    pass
+                except Exception:
+                    return False
         return found
 
     def get_item(self, key, prnt=True):
-- 
2.43.0


From 7418e384de95da68b6d71d53b15ada9a05e03353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 035/125] fix: model factories with wake growth options ignored
 the mapping of variables to arguments

---
 foxes/utils/factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index f68a97c..b145441 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -396,7 +396,7 @@ class WakeKFactory:
 
         i0 = name_template.find("_[wake_k]")
         i1 = i0 + len("_[wake_k]")
-        kw = kwargs.pop("kwargs", {})
+        kw = kwargs.pop("kwargs", {}).copy()
         v2a = kwargs.pop("var2arg", {})
 
         if i0 < 0:
@@ -424,6 +424,7 @@ class WakeKFactory:
                 *args,
                 hints=h,
                 kwargs=kw.copy(),
+                var2arg=v2a,
                 **kwargs,
                 ka=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
                 kb=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
@@ -470,6 +471,7 @@ class WakeKFactory:
                 *args,
                 hints=h,
                 kwargs=kw.copy(),
+                var2arg=v2a,
                 **kwargs,
                 ka=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
                 example_vars=exvars,
@@ -513,6 +515,7 @@ class WakeKFactory:
                 *args,
                 hints=h,
                 kwargs=kw.copy(),
+                var2arg=v2a,
                 **kwargs,
                 k=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
                 example_vars=exvars,
@@ -531,6 +534,7 @@ class WakeKFactory:
                 *args,
                 hints=hints,
                 kwargs=kw.copy(),
+                var2arg=v2a,
                 **kwargs,
                 example_vars=exvars,
             )
-- 
2.43.0


From 6165b787967081563ed0a92a5a9b1d95afa80101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 036/125] fix: means over all turbines were sums over the
 turbines

---
 foxes/output/farm_results_eval.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index f6af445..69ff167 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -254,7 +254,7 @@ class FarmResultsEval(Output):
                 else:
                     rdata[v] = self.weinsum("", vdata[None, :])
             elif op == "mean_no_weights":
-                rdata[v] = np.sum(vdata)
+                rdata[v] = np.mean(vdata)
             elif op == "sum":
                 rdata[v] = np.sum(vdata)
             elif op == "min":
@@ -369,8 +369,9 @@ class FarmResultsEval(Output):
             The fully contracted results
 
         """
-        op = {v: "weights" for v in vars}
-        return self.reduce_all(states_op=op, turbines_op=op)
+        sop = {v: "weights" for v in vars}
+        top = {v: "mean_no_weights" for v in vars}
+        return self.reduce_all(states_op=sop, turbines_op=top)
 
     def calc_farm_sum(self, vars):
         """
-- 
2.43.0


From a56da45fed872a89e0c25bc9a899e9e79f89588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 037/125] fix: the ambient farm yield could not be calculated

---
 foxes/output/farm_results_eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index 69ff167..4ee163a 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -563,13 +563,14 @@ class FarmResultsEval(Output):
             yargs.update(kwargs)
             turbine_yield = self.calc_turbine_yield(**yargs)
         farm_yield = turbine_yield.sum()
+        v = FV.YLD if FV.YLD in farm_yield else FV.AMB_YLD
 
         if power_uncert is not None:
             P75 = farm_yield * (1.0 - (0.675 * power_uncert))
             P90 = farm_yield * (1.0 - (1.282 * power_uncert))
-            return farm_yield["YLD"], P75["YLD"], P90["YLD"]
+            return farm_yield[v], P75[v], P90[v]
 
-        return farm_yield["YLD"]
+        return farm_yield[v]
 
     def add_efficiency(self, verbosity=1):
         """
-- 
2.43.0


From 6ed8d457239bb9e2358af0a5a7a6836a5e6747aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 038/125] fix: yields of time series with other than nanosecond
 resolution were wrong

---
 foxes/output/farm_results_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index 4ee163a..d3da3ca 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -470,7 +470,7 @@ class FarmResultsEval(Output):
             if delta_t is None:
                 delta_t = times[-1] - times[-2]
             duration = times[-1] - times[0] + delta_t
-            duration_seconds = np.int64(duration.astype(np.int64) / 1e9)
+            duration_seconds = duration / np.timedelta64(1, "s")
             duration_hours = duration_seconds / 3600
         elif hours is None and annual == True:
             duration_hours = 8760
-- 
2.43.0


From 7b2b60ecba5437f7303d2c9f3320cec67ca3b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 039/125] fix: turbine types altered the reported wind speeds

---
 foxes/models/turbine_types/PCt_file.py     | 6 +++---
 foxes/models/turbine_types/PCt_from_two.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 70732c1..069063f 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -312,7 +312,7 @@ class PCtFile(TurbineType):
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
             # rews2 *= (self.rho / rho) ** 0.5
-            rews3 *= (self.rho / rho) ** (1.0 / 3.0)
+            rews3 = rews3 * (self.rho / rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
@@ -327,9 +327,9 @@ class PCtFile(TurbineType):
                 )
             cosm = np.cos(yawm / 180 * np.pi)
             if self.p_ct is not None:
-                rews2 *= (cosm**self.p_ct) ** 0.5
+                rews2 = rews2 * (cosm**self.p_ct) ** 0.5
             if self.p_P is not None:
-                rews3 *= (cosm**self.p_P) ** (1.0 / 3.0)
+                rews3 = rews3 * (cosm**self.p_P) ** (1.0 / 3.0)
             del yawm, cosm
 
         out = {
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 8fa8bb8..53236cd 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -357,7 +357,7 @@ class PCtFromTwo(TurbineType):
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
             # rews2 *= (self.rho / rho) ** 0.5
-            rews3 *= (self.rho / rho) ** (1.0 / 3.0)
+            rews3 = rews3 * (self.rho / rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
@@ -372,9 +372,9 @@ class PCtFromTwo(TurbineType):
                 )
             cosm = np.cos(yawm / 180 * np.pi)
             if self.p_ct is not None:
-                rews2 *= (cosm**self.p_ct) ** 0.5
+                rews2 = rews2 * (cosm**self.p_ct) ** 0.5
             if self.p_P is not None:
-                rews3 *= (cosm**self.p_P) ** (1.0 / 3.0)
+                rews3 = rews3 * (cosm**self.p_P) ** (1.0 / 3.0)
             del yawm, cosm
 
         out = {
-- 
2.43.0


From e96ff3d62c6a715fb79acf333fb3c06997b0ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 040/125] fix: nominal powers derived from power curves had the
 wrong unit

---
 foxes/models/turbine_types/PCt_file.py     | 2 +-
 foxes/models/turbine_types/PCt_from_two.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 069063f..acd9638 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -191,7 +191,7 @@ class PCtFile(TurbineType):
         self.data_ct = data[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self.data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self.data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 53236cd..915ebcd 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -222,7 +222,7 @@ class PCtFromTwo(TurbineType):
         self._data_ct = self._data_ct[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self._data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self._data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
-- 
2.43.0


From f8422a7c5aecb387abf4d002205c3e6c66e7a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 041/125] fix: turbine types from two files ignored the given
 parameters

---
 foxes/models/turbine_types/CpCt_from_two.py      | 1 +
 foxes/models/turbine_types/PCt_from_two.py       | 1 +
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 1 +
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/foxes/models/turbine_types/CpCt_from_two.py b/foxes/models/turbine_types/CpCt_from_two.py
index 73c55a4..1b478fc 100644
--- a/foxes/models/turbine_types/CpCt_from_two.py
+++ b/foxes/models/turbine_types/CpCt_from_two.py
@@ -56,6 +56,7 @@ class CpCtFromTwo(PCtFromTwo):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_cp, data_source_ct)
+            pars.update(parameters)
             path_cp = get_input_path(data_source_cp)
             path_ct = get_input_path(data_source_ct)
             data_cp = PandasFileHelper.read_file(path_cp, **pd_file_read_pars_cp)
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 915ebcd..370c6df 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -99,6 +99,7 @@ class PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index b69611f..452c67f 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -92,6 +92,7 @@ class WsRho2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index e2c42f7..8ac3072 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -99,6 +99,7 @@ class WsTI2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
-- 
2.43.0


From 796daf90643fc5652dad4fa98a2189b4d49f43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 042/125] fix: two-dimensional power and thrust tables failed
 if all turbines are selected, and mixed up speeds and bounds

---
 .../turbine_types/wsrho2PCt_from_two.py       | 106 ++++++--------
 .../models/turbine_types/wsti2PCt_from_two.py | 134 ++++++++----------
 2 files changed, 104 insertions(+), 136 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index 452c67f..3d06e40 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -193,7 +193,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._rho_P = np.sort(data.columns.to_numpy())
@@ -212,7 +212,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._rho_ct = np.sort(data.columns.to_numpy())
@@ -264,84 +264,72 @@ class WsRho2PCtFromTwo(TurbineType):
 
         """
 
+        tsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        tsel[st_sel] = True
+
+        # apply corrections to the wind speed of P:
+        ws = fdata[self.WSP][tsel]
+        if FV.YAWM in fdata and self.p_P is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][tsel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws = ws * (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
         # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
+        out = np.zeros(len(ws), dtype=config.dtype_double)
+        sel = (ws >= self._ws_P[0]) & (ws <= self._ws_P[-1])
+        if np.any(sel):
             # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.RHO][st_sel_P]
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
+            qts = np.stack([ws[sel], fdata[FV.RHO][tsel][sel]], axis=1)
 
             # run interpolation:
             try:
-                fdata[FV.P][st_sel_P] = interpn(
+                out[sel] = interpn(
                     (self._ws_P, self._rho_P), self._P, qts, **self.ipars_P
                 )
             except ValueError as e:
                 self._bounds_info(FV.P, qts)
                 raise e
-        del st_sel_P, st_sel_P0
+        fdata[FV.P][tsel] = out
+
+        # apply corrections to the wind speed of ct:
+        ws = fdata[self.WSCT][tsel]
+        if FV.YAWM in fdata and self.p_ct is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][tsel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws = ws * (cosm**self.p_ct) ** 0.5
+            del yawm, cosm
 
         # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
+        out = np.zeros(len(ws), dtype=config.dtype_double)
+        sel = (ws >= self._ws_ct[0]) & (ws <= self._ws_ct[-1])
+        if np.any(sel):
             # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
-            qts[:, 1] = fdata[FV.RHO][st_sel_ct]
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
+            qts = np.stack([ws[sel], fdata[FV.RHO][tsel][sel]], axis=1)
 
             # run interpolation:
             try:
-                fdata[FV.CT][st_sel_ct] = interpn(
+                out[sel] = interpn(
                     (self._ws_ct, self._rho_ct), self._ct, qts, **self.ipars_ct
                 )
             except ValueError as e:
                 self._bounds_info(FV.CT, qts)
                 raise e
+        fdata[FV.CT][tsel] = out
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 8ac3072..a933922 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -205,7 +205,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._ti_P = np.sort(data.columns.to_numpy())
@@ -224,7 +224,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._ti_ct = np.sort(data.columns.to_numpy())
@@ -276,102 +276,82 @@ class WsTI2PCtFromTwo(TurbineType):
 
         """
 
+        tsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        tsel[st_sel] = True
+
+        # apply corrections to the wind speed of P:
+        ws = fdata[self.WSP][tsel]
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            ws = ws * (self.rho / fdata[FV.RHO][tsel]) ** (1.0 / 3.0)
+        if FV.YAWM in fdata and self.p_P is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][tsel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws = ws * (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
         # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
+        out = np.zeros(len(ws), dtype=config.dtype_double)
+        sel = (ws >= self._ws_P[0]) & (ws <= self._ws_P[-1])
+        if np.any(sel):
             # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.TI][st_sel_P]
-
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (self.rho / rho) ** (1.0 / 3.0)
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
+            qts = np.stack([ws[sel], fdata[FV.TI][tsel][sel]], axis=1)
 
             # run interpolation:
             try:
-                fdata[FV.P][st_sel_P] = interpn(
+                out[sel] = interpn(
                     (self._ws_P, self._ti_P), self._P, qts, **self.ipars_P
                 )
             except ValueError as e:
                 self._bounds_info(FV.P, qts)
                 raise e
-        del st_sel_P, st_sel_P0
+        fdata[FV.P][tsel] = out
+
+        # apply corrections to the wind speed of ct:
+        ws = fdata[self.WSCT][tsel]
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            ws = ws * (self.rho / fdata[FV.RHO][tsel]) ** 0.5
+        if FV.YAWM in fdata and self.p_ct is not None:
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][tsel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws = ws * (cosm**self.p_ct) ** 0.5
+            del yawm, cosm
 
         # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
+        out = np.zeros(len(ws), dtype=config.dtype_double)
+        sel = (ws >= self._ws_ct[0]) & (ws <= self._ws_ct[-1])
+        if np.any(sel):
             # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
-            qts[:, 1] = fdata[FV.TI][st_sel_ct]
-
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (self.rho / rho) ** 0.5
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
+            qts = np.stack([ws[sel], fdata[FV.TI][tsel][sel]], axis=1)
 
             # run interpolation:
             try:
-                fdata[FV.CT][st_sel_ct] = interpn(
+                out[sel] = interpn(
                     (self._ws_ct, self._ti_ct), self._ct, qts, **self.ipars_ct
                 )
             except ValueError as e:
                 self._bounds_info(FV.CT, qts)
                 raise e
+        fdata[FV.CT][tsel] = out
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
-- 
2.43.0


From d0c24e5c50c686b18a8696ed2f70f9440f092fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 043/125] fix: turbine types from cp and ct files had no thrust
 coefficients

---
 foxes/models/turbine_types/CpCt_file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/foxes/models/turbine_types/CpCt_file.py b/foxes/models/turbine_types/CpCt_file.py
index 6f4b959..0e9ecbf 100644
--- a/foxes/models/turbine_types/CpCt_file.py
+++ b/foxes/models/turbine_types/CpCt_file.py
@@ -23,6 +23,7 @@ class CpCtFile(PCtFile):
         data_source,
         col_ws="ws",
         col_cp="cp",
+        col_ct="ct",
         rho=1.225,
         pd_file_read_pars={},
         **parameters,
@@ -38,6 +39,8 @@ class CpCtFile(PCtFile):
             The wind speed column
         col_cp: str
             The cp column
+        col_ct: str
+            The ct column
         rho: float
             The air density for the curves
         pd_file_read_pars: dict
@@ -57,8 +60,10 @@ class CpCtFile(PCtFile):
 
         D = pars["D"]
         A = np.pi * (D / 2) ** 2
+        data = data.sort_values(by=col_ws)
         ws = data[col_ws].to_numpy()
         cp = data[col_cp].to_numpy()
+        ct = data[col_ct].to_numpy()
         P_unit = pars.pop("P_unit", FC.kW)
 
         ws_delta = 0.0001
@@ -72,5 +77,6 @@ class CpCtFile(PCtFile):
         data_P["P"] = (
             0.5 * rho * A * data_P["cp"] * data_P["ws"] ** 3 / FC.P_UNITS[P_unit]
         )
+        data_P["ct"] = np.interp(data_P["ws"], ws, ct, left=0, right=0)
 
         super().__init__(data_P, col_ws="ws", col_P="P", rho=rho, P_unit=P_unit, **pars)
-- 
2.43.0


From adbcef55ae85d678e96cb37db0b888000193d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 044/125] fix: file names without separator could not be parsed
 as turbine types

---
 foxes/data/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/data/parse.py b/foxes/data/parse.py
index d33358f..cf7c08b 100644
--- a/foxes/data/parse.py
+++ b/foxes/data/parse.py
@@ -42,6 +42,8 @@ def parse_Pct_file_name(file_name):
         pieces = sname.split("-")
     elif "_" in sname:
         pieces = sname.split("_")
+    else:
+        pieces = [sname]
 
     pars["name"] = pieces[0]
     pieces = pieces[1:]
-- 
2.43.0


From 7b4203c85e89791f8cb782794369b95c6b3ac212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:21 +0000
Subject: [PATCH 045/125] fix: lookup table turbine types evaluated the thrust
 at the wind speed of the power

---
 foxes/models/turbine_types/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index 2d73723..9d1fc17 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -308,7 +308,7 @@ class FromLookupTable(TurbineType):
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
         else:
             fdata_lookup[FV.REWS] = rews2
-            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT]
+            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT].copy()
             fdata_lookup[FV.REWS] = rews3
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
             out[FV.CT] = ct
-- 
2.43.0


From 82d277792f277128464c806be67e947756b73996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:21 +0000
Subject: [PATCH 046/125] fix: lookup table turbine types failed for renamed
 power columns without given nominal power

---
 foxes/models/turbine_types/lookup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index 9d1fc17..754964d 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -186,8 +186,7 @@ class FromLookupTable(TurbineType):
         """
         super().initialize(algo, verbosity, force)
         if self.P_nominal is None:
-            col_P = self._lookup.varmap.get(FV.P, FV.P)
-            self.P_nominal = np.max(self._lookup._data[col_P].to_numpy())
+            self.P_nominal = np.max(self._lookup._data[FV.P].to_numpy())
 
     def modify_cutin(
         self,
-- 
2.43.0


From aa53094024876118942c4aacceceab6bc6a92344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:21 +0000
Subject: [PATCH 047/125] fix: unsorted cp curves gave wrong powers

---
 foxes/models/turbine_types/CpCt_from_two.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/models/turbine_types/CpCt_from_two.py b/foxes/models/turbine_types/CpCt_from_two.py
index 1b478fc..3aa1d83 100644
--- a/foxes/models/turbine_types/CpCt_from_two.py
+++ b/foxes/models/turbine_types/CpCt_from_two.py
@@ -68,6 +68,7 @@ class CpCtFromTwo(PCtFromTwo):
 
         D = pars["D"]
         A = np.pi * (D / 2) ** 2
+        data_cp = data_cp.sort_values(by=col_ws_cp_file)
         ws = data_cp[col_ws_cp_file].to_numpy()
         cp = data_cp[col_cp].to_numpy()
         P_unit = pars.pop("P_unit", FC.kW)
-- 
2.43.0


From ac6e1509723a843a0b31e2e75d93a1b743b81572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 048/125] fix: parallel threads mixed up the wake growth
 parameters of shared wake models

---
 foxes/core/wake_model.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/foxes/core/wake_model.py b/foxes/core/wake_model.py
index d872111..a4f70ff 100644
--- a/foxes/core/wake_model.py
+++ b/foxes/core/wake_model.py
@@ -1,3 +1,4 @@
+from copy import copy
 from abc import abstractmethod
 import numpy as np
 
@@ -309,7 +310,10 @@ class WakeK(Model):
 
         """
         sel = kwargs.pop("selection", None)
-        setattr(self, self.k_var, self._k)
+
+        # the object may be shared by parallel threads, hence do not store k here:
+        handler = copy(self)
+        setattr(handler, self.k_var, self._k)
         if self._ka is not None or self._kb is not None:
             if self.ti_var == FV.TI and ti is not None:
                 pass
@@ -318,8 +322,8 @@ class WakeK(Model):
             else:
                 ti = self.get_data(self.ti_var, *args, lookup=lookup_ti, **kwargs)
             kb = 0 if self._kb is None else self._kb
-            setattr(self, self.k_var, self._ka * ti + kb)
+            setattr(handler, self.k_var, self._ka * ti + kb)
 
-        k = self.get_data(self.k_var, *args, lookup=lookup_k, selection=sel, **kwargs)
-        setattr(self, self.k_var, None)
-        return k
+        return handler.get_data(
+            self.k_var, *args, lookup=lookup_k, selection=sel, **kwargs
+        )
-- 
2.43.0


From dfb58397f99840bb1d2aed1e30e928adf41e112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 049/125] fix: parallel threads mixed up the turbulence wakes
 used by TurbOParkIX

---
 foxes/models/wake_models/wind/turbopark.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/foxes/models/wake_models/wind/turbopark.py b/foxes/models/wake_models/wind/turbopark.py
index f7a92fb..c3f6246 100644
--- a/foxes/models/wake_models/wind/turbopark.py
+++ b/foxes/models/wake_models/wind/turbopark.py
@@ -381,17 +381,18 @@ class TurbOParkWakeIX(GaussianWakeModel):
             wake deltas, shape: (n_states, n_turbines, n_rpoints, ...)
 
         """
-        # find TI wake model:
-        self._tiwakes = []
+        # find TI wake model (the object may be shared by parallel threads):
+        tiwakes = []
         for w in algo.wake_models.values():
             if w is not self:
                 wdel = w.new_wake_deltas(algo, mdata, fdata, tdata)
                 if self.wake_k.ti_var in wdel:
-                    self._tiwakes.append(w)
-        if self.wake_k.ti_var not in FV.amb2var and len(self._tiwakes) == 0:
+                    tiwakes.append(w)
+        if self.wake_k.ti_var not in FV.amb2var and len(tiwakes) == 0:
             raise KeyError(
                 f"Model '{self.name}': Missing wake model that computes wake delta for variable {self.wake_k.ti_var}"
             )
+        self._tiwakes = tiwakes
 
         return super().new_wake_deltas(algo, mdata, fdata, tdata)
 
-- 
2.43.0


From 50d68c96334e06821f95907b3b893845c2ea66ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 050/125] fix: continuous cut-in of tables with integer wind
 speeds had no effect

---
 foxes/models/turbine_types/PCt_file.py     | 2 +-
 foxes/models/turbine_types/PCt_from_two.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index acd9638..78fcfa0 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -255,7 +255,7 @@ class PCtFile(TurbineType):
                 ct = ct[i:]
                 P = P[i:]
 
-                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=ws.dtype)
+                new_ws = np.linspace(0.0, ws[0], steps + 1)
                 new_ct = np.zeros_like(new_ws)
                 new_P = np.zeros_like(new_ws)
 
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 370c6df..51ffe8a 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -281,7 +281,7 @@ class PCtFromTwo(TurbineType):
                 ws = ws[i:]
                 ct = ct[i:]
 
-                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=ws.dtype)
+                new_ws = np.linspace(0.0, ws[0], steps + 1)
                 new_ct = np.zeros_like(new_ws)
 
                 new_ct[-1] = ct[0]
@@ -309,7 +309,7 @@ class PCtFromTwo(TurbineType):
                 ws = ws[i:]
                 P = P[i:]
 
-                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=ws.dtype)
+                new_ws = np.linspace(0.0, ws[0], steps + 1)
                 new_P = np.zeros_like(new_ws)
 
                 new_P[-1] = P[0]
-- 
2.43.0


From e7a507206dde1f00c1b7dbeb07cb0b55a8181293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 051/125] fix: table factors failed for selections that are not
 a mask

---
 foxes/models/turbine_models/table_factors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_models/table_factors.py b/foxes/models/turbine_models/table_factors.py
index d9b235d..49cc213 100644
--- a/foxes/models/turbine_models/table_factors.py
+++ b/foxes/models/turbine_models/table_factors.py
@@ -143,10 +143,12 @@ class TableFactors(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        n_sel = np.sum(st_sel)
+        tsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        tsel[st_sel] = True
+        n_sel = np.sum(tsel)
         qts = np.zeros((n_sel, 2), dtype=config.dtype_double)
-        qts[:, 0] = fdata[self.row_var][st_sel]
-        qts[:, 1] = fdata[self.col_var][st_sel]
+        qts[:, 0] = fdata[self.row_var][tsel]
+        qts[:, 1] = fdata[self.col_var][tsel]
 
         try:
             factors = interpn(
@@ -163,6 +165,6 @@ class TableFactors(TurbineModel):
             raise e
 
         for v in self.output_farm_vars(algo):
-            fdata[v][st_sel] *= factors
+            fdata[v][tsel] *= factors
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
-- 
2.43.0


From cc859a9f6490228889e5eba7251705c9020a66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 052/125] fix: power mask mixed the rated powers of turbines

---
 foxes/models/turbine_models/power_mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 6e3b53e..8745aad 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -153,7 +153,7 @@ class PowerMask(TurbineModel):
         # prepare:
         P = fdata[FV.P]
         max_P = fdata[FV.MAX_P]
-        P_rated = self._P_rated[None, :]
+        P_rated = self._P_rated[fdata[FV.ORDER]]
 
         # select power entries for which this is active:
         sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
-- 
2.43.0


From c063cd8a24dcb6d9a8459b0a763c6bfa4c65b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 053/125] fix: sector management ignored sectors of the full
 circle

---
 foxes/models/turbine_models/sector_management.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index e683ba6..071de08 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -139,12 +139,18 @@ class SectorManagement(TurbineModel):
             self._tcols.append(col)
 
         n_rvars = len(self._rvars)
-        self._rdata = data[self._rcols].to_numpy().reshape(n_trbs, n_rvars, 2)
+        self._rdata = (
+            data[self._rcols]
+            .to_numpy(config.dtype_double)
+            .reshape(n_trbs, n_rvars, 2)
+        )
         self._tdata = data[self._tcols].to_numpy()
 
         for vi, v in enumerate(self._rvars):
             if v in self._perds:
+                full = self._rdata[:, vi, 1] - self._rdata[:, vi, 0] >= self._perds[v]
                 self._rdata[:, vi] = np.mod(self._rdata[:, vi], self._perds[v])
+                self._rdata[full, vi] = [0.0, np.inf]
 
     def output_farm_vars(self, algo):
         """
-- 
2.43.0


From f7e8294b8086f618e5e4d97e0bf19bcee71f18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 054/125] fix: kTI ignored the given turbulence intensity

---
 foxes/models/turbine_models/kTI_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/kTI_model.py b/foxes/models/turbine_models/kTI_model.py
index ed93057..cbc1c05 100644
--- a/foxes/models/turbine_models/kTI_model.py
+++ b/foxes/models/turbine_models/kTI_model.py
@@ -122,7 +122,7 @@ class kTI(TurbineModel):
         ti = self.get_data(
             self.ti_var,
             FC.STATE_TURBINE,
-            lookup="f",
+            lookup="sf",
             fdata=fdata,
             upcast=False,
             selection=st_sel,
-- 
2.43.0


From df4b649999996cdd1cc71296463d42440666985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 055/125] fix: partial wakes averaged over the rotor of the
 wake causing turbine

---
 foxes/models/partial_wakes/axiwake.py | 14 ++---------
 foxes/models/partial_wakes/centre.py  | 34 +++++++++++++++++++++++++++
 foxes/models/partial_wakes/top_hat.py | 11 +--------
 3 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index c41e63e..21f69c3 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -4,7 +4,6 @@ from foxes.models.wake_models.axisymmetric import AxisymmetricWakeModel
 from foxes.utils.two_circles import calc_area
 from foxes.config import config
 import foxes.variables as FV
-import foxes.constants as FC
 
 from .centre import PartialCentre
 
@@ -112,17 +111,8 @@ class PartialAxiwake(PartialCentre):
         n_states = mdata.n_states
         n_targets = tdata.n_targets
 
-        # get D:
-        D = self.get_data(
-            FV.D,
-            FC.STATE_TARGET,
-            lookup="w",
-            algo=algo,
-            fdata=fdata,
-            tdata=tdata,
-            downwind_index=downwind_index,
-            upcast=True,
-        )
+        # get rotor diameters of the targets:
+        D = tdata[self.var(FV.D)][:, :, 0]
 
         # calc coordinates to rotor centres:
         wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
diff --git a/foxes/models/partial_wakes/centre.py b/foxes/models/partial_wakes/centre.py
index 227000e..84277e0 100644
--- a/foxes/models/partial_wakes/centre.py
+++ b/foxes/models/partial_wakes/centre.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 import foxes.variables as FV
+import foxes.constants as FC
 from foxes.config import config
 
 from .rotor_points import RotorPoints
@@ -39,3 +40,36 @@ class PartialCentre(RotorPoints):
 
         """
         return fdata[FV.TXYH][:, :, None], np.ones(1, dtype=config.dtype_double)
+
+    def new_wake_deltas(self, algo, mdata, fdata, tdata, wmodel):
+        """
+        Creates new initial wake deltas, filled
+        with zeros.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        mdata: foxes.core.Data
+            The model data
+        fdata: foxes.core.Data
+            The farm data
+        tdata: foxes.core.Data
+            The target point data
+        wmodel: foxes.core.WakeModel
+            The wake model
+
+        Returns
+        -------
+        wake_deltas: dict
+            Key: variable name, value: The zero filled
+            wake deltas, shape: (n_states, n_turbines, n_tpoints, ...)
+
+        """
+        # the targets are turbines, store their rotor diameters:
+        tdata.add(
+            self.var(FV.D),
+            fdata[FV.D][:, :, None],
+            (FC.STATE, FC.TARGET, FC.TPOINT),
+        )
+        return super().new_wake_deltas(algo, mdata, fdata, tdata, wmodel)
diff --git a/foxes/models/partial_wakes/top_hat.py b/foxes/models/partial_wakes/top_hat.py
index a48c050..102500d 100644
--- a/foxes/models/partial_wakes/top_hat.py
+++ b/foxes/models/partial_wakes/top_hat.py
@@ -153,16 +153,7 @@ class PartialTopHat(PartialCentre):
             R = np.linalg.norm(yz, axis=-1)
             del yz
 
-            D = self.get_data(
-                FV.D,
-                FC.STATE_TARGET,
-                lookup="w",
-                fdata=fdata,
-                tdata=tdata,
-                downwind_index=downwind_index,
-                algo=algo,
-                upcast=True,
-            )
+            D = tdata[self.var(FV.D)][:, :, 0]
 
             wr = wmodel.calc_wake_radius(
                 algo, mdata, fdata, tdata, downwind_index, x, ct
-- 
2.43.0


From 119b44baee17770c1e5ba5112599ff7e49dc28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 056/125] fix: ground mirror evaluated the main wake without
 the partial wakes model

---
 foxes/models/ground_models/wake_mirror.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index c00f093..7db1e33 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -75,8 +75,7 @@ class WakeMirror(GroundModel):
         # assert(np.all(fdata[FV.H]==fdata[FV.TXYH[..., 2]]))
 
         # contribution from main wake:
-        wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
-        wmodel.contribute(algo, mdata, fdata, tdata, downwind_index, wcoos, wake_deltas)
+        pwake.contribute(algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel)
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
-- 
2.43.0


From 05ef7392b22698bb1b2d587185e568c6d578284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 057/125] fix: axiwake partial wakes lost the wake for centres
 at the rotor edge

---
 foxes/models/partial_wakes/axiwake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index 21f69c3..34bb47f 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -158,7 +158,7 @@ class PartialAxiwake(PartialCentre):
             del hA, Rsel, Dsel, R1, R2
 
         # case wake centre inside rotor disk:
-        sel = (x > 0) & (R < D / 2)
+        sel = (x > 0) & (R <= D / 2)
         if np.any(sel):
             n_sel = np.sum(sel)
             Rsel = np.zeros((n_sel, self.n + 1), dtype=config.dtype_double)
-- 
2.43.0


From 6ec0cf412c2302ade2cddf4037a47773b2035323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 058/125] fix: effective wind speeds of one-point rotors for
 reversed flow

---
 foxes/core/rotor_model.py | 42 +++++++++++++++------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index bd6fb26..093b563 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -275,38 +275,28 @@ class RotorModel(FarmDataModel):
                     vdone.append(v)
 
                 elif v == FV.REWS2:
-                    # For highly inhomogeneous wind fields
-                    # and multiple rotor points some of the uv
-                    # vectors may have negative projections onto the
-                    # turbine axis direction:
-                    if uvp.shape[2] > 1:
-                        rews2 = np.sqrt(
-                            np.maximum(
-                                np.einsum(
-                                    "stp,p->st", np.sign(wsp) * wsp**2, rpoint_weights
-                                ),
-                                0.0,
-                            )
+                    # For highly inhomogeneous wind fields, or rotors
+                    # in yaw, some of the uv vectors may have negative
+                    # projections onto the turbine axis direction:
+                    rews2 = np.sqrt(
+                        np.maximum(
+                            np.einsum(
+                                "stp,p->st", np.sign(wsp) * wsp**2, rpoint_weights
+                            ),
+                            0.0,
                         )
-                    else:
-                        rews2 = np.sqrt(np.einsum("stp,p->st", wsp**2, rpoint_weights))
+                    )
                     self._set_res(fdata, v, rews2, downwind_index)
                     del rews2
                     vdone.append(v)
 
                 elif v == FV.REWS3:
-                    # For highly inhomogeneous wind fields
-                    # and multiple rotor points some of the uv
-                    # vectors may have negative projections onto the
-                    # turbine axis direction:
-                    if uvp.shape[2] > 1:
-                        rews3 = np.maximum(
-                            np.einsum("stp,p->st", wsp**3, rpoint_weights), 0.0
-                        ) ** (1.0 / 3.0)
-                    else:
-                        rews3 = (np.einsum("stp,p->st", wsp**3, rpoint_weights)) ** (
-                            1.0 / 3.0
-                        )
+                    # For highly inhomogeneous wind fields, or rotors
+                    # in yaw, some of the uv vectors may have negative
+                    # projections onto the turbine axis direction:
+                    rews3 = np.maximum(
+                        np.einsum("stp,p->st", wsp**3, rpoint_weights), 0.0
+                    ) ** (1.0 / 3.0)
                     self._set_res(fdata, v, rews3, downwind_index)
                     del rews3
                     vdone.append(v)
-- 
2.43.0


From 8dad1ed5b3cccf4f1b16633b2edee6c765a720ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 059/125] fix: turbines shared one list of models

---
 foxes/core/turbine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/foxes/core/turbine.py b/foxes/core/turbine.py
index b1ad99a..6db68dd 100644
--- a/foxes/core/turbine.py
+++ b/foxes/core/turbine.py
@@ -71,13 +71,15 @@ class Turbine:
         self.index = index
         self.name = name
         self.xy = np.array(xy)
-        self.models = turbine_models
+        self.models = list(turbine_models)
         self.D = D
         self.H = H
 
-        self.mstates_sel = models_state_sel
-        if self.mstates_sel is None:
-            self.mstates_sel = [None] * len(self.models)
+        self.mstates_sel = (
+            list(models_state_sel)
+            if models_state_sel is not None
+            else [None] * len(self.models)
+        )
 
     def add_model(self, model, states_sel=None):
         """
-- 
2.43.0


From 356caa188542550f28c36e3d79ddcb9f74d5a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 060/125] fix: ring layouts truncated the angles to integers

---
 foxes/input/farm_layout/ring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/input/farm_layout/ring.py b/foxes/input/farm_layout/ring.py
index 0fe15d0..324a1ba 100644
--- a/foxes/input/farm_layout/ring.py
+++ b/foxes/input/farm_layout/ring.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from foxes.core import Turbine
 from foxes.utils import wd2wdvec
+from foxes.config import config
 
 
 def add_ring(
@@ -45,7 +46,7 @@ def add_ring(
     """
     p0 = np.array(xy_base)
     R = n_turbines * dist / (2 * np.pi)
-    a = np.atleast_1d(offset_deg)
+    a = np.array([offset_deg], dtype=config.dtype_double)
     da = 360 / n_turbines
 
     for i in range(n_turbines):
-- 
2.43.0


From 143e84f983dd49cb78eece854faced01879ebac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:24 +0000
Subject: [PATCH 061/125] fix: seed zero of random layouts was ignored

---
 foxes/utils/random_xy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/random_xy.py b/foxes/utils/random_xy.py
index 18d97e8..3ae4db0 100644
--- a/foxes/utils/random_xy.py
+++ b/foxes/utils/random_xy.py
@@ -38,7 +38,7 @@ def random_xy_square(
     :group: utils
 
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     xmax = np.sqrt(n) * min_dist if xmax_ini is None else xmax_ini
-- 
2.43.0


From 62837e17b8aca2a893ee10d1ab104df8bdc1e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 062/125] fix: turbine tables were read by row label instead of
 row

---
 foxes/input/farm_layout/from_csv.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/foxes/input/farm_layout/from_csv.py b/foxes/input/farm_layout/from_csv.py
index 91d0a64..0a95daf 100644
--- a/foxes/input/farm_layout/from_csv.py
+++ b/foxes/input/farm_layout/from_csv.py
@@ -1,7 +1,7 @@
 import pandas as pd
 
 from foxes.core import Turbine
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 
 
 def add_from_csv(
@@ -83,28 +83,25 @@ def add_from_csv(
     H = turbine_parameters.pop("H", None)
     D = turbine_parameters.pop("D", None)
 
-    for i in data.index:
+    for ti, i in enumerate(data.index):
+        row = data.iloc[ti]
         s = 1 if turbine_base_name_count_shift else 0
         tname = (
-            f"{turbine_base_name}{i+s}" if col_name is None else data.loc[i, col_name]
+            f"{turbine_base_name}{i+s}" if col_name is None else data[col_name].iloc[ti]
         )
-        txy = data.loc[i, [col_x, col_y]].values
+        txy = row[[col_x, col_y]].values.astype(config.dtype_double)
 
         if turbine_ids is not None:
-            tid = turbine_ids[i]
+            tid = turbine_ids[ti]
         elif col_id is not None:
-            tid = data.loc[i, col_id]
+            tid = data[col_id].tolist()[ti]
         else:
             tid = None
 
-        hmodels = (
-            [] if cols_models_pre is None else data.loc[i, cols_models_pre].tolist()
-        )
-        hmodels += [] if col_turbine_type is None else [data.loc[i, col_turbine_type]]
+        hmodels = [] if cols_models_pre is None else row[cols_models_pre].tolist()
+        hmodels += [] if col_turbine_type is None else [row[col_turbine_type]]
         hmodels += tmodels
-        hmodels += (
-            [] if cols_models_post is None else data.loc[i, cols_models_post].tolist()
-        )
+        hmodels += [] if cols_models_post is None else row[cols_models_post].tolist()
 
         farm.add_turbine(
             Turbine(
-- 
2.43.0


From cd0bb8439a2166db103146235a7f34fc35d8f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 063/125] fix: missing sizes in turbine tables became NaN

---
 foxes/input/farm_layout/from_csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/farm_layout/from_csv.py b/foxes/input/farm_layout/from_csv.py
index 0a95daf..f792418 100644
--- a/foxes/input/farm_layout/from_csv.py
+++ b/foxes/input/farm_layout/from_csv.py
@@ -108,8 +108,8 @@ def add_from_csv(
                 name=tname,
                 index=tid,
                 xy=txy,
-                H=H if col_H not in data.columns else data.loc[i, col_H],
-                D=D if col_D not in data.columns else data.loc[i, col_D],
+                H=H if col_H not in data.columns or pd.isna(row[col_H]) else row[col_H],
+                D=D if col_D not in data.columns or pd.isna(row[col_D]) else row[col_D],
                 turbine_models=hmodels,
                 **turbine_parameters,
             ),
-- 
2.43.0


From 3d139a1da8c14a2607ba1a795962142903a960a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 064/125] fix: layouts from compressed files failed for path
 objects

---
 foxes/input/farm_layout/from_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/input/farm_layout/from_file.py b/foxes/input/farm_layout/from_file.py
index d42bc30..74e8d08 100644
--- a/foxes/input/farm_layout/from_file.py
+++ b/foxes/input/farm_layout/from_file.py
@@ -40,12 +40,12 @@ def add_from_file(farm, file_path, *args, verbosity=1, dbook=None, **kwargs):
         file_path = dbook.get_file_path(FARM, fpath.name, check_raw=False)
 
     if fpath.suffix == ".json":
-        add_from_json(farm, file_path, *args, **kwargs)
+        add_from_json(farm, file_path, *args, verbosity=verbosity, **kwargs)
     elif (
         fpath.suffix == ".csv"
-        or (len(file_path) > 7 and file_path[-7:] == ".csv.gz")
-        or (len(file_path) > 8 and file_path[-8:] == ".csv.bz2")
-        or (len(file_path) > 8 and file_path[-8:] == ".csv.zip")
+        or fpath.name.endswith(".csv.gz")
+        or fpath.name.endswith(".csv.bz2")
+        or fpath.name.endswith(".csv.zip")
     ):
         add_from_csv(farm, file_path, *args, verbosity=verbosity, **kwargs)
     else:
-- 
2.43.0


From 875fc76f53be476d0d50d9af77ebb99c64979616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 065/125] fix: layout json files lost the turbine sizes

---
 foxes/output/farm_layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foxes/output/farm_layout.py b/foxes/output/farm_layout.py
index afdae5f..5dc2c26 100644
--- a/foxes/output/farm_layout.py
+++ b/foxes/output/farm_layout.py
@@ -122,6 +122,10 @@ class FarmLayoutOutput(Output):
                 "UTMX": p[0],
                 "UTMY": p[1],
             }
+            if not np.isnan(p[2]):
+                out[self.farm.name][t.name]["H"] = p[2]
+            if t.D is not None:
+                out[self.farm.name][t.name]["D"] = float(t.D)
 
         return out
 
-- 
2.43.0


From 58ecc161d3b9ab9d21e598edcc60a4409f52ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 066/125] fix: results writer changed its data and arguments
 and lost names

---
 foxes/output/results_writer.py | 37 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index d532c78..a4bef7a 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -52,21 +52,19 @@ class ResultsWriter(Output):
     def _get_data_vars(self, variables):
         """Helper function for variable gathering"""
         data = self.data
+        inds = {FC.STATE: FC.STATE, FC.TURBINE: FC.TURBINE}
         if variables is None:
             pass
         elif isinstance(variables, dict):
-            inds = {
-                s: variables.pop(s) for s in self.data.index.names if s in variables
-            }
+            inds.update({s: variables[s] for s in data.index.names if s in variables})
+            variables = {v: n for v, n in variables.items() if v not in inds}
             if len(variables):
                 data = data[list(variables.keys())].rename(variables, axis=1)
-            if len(inds):
-                for s, ns in inds.items():
-                    data = data.rename_axis(index={s: ns})
+            data = data.rename_axis(index=inds)
         else:
             data = self.data[list(variables)]
 
-        return data, data.columns.tolist()
+        return data, data.columns.tolist(), inds[FC.STATE], inds[FC.TURBINE]
 
     def write_csv(
         self,
@@ -103,10 +101,12 @@ class ResultsWriter(Output):
         if verbosity:
             print(f"ResultsWriter: Writing file '{file_name}'")
 
-        data, variables = self._get_data_vars(variables)
-        data.reset_index(inplace=True)
-        fc2v = kwargs.pop("format_col2var", {})
-        tix = FC.TNAME if turbine_names else FC.TURBINE
+        data, variables, state, turbine = self._get_data_vars(variables)
+        data = data.reset_index()
+        fc2v = dict(kwargs.pop("format_col2var", {}))
+        tix = FC.TNAME if turbine_names else turbine
+        if turbine_names:
+            data[FC.TNAME] = self.data[FC.TNAME].to_numpy()
 
         if state_turbine_table:
             if len(variables) != 1:
@@ -115,11 +115,11 @@ class ResultsWriter(Output):
                 )
             v = variables[0]
             cnames = {
-                t: f"{v}_T{t:04d}" if tix == FC.TURBINE else f"{v}_{t}"
+                t: f"{v}_{t}" if turbine_names else f"{v}_T{t:04d}"
                 for t in data[tix]
             }
             for ti, (t, g) in enumerate(
-                data.reset_index().set_index(FC.STATE).groupby(tix)
+                data.reset_index().set_index(state).groupby(tix)
             ):
                 if ti == 0:
                     odata = pd.DataFrame(
@@ -131,7 +131,7 @@ class ResultsWriter(Output):
                 fc2v[cname] = v
             data = odata
         else:
-            data.set_index([FC.STATE, tix], inplace=True)
+            data = data.set_index([state, tix])
 
         super().write(file_name, data, format_col2var=fc2v, **kwargs)
 
@@ -163,21 +163,20 @@ class ResultsWriter(Output):
             Additional parameters for write_nc()
 
         """
-        data, variables = self._get_data_vars(variables)
+        data, variables, state, turbine = self._get_data_vars(variables)
         states = data.index.get_level_values(0).unique()
         n_states = len(states)
         n_turbines = len(data.index.get_level_values(1).unique())
 
-        crds = {FC.STATE: states}
+        crds = {state: states}
         if turbine_names:
-            idx = pd.IndexSlice
-            crds[FC.TURBINE] = self.data.loc[idx[0, :], FC.TNAME].to_numpy()
+            crds[turbine] = self.data[FC.TNAME].to_numpy()[:n_turbines]
 
         ds = Dataset(
             coords=crds,
             data_vars={
                 v: (
-                    (FC.STATE, FC.TURBINE),
+                    (state, turbine),
                     data[v].to_numpy().reshape(n_states, n_turbines),
                 )
                 for v in variables
-- 
2.43.0


From 90225cdd503925082173fa60be29b003a6708cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 067/125] fix: results writer relied on the order of dimensions
 and turbine labels

---
 foxes/output/results_writer.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index a4bef7a..4a5bebf 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -37,11 +37,7 @@ class ResultsWriter(Output):
         super().__init__(**kwargs)
 
         if farm_results is not None and data is None:
-            self.data = farm_results.to_dataframe().reset_index()
-            self.data[FC.TNAME] = farm_results[FC.TNAME].to_numpy()[
-                self.data[FC.TURBINE]
-            ]
-            self.data.set_index([FC.STATE, FC.TURBINE], inplace=True)
+            self.data = farm_results.to_dataframe(dim_order=[FC.STATE, FC.TURBINE])
         elif farm_results is None and data is not None:
             self.data = data
         else:
-- 
2.43.0


From 17c2afb800eebafa7f72486e2fe9480f92d599fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 068/125] fix: writing netCDF files rounded the data of the
 caller

---
 foxes/utils/xarray_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/utils/xarray_utils.py b/foxes/utils/xarray_utils.py
index ccf6a88..a2a5d6c 100644
--- a/foxes/utils/xarray_utils.py
+++ b/foxes/utils/xarray_utils.py
@@ -31,6 +31,7 @@ def write_nc(
     """
     fpath = Path(fpath)
     if round is not None:
+        ds = ds.copy()
         for v in ds.coords.keys():
             d = round.get(v, get_default_digits(v))
             if d is not None:
-- 
2.43.0


From 99ae75b385c1192b51bb5f6e5686f2e1cad0f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 069/125] fix: table writing parameters were kept for later
 files

---
 foxes/utils/pandas_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/pandas_utils.py b/foxes/utils/pandas_utils.py
index fe375bb..45ff116 100644
--- a/foxes/utils/pandas_utils.py
+++ b/foxes/utils/pandas_utils.py
@@ -163,7 +163,7 @@ class PandasFileHelper:
                 f = out.to_netcdf
 
             if f is not None:
-                pars = cls.DEFAULT_WRITING_PARAMETERS[fmt]
+                pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS[fmt])
                 pars.update(kwargs)
 
                 f(file_path, **pars)
-- 
2.43.0


From 15bd08fc5e794d45757085791f792448ec71a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 070/125] fix: model parameters were shared by all farm
 controllers

---
 foxes/core/farm_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index 11ca300..0856d50 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -49,7 +49,7 @@ class FarmController(FarmDataModel):
         self.turbine_model_names = None
         self.pre_rotor_models = None
         self.post_rotor_models = None
-        self.pars = pars
+        self.pars = dict(pars)
 
     def sub_models(self):
         """
-- 
2.43.0


From dae6711a08bf525dddc4f0a3406e7b9bfddfb436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 071/125] fix: wind roses lost states at sector edges and had
 surplus sectors

---
 foxes/output/rose_plot.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/foxes/output/rose_plot.py b/foxes/output/rose_plot.py
index 33db838..9e3d3bd 100644
--- a/foxes/output/rose_plot.py
+++ b/foxes/output/rose_plot.py
@@ -166,17 +166,17 @@ class RosePlotOutput(Output):
             ws_bins = list(ws_bins) + [np.inf]
         t = turbine if self._rtype == FC.TURBINE else point
         ws = self.results[ws_var].to_numpy()[:, t]
-        wd = self.results[wd_var].to_numpy()[:, t].copy()
+        wd = self.results[wd_var].to_numpy()[:, t]
         wd_delta = 360 / wd_sectors
-        wd[wd >= 360 - wd_delta / 2] -= 360
-        wd_bins = np.arange(-wd_delta / 2, 360, wd_delta)
+        wd = wd_delta * np.mod(np.floor(wd / wd_delta + 0.5), wd_sectors)
+        wd_bins = (np.arange(wd_sectors + 1) - 0.5) * wd_delta
         ws_bins = np.asarray(ws_bins, dtype=ws.dtype)
 
         freq = 100 * np.histogram2d(wd, ws, (wd_bins, ws_bins), weights=w)[0]
 
         data = Dataset(
             coords={
-                wd_var: np.arange(0, 360, wd_delta),
+                wd_var: np.arange(wd_sectors) * wd_delta,
                 ws_var: 0.5 * (ws_bins[:-1] + ws_bins[1:]),
             },
             data_vars={
@@ -470,10 +470,10 @@ class WindRoseBinPlot(Output):
 
         var = self.farm_results[variable].to_numpy()[:, turbine]
         ws = self.farm_results[ws_var].to_numpy()[:, turbine]
-        wd = self.farm_results[wd_var].to_numpy()[:, turbine].copy()
+        wd = self.farm_results[wd_var].to_numpy()[:, turbine]
         wd_delta = 360 / wd_sectors
-        wd[wd >= 360 - wd_delta / 2] -= 360
-        wd_bins = np.arange(-wd_delta / 2, 360, wd_delta)
+        wd = wd_delta * np.mod(np.floor(wd / wd_delta + 0.5), wd_sectors)
+        wd_bins = (np.arange(wd_sectors + 1) - 0.5) * wd_delta
         ws_bins = np.asarray(ws_bins)
 
         if contraction == "weights":
-- 
2.43.0


From a9d1f1b7d32cd9fec748003a6d09c9dd4af529a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 072/125] fix: slices of all variables, of selected states and
 in pandas format

---
 foxes/output/grids.py      | 2 +-
 foxes/output/slice_data.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index b9766b5..2edf18c 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -601,7 +601,7 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
-    return pd.DataFrame(index=minds, data=data)
+    return pd.DataFrame(index=minds, data={v: d.ravel() for v, d in data.items()})
 
 
 def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index a4c87f9..de1da0f 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -140,13 +140,14 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
+            variables = [v for v in point_results.data_vars.keys() if v != FV.WEIGHT]
         else:
             point_results.drop_vars(variables)
         del g_pts
 
         # take mean over states:
         weights = point_results[FV.WEIGHT].to_numpy()
+        weights = weights / np.sum(weights, axis=0)
         if point_results[FV.WEIGHT].dims == (FC.STATE,):
             data = {
                 v: np.einsum("s,sp->p", weights, point_results[v].to_numpy())
@@ -657,7 +658,7 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
+            variables = [v for v in point_results.data_vars.keys() if v != FV.WEIGHT]
         else:
             point_results.drop_vars(variables)
         del g_pts
-- 
2.43.0


From 6691226942b245106efcfa280dd2be4ed48576d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 073/125] fix: grid data could not be converted to xarray

---
 foxes/output/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index 2edf18c..6148357 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -753,7 +753,7 @@ def data2xr(
     cn = list(reversed([allcn[i] for i in ci]))
 
     coords = {}
-    attrs = {allcn[cj]: allc[cj].to_numpy()}
+    attrs = {allcn[cj]: float(allc[cj])}
     if (
         FC.STATE in point_results.coords
         and isinstance(state_mean, bool)
-- 
2.43.0


From bdcac15f7ac8b144f8ca358f8a5dd1990a3e8b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 074/125] fix: point calculator could not average over states
 or write all variables

---
 foxes/output/calc_points.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/foxes/output/calc_points.py b/foxes/output/calc_points.py
index d7bff65..690340a 100644
--- a/foxes/output/calc_points.py
+++ b/foxes/output/calc_points.py
@@ -101,11 +101,16 @@ class PointCalculator(Output):
         pres = self.algo.calc_points(self.farm_results, pts, *args, **kwargs)
 
         if states_mean:
-            weights = self.farm_results[FV.WEIGHT].to_numpy()[:, weight_turbine]
+            weights = self.farm_results[FV.WEIGHT]
+            if FC.TURBINE in weights.dims:
+                weights = weights.isel({FC.TURBINE: weight_turbine})
+            weights = weights.sel({FC.STATE: pres[FC.STATE]}).to_numpy()
+            weights = weights / np.sum(weights)
             pres = Dataset(
                 data_vars={
-                    v: np.einsum("s,sp->p", weights, pres[v].to_numpy())
+                    v: ((FC.POINT,), np.einsum("s,sp->p", weights, pres[v].to_numpy()))
                     for v in pres.data_vars.keys()
+                    if pres[v].dims == (FC.STATE, FC.POINT)
                 }
             )
 
@@ -134,9 +139,7 @@ class PointCalculator(Output):
                         "y": ((FC.POINT,), points[..., 1]),
                         "z": ((FC.POINT,), points[..., 2]),
                     }
-                dvars.update(
-                    {v: ((FC.STATE, FC.POINT), pres[v].to_numpy()) for v in vrs}
-                )
+                dvars.update({v: (pres[v].dims, pres[v].to_numpy()) for v in vrs})
                 ds = Dataset(
                     coords={FC.STATE: pres[FC.STATE].to_numpy()}, data_vars=dvars
                 )
-- 
2.43.0


From 56076edf4430669b880cb065fa7dfbe54205c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:45 +0000
Subject: [PATCH 075/125] fix: flow plots returned the data of an arbitrary
 variable

---
 foxes/output/flow_plots_2d/flow_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 4937007..63bcdf1 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -156,7 +156,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -306,7 +306,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -457,7 +457,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
-- 
2.43.0


From 8a14f560b355ef003b28ab0d3945cea970443327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:45 +0000
Subject: [PATCH 076/125] fix: label maps were not applied to the variables of
 all slices

---
 foxes/output/grids.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index 6148357..2a03b05 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -563,6 +563,7 @@ def np2pd_p(data, a_pos, b_pos, ori, label_map={}):
     n_a = len(a_pos)
     n_b = len(b_pos)
     minds = pd.MultiIndex.from_product([range(n_a), range(n_b)], names=[a, b])
+    data = {label_map.get(v, v): d for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
@@ -601,7 +602,8 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
-    return pd.DataFrame(index=minds, data={v: d.ravel() for v, d in data.items()})
+    data = {label_map.get(v, v): d.ravel() for v, d in data.items()}
+    return pd.DataFrame(index=minds, data=data)
 
 
 def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
@@ -638,7 +640,8 @@ def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
     return Dataset(
         coords={b: b_pos, a: a_pos},
         data_vars={
-            v: ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1)) for v, d in data.items()
+            label_map.get(v, v): ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1))
+            for v, d in data.items()
         },
         attrs={c: float(c_pos)},
     )
-- 
2.43.0


From 63fba3ae89b886431ee320283c88e31b28f26d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 077/125] fix: slices data failed for mapped coordinate labels

---
 foxes/output/slices_data.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/foxes/output/slices_data.py b/foxes/output/slices_data.py
index 3db23c7..76ed320 100644
--- a/foxes/output/slices_data.py
+++ b/foxes/output/slices_data.py
@@ -228,7 +228,8 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(z_list, name="z"))
         del out.attrs["z"]
-        return out.transpose(FC.STATE, "z", ...)
+        lm = kwargs.get("label_map", {})
+        return out.transpose(lm.get(FC.STATE, FC.STATE), "z", ...)
 
     def get_states_data_xz(
         self,
@@ -274,7 +275,8 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(y_list, name="y"))
         del out.attrs["y"]
-        return out.transpose(FC.STATE, "z", "y", ...)
+        lm = kwargs.get("label_map", {})
+        return out.transpose(lm.get(FC.STATE, FC.STATE), lm.get("z", "z"), "y", ...)
 
     def get_states_data_yz(
         self,
@@ -320,4 +322,6 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(x_list, name="x"))
         del out.attrs["x"]
-        return out.transpose(FC.STATE, "z", "y", "x", ...)
+        lm = kwargs.get("label_map", {})
+        dims = [lm.get(d, d) for d in (FC.STATE, "z", "y")]
+        return out.transpose(*dims, "x", ...)
-- 
2.43.0


From f4093a6e3b9fec0c3b61f63448ec96a5567e2a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 078/125] fix: an engine that was refused could never be used
 again

---
 foxes/core/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index afaefb2..a154c9d 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -124,6 +124,7 @@ class Engine(ABC):
             self.__enter__()
         elif not self.initialized:
             if get_engine(error=False, default=False) is not None:
+                self.__entered = False
                 raise ValueError(
                     f"Cannot initialize engine '{type(self).__name__}', since engine already set to '{type(get_engine()).__name__}'"
                 )
-- 
2.43.0


From 132104908d6286deacffb24fc50692de87186a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 079/125] fix: refused engines replaced or lost the workers of
 entered ones

---
 foxes/engines/dask.py | 10 ++++++----
 foxes/engines/pool.py | 12 +++++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 0b8f93a..8a1eede 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -83,13 +83,14 @@ class DaskBaseEngine(Engine):
         self.progress_bar = progress_bar
 
     def __enter__(self):
+        super().__enter__()
         if self.progress_bar:
             self._pbar = ProgressBar(minimum=2)
             self._pbar.__enter__()
-        return super().__enter__()
+        return self
 
     def __exit__(self, *args):
-        if self.progress_bar:
+        if self.entered and self.progress_bar:
             self._pbar.__exit__(*args)
         super().__exit__(*args)
 
@@ -97,8 +98,8 @@ class DaskBaseEngine(Engine):
         """
         Initializes the engine.
         """
-        dask.config.set(**self.dask_config)
         super().initialize()
+        dask.config.set(**self.dask_config)
 
     def map(
         self,
@@ -180,7 +181,8 @@ class DaskBaseEngine(Engine):
             Arguments from the exit function
 
         """
-        dask.config.refresh()
+        if self.initialized:
+            dask.config.refresh()
         super().finalize(*exit_args, **exit_kwargs)
 
 
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 3271e5a..c312447 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -84,11 +84,17 @@ class PoolEngine(Engine):
         pass
 
     def __enter__(self):
-        self._create_pool()
-        return super().__enter__()
+        super().__enter__()
+        try:
+            self._create_pool()
+        except Exception:
+            super().__exit__()
+            raise
+        return self
 
     def __exit__(self, *exit_args):
-        self._shutdown_pool()
+        if self.entered:
+            self._shutdown_pool()
         super().__exit__(*exit_args)
 
     def map(
-- 
2.43.0


From ce346d083a316bb5a1e6d11be2327fe0bdda539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 080/125] fix: the default engine was lost after a failing
 calculation

---
 foxes/engines/default.py | 46 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/foxes/engines/default.py b/foxes/engines/default.py
index 1576b10..15c2008 100644
--- a/foxes/engines/default.py
+++ b/foxes/engines/default.py
@@ -43,16 +43,17 @@ class DefaultEngine(Engine):
 
         self.finalize()
 
-        with Engine.new(
-            "process",
-            n_procs=self.n_procs,
-            chunk_size_states=self.chunk_size_states,
-            chunk_size_points=self.chunk_size_points,
-            verbosity=self.verbosity,
-        ) as e:
-            results = e.map(func, inputs, *args, **kwargs)
-
-        self.initialize()
+        try:
+            with Engine.new(
+                "process",
+                n_procs=self.n_procs,
+                chunk_size_states=self.chunk_size_states,
+                chunk_size_points=self.chunk_size_points,
+                verbosity=self.verbosity,
+            ) as e:
+                results = e.map(func, inputs, *args, **kwargs)
+        finally:
+            self.initialize()
 
         return results
 
@@ -102,17 +103,18 @@ class DefaultEngine(Engine):
 
         self.finalize()
 
-        with Engine.new(
-            ename,
-            n_procs=self.n_procs,
-            chunk_size_states=self.chunk_size_states,
-            chunk_size_points=self.chunk_size_points,
-            verbosity=self.verbosity,
-        ) as e:
-            results = e.run_calculation(
-                algo, model, model_data, farm_data, point_data=point_data, **kwargs
-            )
-
-        self.initialize()
+        try:
+            with Engine.new(
+                ename,
+                n_procs=self.n_procs,
+                chunk_size_states=self.chunk_size_states,
+                chunk_size_points=self.chunk_size_points,
+                verbosity=self.verbosity,
+            ) as e:
+                results = e.run_calculation(
+                    algo, model, model_data, farm_data, point_data=point_data, **kwargs
+                )
+        finally:
+            self.initialize()
 
         return results
-- 
2.43.0


From 10936ef501147fe59a67c37f0eba1c4fd94ea997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:29 +0000
Subject: [PATCH 081/125] fix: calc_farm could not be repeated after a failure

---
 foxes/algorithms/downwind/downwind.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index d0cf3c5..df50357 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -581,8 +581,9 @@ class Downwind(Algorithm):
         mlist, calc_pars = self._collect_farm_models(outputs, calc_parameters, ambient)
 
         # initialize models:
+        # (data under this name may be left over from a failed calculation)
         if not mlist.initialized:
-            mlist.initialize(self, self.verbosity - 1)
+            mlist.initialize(self, self.verbosity - 1, force=True)
             self._calc_farm_vars(mlist)
         self._print_model_oder(mlist, calc_pars)
 
-- 
2.43.0


From 06821036ea1d70b36cb1cd8e2f5e0b5d3e5eb2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:29 +0000
Subject: [PATCH 082/125] fix: initialization could not be repeated after a
 turbine model failed

---
 foxes/core/farm_controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index 0856d50..dd0f36b 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -321,6 +321,9 @@ class FarmController(FarmDataModel):
 
         """
         self.collect_models(algo)
+        for m in [self.pre_rotor_models, self.post_rotor_models]:
+            # data of earlier lists may be left over from a failed initialization
+            m.initialize(algo, verbosity, force=True)
         super().initialize(algo, verbosity)
 
     def load_data(self, algo, verbosity=0):
-- 
2.43.0


From 1d38b6fc3fa547d9f7c6238a74ce7e375ecd3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 083/125] fix: sequential runs could not be started again after
 a failing start

---
 foxes/algorithms/sequential/sequential.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index abcc3df..df707ba 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -139,8 +139,6 @@ class Sequential(Iterative):
             self.print_deco("calc_farm")
 
             self._inds = self.states0.index()
-            self._i = 0
-            self._counter = 0
 
             self._it = 0
             mlist, __ = self._collect_farm_models(
@@ -179,8 +177,14 @@ class Sequential(Iterative):
 
             self._point_results = None
 
-            for p in self.plugins:
-                p.initialize(self)
+            self._i = 0
+            self._counter = 0
+            try:
+                for p in self.plugins:
+                    p.initialize(self)
+            except BaseException:
+                self._i = None
+                raise
 
         return self
 
-- 
2.43.0


From 488778bf98039dcfda3d46e5e02f383319efcfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:03 +0000
Subject: [PATCH 084/125] fix: models whose initialization failed counted as
 initialized

---
 foxes/models/turbine_models/power_mask.py        | 4 ++--
 foxes/models/turbine_models/sector_management.py | 4 ++--
 foxes/models/turbine_models/table_factors.py     | 4 ++--
 foxes/models/wake_frames/dynamic_wakes.py        | 4 ++--
 foxes/models/wake_frames/seq_dynamic_wakes.py    | 3 ++-
 foxes/models/wake_frames/timelines.py            | 4 ++--
 6 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 8745aad..6133f40 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -112,8 +112,6 @@ class PowerMask(TurbineModel):
         """
         if isinstance(self.induction, str):
             self.induction = algo.mbook.axial_induction[self.induction]
-        super().initialize(algo, verbosity)
-
         self._P_rated = []
         for t in algo.farm_controller.turbine_types:
             Pnom = config.dtype_double(t.P_nominal)
@@ -124,6 +122,8 @@ class PowerMask(TurbineModel):
             self._P_rated.append(Pnom)
         self._P_rated = np.array(self._P_rated, dtype=config.dtype_double)
 
+        super().initialize(algo, verbosity)
+
     def calculate(self, algo, mdata, fdata, st_sel):
         """
         The main model calculation.
diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 071de08..c7cbb73 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -86,8 +86,6 @@ class SectorManagement(TurbineModel):
             The verbosity level, 0 = silent
 
         """
-        super().initialize(algo, verbosity)
-
         if isinstance(self.source, pd.DataFrame):
             data = self.source.copy()
         else:
@@ -152,6 +150,8 @@ class SectorManagement(TurbineModel):
                 self._rdata[:, vi] = np.mod(self._rdata[:, vi], self._perds[v])
                 self._rdata[full, vi] = [0.0, np.inf]
 
+        super().initialize(algo, verbosity)
+
     def output_farm_vars(self, algo):
         """
         The variables which are being modified by the model.
diff --git a/foxes/models/turbine_models/table_factors.py b/foxes/models/turbine_models/table_factors.py
index 49cc213..2b69e62 100644
--- a/foxes/models/turbine_models/table_factors.py
+++ b/foxes/models/turbine_models/table_factors.py
@@ -101,8 +101,6 @@ class TableFactors(TurbineModel):
             The verbosity level, 0 = silent
 
         """
-        super().initialize(algo, verbosity)
-
         if isinstance(self.data_source, pd.DataFrame):
             self._data = self.data_source
         else:
@@ -117,6 +115,8 @@ class TableFactors(TurbineModel):
         self._cvals = self._data.columns.to_numpy(config.dtype_double)
         self._data = self._data.to_numpy(config.dtype_double)
 
+        super().initialize(algo, verbosity)
+
     def calculate(self, algo, mdata, fdata, st_sel):
         """
         The main model calculation.
diff --git a/foxes/models/wake_frames/dynamic_wakes.py b/foxes/models/wake_frames/dynamic_wakes.py
index ade5a91..6da1804 100644
--- a/foxes/models/wake_frames/dynamic_wakes.py
+++ b/foxes/models/wake_frames/dynamic_wakes.py
@@ -85,8 +85,6 @@ class DynamicWakes(WakeFrame):
             raise TypeError(
                 f"Incompatible algorithm type {type(algo).__name__}, expecting {Iterative.__name__}"
             )
-        super().initialize(algo, verbosity)
-
         # get and check times:
         times = np.asarray(algo.states.index())
         if self.dt_min is None:
@@ -122,6 +120,8 @@ class DynamicWakes(WakeFrame):
         self.DATA = self.var("data")
         self.UPDATE = self.var("update")
 
+        super().initialize(algo, verbosity)
+
     def calc_order(self, algo, mdata, fdata):
         """
         Calculates the order of turbine evaluation.
diff --git a/foxes/models/wake_frames/seq_dynamic_wakes.py b/foxes/models/wake_frames/seq_dynamic_wakes.py
index 60533b0..6d0057b 100644
--- a/foxes/models/wake_frames/seq_dynamic_wakes.py
+++ b/foxes/models/wake_frames/seq_dynamic_wakes.py
@@ -63,7 +63,6 @@ class SeqDynamicWakes(FarmOrder):
             The verbosity level, 0 = silent
 
         """
-        super().initialize(algo, verbosity)
         if not isinstance(algo, Sequential):
             raise TypeError(
                 f"Incompatible algorithm type {type(algo).__name__}, expecting {Sequential.__name__}"
@@ -102,6 +101,8 @@ class SeqDynamicWakes(FarmOrder):
             (algo.n_states, algo.n_turbines), np.nan, dtype=config.dtype_double
         )
 
+        super().initialize(algo, verbosity)
+
     def calc_order(self, algo, mdata, fdata):
         """
         Calculates the order of turbine evaluation.
diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index 53a5a8c..937f935 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -189,8 +189,6 @@ class Timelines(WakeFrame):
             raise TypeError(
                 f"Incompatible algorithm type {type(algo).__name__}, expecting {Iterative.__name__}"
             )
-        super().initialize(algo, verbosity)
-
         # find turbine hub heights:
         t2h = np.zeros(algo.n_turbines, dtype=config.dtype_double)
         for ti, t in enumerate(algo.farm.turbines):
@@ -207,6 +205,8 @@ class Timelines(WakeFrame):
         else:
             self._precalc_data(algo, algo.states, heights, verbosity)
 
+        super().initialize(algo, verbosity)
+
     def set_running(
         self,
         algo,
-- 
2.43.0


From 96175989ed5ebfd5cc6e1eaa44166be88da72ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 085/125] fix: a refused cutin modification was ignored by the
 next iterative calculation

---
 foxes/algorithms/iterative/iterative.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 181b82e..fdd6b46 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -133,8 +133,12 @@ class Iterative(Downwind):
         """
         super().initialize()
         if len(self._mod_cutin):
-            for t in dict.fromkeys(self.farm_controller.turbine_types):
-                t.modify_cutin(**self._mod_cutin)
+            try:
+                for t in dict.fromkeys(self.farm_controller.turbine_types):
+                    t.modify_cutin(**self._mod_cutin)
+            except BaseException:
+                self.finalize()
+                raise
 
     @property
     def urelax(self):
-- 
2.43.0


From 246d50e4a587a371ca97f6be301f6b9331c7b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:32 +0000
Subject: [PATCH 086/125] fix: the number of states was missing after a failing
 start

---
 foxes/algorithms/downwind/downwind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index df50357..3612cfa 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -391,7 +391,9 @@ class Downwind(Algorithm):
         Initialize states, if needed.
         """
         if not self.states.initialized:
+            self.n_states = None
             self.states.initialize(self, self.verbosity)
+        if self.n_states is None:
             self.n_states = self.states.size()
 
     def finalize(self, clear_mem=False):
-- 
2.43.0


From bc2dcef8ccdbf1bda63b7e582db0f7ade6716732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 087/125] fix: a failing iterative calculation spoiled later
 point results

---
 foxes/algorithms/iterative/iterative.py | 32 ++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index fdd6b46..0d266cf 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -305,8 +305,38 @@ class Iterative(Downwind):
             outputs = self.DEFAULT_FARM_OUTPUTS
 
         # do not start from chunk data of previous calculations:
-        self.reset_chunk_store()
+        prev_store = self.reset_chunk_store()
+        prev_results = self.__prev_farm_results
+        try:
+            return self._iterate(outputs, finalize, ret_dwnd_order, **kwargs)
+        except BaseException:
+            # the results of the last completed calculation remain valid:
+            self.reset_chunk_store(prev_store)
+            self.__prev_farm_results = prev_results
+            raise
+
+    def _iterate(self, outputs, finalize, ret_dwnd_order, **kwargs):
+        """
+        Helper function that runs the iterations
+
+        Parameters
+        ----------
+        outputs: list of str, optional
+            The output variables of the final run
+        finalize: bool
+            Flag for finalization after calculation
+        ret_dwnd_order: bool
+            Also return the results in downwind order
+        kwargs: dict, optional
+            Arguments for calc_farm in the base class.
 
+        Returns
+        -------
+        farm_results: xarray.Dataset
+            The farm results. The calculated variables have
+            dimensions (state, turbine)
+
+        """
         self._ambient = kwargs.get("ambient", False)
         if self._ambient:
             # no wakes, hence nothing to iterate:
-- 
2.43.0


From 7003349fbf797c192bd1f191c571582f4b83ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:04 +0000
Subject: [PATCH 088/125] fix: parameters for models were not accepted by
 sequential runs

---
 foxes/algorithms/sequential/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index df707ba..cabb4a8 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -205,7 +205,7 @@ class Sequential(Iterative):
                 outputs=self.farm_vars,
                 finalize=False,
                 ret_dwnd_order=True,
-                **self.calc_pars,
+                calc_parameters=self.calc_pars,
             )
 
             for v in self._farm_results.data_vars.keys():
-- 
2.43.0


From 0f87168525d99e98e4ebbd26e11d812a103ffcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:04 +0000
Subject: [PATCH 089/125] fix: sequential runs ignored the request for ambient
 results

---
 foxes/algorithms/sequential/sequential.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index cabb4a8..6ae92dd 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -166,6 +166,7 @@ class Sequential(Iterative):
                         ),
                     )
                     for v in self.farm_vars
+                    if not self.ambient or v not in FV.var2amb
                 },
             )
             self._farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
@@ -206,6 +207,7 @@ class Sequential(Iterative):
                 finalize=False,
                 ret_dwnd_order=True,
                 calc_parameters=self.calc_pars,
+                ambient=self.ambient,
             )
 
             for v in self._farm_results.data_vars.keys():
@@ -223,7 +225,9 @@ class Sequential(Iterative):
                 return fres
 
             else:
-                pres = super().calc_points(fres, points=self.points, finalize=False)
+                pres = super().calc_points(
+                    fres, points=self.points, finalize=False, ambient=self.ambient
+                )
 
                 if self._point_results is None:
                     n_states = self._model_data.sizes[FC.STATE]
-- 
2.43.0


From 2f7e2d88b20a2ef8f2f40dd828339184f036e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 090/125] fix: points per state were refused by sequential runs

---
 foxes/algorithms/sequential/sequential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index 6ae92dd..3adffcf 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -225,8 +225,11 @@ class Sequential(Iterative):
                 return fres
 
             else:
+                points = self.points
+                if len(points.shape) == 3 and points.shape[0] == len(self._inds):
+                    points = points[self._counter, None]
                 pres = super().calc_points(
-                    fres, points=self.points, finalize=False, ambient=self.ambient
+                    fres, points=points, finalize=False, ambient=self.ambient
                 )
 
                 if self._point_results is None:
-- 
2.43.0


From 8782fae03b599f3ef1595ce0040c078a15e125d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:15 +0000
Subject: [PATCH 091/125] fix: scan and WRG states could not be stepped through
 sequentially

---
 foxes/input/states/scan.py       | 1 +
 foxes/input/states/wrg_states.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/foxes/input/states/scan.py b/foxes/input/states/scan.py
index 937f290..0f50e23 100644
--- a/foxes/input/states/scan.py
+++ b/foxes/input/states/scan.py
@@ -35,6 +35,7 @@ class ScanStates(States):
         """
         super().__init__(**kwargs)
         self.scans = {v: np.asarray(d) for v, d in scans.items()}
+        self._N = None
 
     def load_data(self, algo, verbosity=0):
         """
diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index 08d4610..c8385c1 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -67,6 +67,7 @@ class WRGStates(States):
         self.fixed_vars = fixed_vars
         self.bounds_extra_space = bounds_extra_space
         self.interpn_pars = interpn_pars
+        self._N = None
 
     def load_data(self, algo, verbosity=0):
         """
-- 
2.43.0


From c964944902ed6ca912e0249016bceadd09b8bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:34 +0000
Subject: [PATCH 092/125] fix: convergence criteria added to one list appeared
 in others

---
 foxes/algorithms/iterative/models/convergence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/iterative/models/convergence.py b/foxes/algorithms/iterative/models/convergence.py
index 927b5d0..87579e6 100644
--- a/foxes/algorithms/iterative/models/convergence.py
+++ b/foxes/algorithms/iterative/models/convergence.py
@@ -83,7 +83,7 @@ class ConvCritList(ConvCrit):
 
     """
 
-    def __init__(self, crits=[], name=None):
+    def __init__(self, crits=None, name=None):
         """
         Constructor.
 
@@ -96,7 +96,7 @@ class ConvCritList(ConvCrit):
 
         """
         super().__init__(name)
-        self.crits = crits
+        self.crits = [] if crits is None else crits
 
     def add_crit(self, crit):
         """
-- 
2.43.0


From 7d63d1d72a9385191b68cf2675fe1faa70234b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 093/125] fix: looking for previous chunks failed if nothing
 was stored yet

---
 foxes/core/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/core/algorithm.py b/foxes/core/algorithm.py
index f9011f4..e4a6645 100644
--- a/foxes/core/algorithm.py
+++ b/foxes/core/algorithm.py
@@ -486,7 +486,7 @@ class Algorithm(Model):
                     for d in self.chunk_store.values()
                 ],
                 dtype=int,
-            )
+            ).reshape(-1, 6)
 
             if prev_t > 0:
                 while prev_t > 0:
-- 
2.43.0


From af9928c60e8c648d681ba4e3780d720b7b851141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 094/125] fix: data cut in target direction lost the position
 of the states

---
 foxes/core/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/core/data.py b/foxes/core/data.py
index 3ff69d3..029bbd5 100644
--- a/foxes/core/data.py
+++ b/foxes/core/data.py
@@ -238,8 +238,10 @@ class Data(Dict):
                 raise ValueError(
                     f"Cannot determine states_i0 for states slices {a}, leading to selection {list(sts)}"
                 )
-        else:
+        elif FC.STATE in variables:
             states_i0 = None
+        else:
+            states_i0 = self.__states_i0
         return type(self)(
             data, dims, loop_dims=self.loop_dims, name=name, states_i0=states_i0
         )
-- 
2.43.0


From 67ea0e927d37f21696e417e77f6dc4474ba80bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 095/125] fix: cutting data emptied entries that hold one value
 for all positions

---
 foxes/core/data.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/foxes/core/data.py b/foxes/core/data.py
index 029bbd5..52d1169 100644
--- a/foxes/core/data.py
+++ b/foxes/core/data.py
@@ -218,7 +218,15 @@ class Data(Dict):
             d = self.dims[v]
             if d is not None:
                 hs = tuple(
-                    [s[variables.index(w)] if w in variables else np.s_[:] for w in d]
+                    [
+                        (
+                            s[variables.index(w)]
+                            if w in variables
+                            and (self[v].shape[wi] > 1 or self.sizes.get(w, 1) == 1)
+                            else np.s_[:]
+                        )
+                        for wi, w in enumerate(d)
+                    ]
                 )
                 data[v] = self[v][hs]
                 dims[v] = (
-- 
2.43.0


From aee04ef70aca66f9b6fdb5c37854298ffbcaba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:48 +0000
Subject: [PATCH 096/125] fix: chunk data accepted entries with more axes than
 dimensions

---
 foxes/core/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foxes/core/data.py b/foxes/core/data.py
index 52d1169..5c43001 100644
--- a/foxes/core/data.py
+++ b/foxes/core/data.py
@@ -156,6 +156,10 @@ class Data(Dict):
                 for li, l in enumerate(self.loop_dims):
                     if data.shape[li] == 1 and (len(dims) < li + 1 or dims[li] != l):
                         self[name] = np.squeeze(data, axis=li)
+                if len(dims) != len(self[name].shape):
+                    raise ValueError(
+                        f"Inconsistent dimensions for data entry '{name}': Expecting {dims}, found shape {self[name].shape}"
+                    )
             for ci, c in enumerate(dims):
                 if c not in self.sizes or self.sizes[c] == 1:
                     self.sizes[c] = self[name].shape[ci]
-- 
2.43.0


From 6c6f08fc8297028cf093b35f48c54cfe67b5d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:12 +0000
Subject: [PATCH 097/125] fix: states tables required columns for variables
 computed by profiles

---
 foxes/input/states/states_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 53698ae..bba44ac 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -247,14 +247,17 @@ class StatesTable(States):
             )
 
         tcols = []
+        tvars = []
         for v in self._tvars:
             c = self.var2col.get(v, v)
             if c in data.columns:
                 tcols.append(c)
+                tvars.append(v)
             elif v not in self._profiles.keys():
                 raise KeyError(
                     f"States '{self.name}': Missing variable '{c}' in states table columns, profiles or fixed vars"
                 )
+        self._tvars = tvars
         data = data[tcols]
 
         idata = super().load_data(algo, verbosity)
-- 
2.43.0


From 4452aa9db2a0c50f5a6d8f9597fdcbcac4378768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:12 +0000
Subject: [PATCH 098/125] fix: stability dependent log profile failed for a
 single friction velocity

---
 foxes/models/vertical_profiles/abl_log_ws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/vertical_profiles/abl_log_ws.py b/foxes/models/vertical_profiles/abl_log_ws.py
index a18a659..6b61817 100644
--- a/foxes/models/vertical_profiles/abl_log_ws.py
+++ b/foxes/models/vertical_profiles/abl_log_ws.py
@@ -81,7 +81,8 @@ class ABLLogWsProfile(VerticalProfile):
         mol[:] = data[FV.MOL]
 
         if self.ustar_input:
-            ustar = data[FV.USTAR]
+            ustar = np.zeros_like(heights)
+            ustar[:] = data[FV.USTAR]
         else:
             ws = np.zeros_like(heights)
             ws[:] = data[FV.WS]
-- 
2.43.0


From a8f95bd4c92cd6cdcde846103d813c659dc57ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:12 +0000
Subject: [PATCH 099/125] fix: multi height inflow failed for values given as
 file attributes

---
 foxes/input/states/multi_height.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index b5d204a..420573f 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -657,7 +657,7 @@ class MultiHeightNCStates(MultiHeightStates):
                 continue
             c = self.var2col.get(v, v)
             if c in data.attrs:
-                self._solo[v] = np.full(self._N, data.attrs)
+                self._solo[v] = np.full(self._N, data.attrs[c])
             elif c in data.data_vars:
                 if data[c].dims == (self.state_coord,):
                     self._solo[v] = data.data_vars[c].to_numpy()
-- 
2.43.0


From 586fd9b15ddd04eaaa165b3d9dd4c9227bfba495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 100/125] fix: field data failed for fixed values of wind speed
 or wind direction

---
 foxes/input/states/field_data_nc.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 9ee678a..0d07fa3 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -256,7 +256,7 @@ class FieldDataNC(States):
                 )
 
         data = np.zeros(
-            (n_sts, n_h, n_y, n_x, len(self.var2ncvar)), dtype=config.dtype_double
+            (n_sts, n_h, n_y, n_x, self._n_dvars), dtype=config.dtype_double
         )
         for v in vars_shyx:
             ncv = self.var2ncvar[v]
@@ -278,12 +278,9 @@ class FieldDataNC(States):
         for v in vars_s:
             ncv = self.var2ncvar[v]
             data[..., self._dkys[v]] = ds[ncv].to_numpy()[:, None, None, None]
-        if FV.WD in self.fixed_vars:
-            data[..., self._dkys[FV.WD]] = np.full(
-                (n_sts, n_h, n_y, n_x),
-                self.fixed_vars[FV.WD],
-                dtype=config.dtype_double,
-            )
+        for v in [FV.WD, FV.WS]:
+            if v in self.fixed_vars and v in self._dkys:
+                data[..., self._dkys[v]] = self.fixed_vars[v]
 
         weights = None
         if self.weight_ncvar is not None:
@@ -462,9 +459,8 @@ class FieldDataNC(States):
 
         # ensure WD and WS get the first two slots of data:
         self._dkys = {}
-        if FV.WS in self.ovars:
+        if FV.WD in self.ovars and FV.WS in self.ovars:
             self._dkys[FV.WD] = 0
-        if FV.WS in self.var2ncvar:
             self._dkys[FV.WS] = 1
         for v in self.var2ncvar:
             if v not in self._dkys:
-- 
2.43.0


From f2fd2ff5e9bb857255e65e96709776561092905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 101/125] fix: field data given in memory did not know the
 number of states

---
 foxes/input/states/field_data_nc.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 0d07fa3..4350c6f 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -457,6 +457,21 @@ class FieldDataNC(States):
                     self.__inds, format=self.time_format
                 ).to_numpy()
 
+        # data set given in memory:
+        elif self._N is None:
+            ds = self.data_source
+            if len(self.isel):
+                ds = ds.isel(**self.isel)
+            if len(self.sel):
+                ds = ds.sel(**self.sel)
+            self.__data_source = ds
+            self.__inds = ds[self.states_coord].to_numpy()
+            self._N = len(self.__inds)
+            if self.time_format is not None:
+                self.__inds = pd.to_datetime(
+                    self.__inds, format=self.time_format
+                ).to_numpy()
+
         # ensure WD and WS get the first two slots of data:
         self._dkys = {}
         if FV.WD in self.ovars and FV.WS in self.ovars:
-- 
2.43.0


From cda2972e7b40cd9c6d4273e23d1fc6b5383d2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 102/125] fix: field data added bounds to the selection
 dictionary of the caller

---
 foxes/input/states/field_data_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 4350c6f..5396602 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -171,7 +171,7 @@ class FieldDataNC(States):
         self.weight_ncvar = weight_ncvar
         self.load_mode = load_mode
         self.time_format = time_format
-        self.sel = sel if sel is not None else {}
+        self.sel = dict(sel) if sel is not None else {}
         self.isel = isel if isel is not None else {}
         self.interpn_pars = interpn_pars
         self.interp_nans = interp_nans
-- 
2.43.0


From 358a9571d37140cb29c36d306fead0e6535b7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 103/125] fix: wind resource grid was cut too small or not at
 all around the farm

---
 foxes/input/states/wrg_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index c8385c1..8dc4aa0 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -121,8 +121,10 @@ class WRGStates(States):
             )
             if verbosity > 0:
                 print(f"States '{self.name}': Farm bounds {xy_min} - {xy_max}")
-            ij_min = np.asarray((xy_min - p0) / res, dtype=config.dtype_int)
-            ij_max = np.asarray((xy_max - p0) / res, dtype=config.dtype_int) + 1
+            ij_min = np.floor((xy_min - p0) / res).astype(config.dtype_int)
+            ij_max = np.ceil((xy_max - p0) / res).astype(config.dtype_int) + 1
+            ij_min = np.maximum(ij_min, 0)
+            ij_max = np.maximum(ij_max, 0)
             sx = slice(ij_min[0], ij_max[0])
             sy = slice(ij_min[1], ij_max[1])
         else:
-- 
2.43.0


From 34afadcd7a9bf12902f6b7c331f21eedb0d13893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 104/125] fix: tab files with a single wind speed bin could not
 be read

---
 foxes/utils/tab_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/tab_files.py b/foxes/utils/tab_files.py
index 130a81b..368ee17 100644
--- a/foxes/utils/tab_files.py
+++ b/foxes/utils/tab_files.py
@@ -31,7 +31,7 @@ def read_tab_file(fname, normalize=True):
         header.append(f.readline().replace("\t", " ").strip())
         sfreqs = f.readline().replace("\t", " ").strip()
         s = f.read().replace("\t", " ").strip()
-    data = np.genfromtxt(StringIO(s))
+    data = np.atleast_2d(np.genfromtxt(StringIO(s)))
     sfreqs = np.fromstring(sfreqs, sep=" ")
 
     descr = header[0]
-- 
2.43.0


From e62746806c9e769c37f353f7be1d0184ac0c076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:37 +0000
Subject: [PATCH 105/125] fix: field data loaded on the fly ignored selections
 of states

---
 foxes/input/states/field_data_nc.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 5396602..5962c61 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -1,7 +1,6 @@
 import numpy as np
 import pandas as pd
 import xarray as xr
-from copy import copy
 from scipy.interpolate import interpn
 
 from foxes.core import States, get_engine
@@ -28,15 +27,16 @@ def _read_nc_file(
             raise KeyError(
                 f"Missing coordinate '{c}' in file {fpath}, got: {list(data.coords.keys())}"
             )
+    if not minimal:
+        data = data[vars]
+        data.attrs = {}
+    if isel is not None and len(isel):
+        data = data.isel(**isel)
+    if sel is not None and len(sel):
+        data = data.sel(**sel)
     if minimal:
         return data[coords[0]].to_numpy()
     else:
-        data = data[vars]
-        data.attrs = {}
-        if isel is not None and len(isel):
-            data = data.isel(**isel)
-        if sel is not None and len(sel):
-            data = data.sel(**sel)
         return data
 
 
@@ -699,19 +699,16 @@ class FieldDataNC(States):
                 j1 = j0 + n
                 found = np.where((pos >= j0) & (pos < j1))[0]
                 if len(found):
-                    isel = copy(self.isel) if self.isel is not None else {}
-                    isel[self.states_coord] = pos[found] - j0
-
                     data.append(
                         _read_nc_file(
                             fpath,
                             coords=coords,
                             vars=vars,
                             nc_engine=config.nc_engine,
-                            isel=isel,
+                            isel=self.isel,
                             sel=self.sel,
                             minimal=False,
-                        )
+                        ).isel({self.states_coord: pos[found] - j0})
                     )
                     order.append(found)
                 j0 = j1
-- 
2.43.0


From 355b5720d6a4b9373cd53986cc8f413e176d0dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 106/125] fix: weights of wind resource grids were percentages

---
 foxes/input/states/wrg_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index 8dc4aa0..995aa1c 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -154,7 +154,7 @@ class WRGStates(States):
         del wrg
         A = np.stack(A, axis=0).T
         k = np.stack(k, axis=0).T
-        f = np.stack(f, axis=0).T
+        f = np.stack(f, axis=0).T / 100
         self._data = np.stack([A, k, f], axis=-1)  # (x, y, wd, AKfs)
 
         # store ws and wd:
-- 
2.43.0


From 0c3f09888a83606bc3f5c55d0f19c131623674b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:29 +0000
Subject: [PATCH 107/125] fix: dynamic wakes end at their maximal length in
 every chunk

---
 foxes/models/wake_frames/dynamic_wakes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_frames/dynamic_wakes.py b/foxes/models/wake_frames/dynamic_wakes.py
index 6da1804..a541a3a 100644
--- a/foxes/models/wake_frames/dynamic_wakes.py
+++ b/foxes/models/wake_frames/dynamic_wakes.py
@@ -206,12 +206,15 @@ class DynamicWakes(WakeFrame):
 
                 if age < self.max_age - 2:
                     s = ~np.isnan(data[:, age + 1, 3])
-                    if np.min(data[s, age + 1, 3]) >= self.max_length_km * 1e3:
+                    if np.min(data[s, age + 1, 3]) > self.max_length_km * 1e3:
                         break
 
                 del res, uv, s, hdt, dxy
             del pts, tdt
 
+            # wakes end once they exceed the maximal length:
+            data[:, 1:][data[:, :-1, 3] > self.max_length_km * 1e3] = np.nan
+
             # store this chunk's results:
             algo.add_to_chunk_store(key, data, mdata, copy=False)
             algo.block_convergence(mdata=mdata)
@@ -300,7 +303,11 @@ class DynamicWakes(WakeFrame):
                             ] + np.linalg.norm(dxy, axis=-1)
                             del dxy
 
-                            hsel = (h_i0 + sts + ags < i1) & (ags < self.max_age - 1)
+                            hsel = (
+                                (h_i0 + sts + ags < i1)
+                                & (ags < self.max_age - 1)
+                                & (hdata[sts, ags, 3] <= self.max_length_km * 1e3)
+                            )
                             if np.any(hsel):
                                 sts = sts[hsel]
                                 ags = ags[hsel]
-- 
2.43.0


From 978d55cdd5745a7c8dfd0e11a7456898b893e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:06 +0000
Subject: [PATCH 108/125] fix: mirrored wakes with timelines were lost

---
 foxes/models/ground_models/wake_mirror.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index 7db1e33..4793ee2 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -77,8 +77,10 @@ class WakeMirror(GroundModel):
         # contribution from main wake:
         pwake.contribute(algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel)
 
-        # contribution from mirrors:
+        # contribution from mirrors, hub heights remain:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
+        txyh = fdata[FV.TXYH]
+        fdata[FV.TXYH] = txyh.copy()
         for h in self.heights:
 
             fdata[FV.TXYH][:, downwind_index, 2] = hh + 2 * (h - hh)
@@ -87,8 +89,8 @@ class WakeMirror(GroundModel):
                 algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel
             )
 
-        # reset heights:
-        fdata[FV.TXYH][:, downwind_index, 2] = hh
+        # reset:
+        fdata[FV.TXYH] = txyh
 
     def contribute_to_point_wakes(
         self,
@@ -132,8 +134,10 @@ class WakeMirror(GroundModel):
         wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
         wmodel.contribute(algo, mdata, fdata, tdata, downwind_index, wcoos, wake_deltas)
 
-        # contribution from mirrors:
+        # contribution from mirrors, hub heights remain:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
+        txyh = fdata[FV.TXYH]
+        fdata[FV.TXYH] = txyh.copy()
         for h in self.heights:
 
             fdata[FV.TXYH][:, downwind_index, 2] = hh + 2 * (h - hh)
@@ -145,8 +149,8 @@ class WakeMirror(GroundModel):
                 algo, mdata, fdata, tdata, downwind_index, wcoos, wake_deltas
             )
 
-        # reset heights:
-        fdata[FV.TXYH][:, downwind_index, 2] = hh
+        # reset:
+        fdata[FV.TXYH] = txyh
 
 
 class GroundMirror(WakeMirror):
-- 
2.43.0


From 220fcce5a7eff2a9681561e5f3b100beb324c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:06 +0000
Subject: [PATCH 109/125] fix: one point flow used the last state for air from
 before the first state

---
 foxes/input/states/one_point_flow.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 012c3a8..67337cf 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -340,6 +340,14 @@ class OnePointFlowStates(States):
 
                 del trs, sel0, hdxy
 
+        # downwind points not yet reached by measured air, use first state:
+        sel = np.isnan(coeffs)
+        if np.any(sel):
+            nx = dxy[i0 + np.arange(n_states)]
+            trp = points[:, :, :2] - ref_xy[:, :, :2]
+            sel &= np.einsum("spd,sd->sp", trp, nx) > 0
+            trace_si[sel] = -1
+
         return trace_si, coeffs
 
     def calculate(self, algo, mdata, fdata, tdata):
@@ -408,7 +416,7 @@ class OnePointFlowStates(States):
             if np.any(sel):
                 s = sts[sel]
                 c = -cfs[sel]
-                out[sel] = c * data[s] + (1 - c) * data[s - 1]
+                out[sel] = c * data[s] + (1 - c) * data[np.maximum(s - 1, 0)]
 
             sel = (~sel_low) & (~sel_hi) & (cfs > 0)
             if np.any(sel):
-- 
2.43.0


From 4b449aaa21e6fd5d3a22eb02aa978e4618d07e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 110/125] fix: running a parameter dictionary altered it

---
 foxes/input/yaml/dict.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 70f9379..89f3040 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -11,6 +11,19 @@ from foxes.config import config
 import foxes.constants as FC
 
 
+def _copy_input(data):
+    """Helper function that copies nested input dicts and lists, but no objects"""
+    if isinstance(data, dict):
+        out = Dict(name=data.name) if isinstance(data, Dict) else {}
+        for k, d in data.items():
+            out[k] = _copy_input(d)
+        return out
+    elif isinstance(data, list):
+        return [_copy_input(d) for d in data]
+    else:
+        return data
+
+
 def read_dict(
     idict,
     farm=None,
@@ -74,6 +87,9 @@ def read_dict(
         if verbosity is None or verbosity >= level:
             print(*args, **kwargs)
 
+    # protect the user input:
+    idict = _copy_input(idict)
+
     # set working directory:
     l = 0
     for c, d in zip(
@@ -476,6 +492,9 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
         if verbosity is None or verbosity >= level:
             print(*args, **kwargs)
 
+    # protect the user input:
+    idict = _copy_input(idict)
+
     # read components:
     algo, engine = read_dict(idict, *args, verbosity=verbosity, **kwargs)
 
-- 
2.43.0


From b39b675034b3cce18cba5068a50e643b8fd7d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 111/125] fix: engines of parameter dictionaries were not
 released after errors

---
 foxes/input/yaml/dict.py | 85 ++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 89f3040..fcb7f83 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -175,17 +175,22 @@ def read_dict(
         _print(f"Initializing engine: {engine}")
 
     # create algorithm:
-    if algo is None:
-        adict = idict.get_item("algorithm")
-        if iterative is not None and iterative:
-            adict["algo_type"] = "Iterative"
-        _print("Creating algorithm :", adict["algo_type"])
-        adict.update(dict(farm=farm, states=states, mbook=mbook))
-        if verbosity is not None:
-            adict["verbosity"] = verbosity - 1
-        if algo_pars is not None:
-            adict.update({v: d for v, d in algo_pars.items() if d is not None})
-        algo = Algorithm.new(**adict)
+    try:
+        if algo is None:
+            adict = idict.get_item("algorithm")
+            if iterative is not None and iterative:
+                adict["algo_type"] = "Iterative"
+            _print("Creating algorithm :", adict["algo_type"])
+            adict.update(dict(farm=farm, states=states, mbook=mbook))
+            if verbosity is not None:
+                adict["verbosity"] = verbosity - 1
+            if algo_pars is not None:
+                adict.update({v: d for v, d in algo_pars.items() if d is not None})
+            algo = Algorithm.new(**adict)
+    except Exception:
+        if engine is not None:
+            engine.finalize()
+        raise
 
     _print("------------------------------------------------------------------------\n")
 
@@ -498,36 +503,40 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     # read components:
     algo, engine = read_dict(idict, *args, verbosity=verbosity, **kwargs)
 
-    # run farm calculation:
-    rdict = idict.get_item("calc_farm", Dict(name=idict.name + ".calc_farm"))
-    if rdict.pop_item("run", True):
-        _print("Running calc_farm")
-        farm_results = algo.calc_farm(**rdict)
-    else:
-        farm_results = None
-    out = (farm_results,)
-
-    # run points calculation:
-    point_results = None
-    if "calc_points" in idict:
-        rdict = idict.get_item("calc_points")
-        if rdict.pop_item("run"):
-            _print("Running calc_points")
-            points = rdict.pop_item("points")
-            if isinstance(points, str):
-                _print("Reading file", points)
-                points = pd.read_csv(points).to_numpy()
-            point_results = algo.calc_points(farm_results, points=points, **rdict)
+    try:
+        # run farm calculation:
+        rdict = idict.get_item("calc_farm", Dict(name=idict.name + ".calc_farm"))
+        if rdict.pop_item("run", True):
+            _print("Running calc_farm")
+            farm_results = algo.calc_farm(**rdict)
         else:
-            point_results = None
-        out += (point_results,)
+            farm_results = None
+        out = (farm_results,)
+
+        # run points calculation:
+        point_results = None
+        if "calc_points" in idict:
+            rdict = idict.get_item("calc_points")
+            if rdict.pop_item("run"):
+                _print("Running calc_points")
+                points = rdict.pop_item("points")
+                if isinstance(points, str):
+                    _print("Reading file", points)
+                    points = pd.read_csv(points).to_numpy()
+                point_results = algo.calc_points(farm_results, points=points, **rdict)
+            else:
+                point_results = None
+            out += (point_results,)
 
-    # run outputs:
-    out += (run_outputs(idict, algo, farm_results, point_results, verbosity=verbosity),)
+        # run outputs:
+        out += (
+            run_outputs(idict, algo, farm_results, point_results, verbosity=verbosity),
+        )
 
     # shutdown engine, if created above:
-    if engine is not None:
-        _print(f"Finalizing engine: {engine}")
-        engine.finalize()
+    finally:
+        if engine is not None:
+            _print(f"Finalizing engine: {engine}")
+            engine.finalize()
 
     return out
-- 
2.43.0


From 3c74febf9a67b7055ad31a7fe1a6bbd802b281f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 112/125] fix: outputs of parameter dictionaries came with the
 result variables

---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index fcb7f83..0c47d83 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -459,7 +459,7 @@ def run_outputs(
         if len(odicts):
             _print()
 
-    return out if not ret_rlabels else out, rlabels
+    return (out, rlabels) if ret_rlabels else out
 
 
 def run_dict(idict, *args, verbosity=None, **kwargs):
-- 
2.43.0


From 65ca50346fdfc5673f4ffdbf02ee43aa2db59d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 113/125] fix: elements of tuples and lists behind result
 variables

---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 0c47d83..07572e0 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -262,7 +262,7 @@ def _get_object(rlabels, d):
     i0 = d.find("[")
     if i0 > 0:
         inds = tuple([int(x) for x in d[i0 + 1 :].split(",")])
-        return rlabels[d[:i0]][inds]
+        return rlabels[d[:i0]][inds if len(inds) > 1 else inds[0]]
     else:
         return rlabels[d]
 
-- 
2.43.0


From f62db96c02127422fae7b245793466a435545422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 114/125] fix: result variables and empty texts as arguments of
 output functions

---
 foxes/input/yaml/dict.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 07572e0..95f67c9 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -322,12 +322,16 @@ def run_obj_function(
         fdict["farm"] = algo.farm
 
     # replace result labels by objects:
+    def _resolve(d):
+        if isinstance(d, str) and d.startswith("$"):
+            return _get_object(rlabels, d)
+        return d
+
     for k, d in fdict.items():
-        if isinstance(d, str) and d[0] == "$":
-            fdict[k] = _get_object(rlabels, d)
+        fdict[k] = _resolve(d)
 
     # run function:
-    args = fdict.pop_item("args", tuple())
+    args = [_resolve(d) for d in fdict.pop_item("args", tuple())]
     results = f(*args, **fdict)
 
     # pyplot shortcuts:
-- 
2.43.0


From 86b423e0d991d79d59679d02d759dc9b5d8b2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 115/125] fix: verbosity of engines of parameter dictionaries

---
 foxes/input/yaml/dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 95f67c9..a4b3042 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -168,9 +168,10 @@ def read_dict(
         _print(f"Initializing engine: {engine}")
         engine.initialize()
     elif "engine" in idict:
+        edict = idict.get_item("engine")
         if verbosity is not None:
-            idict["verbosity"] = verbosity - 1
-        engine = Engine.new(**idict["engine"])
+            edict["verbosity"] = verbosity - 1
+        engine = Engine.new(**edict)
         engine.initialize()
         _print(f"Initializing engine: {engine}")
 
-- 
2.43.0


From f1b2ee9e397f9c50d78310de879b3df7f98022ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:43 +0000
Subject: [PATCH 116/125] fix: message about wrong result variables

---
 foxes/input/yaml/dict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index a4b3042..d1ba8bb 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -349,10 +349,10 @@ def run_obj_function(
             if k not in ["", "none", "None", "_", "__"]:
                 assert (
                     k[0] == "$"
-                ), f"Output {i} of type '{ocls}', function '{fname}': result labels must start with '$', got '{k}'"
+                ), f"Output of type '{ocls}', function '{fname}': result labels must start with '$', got '{k}'"
                 assert (
                     "[" not in k and "]" not in k and "," not in k
-                ), f"Output {i} of type '{ocls}', function '{fname}': result labels cannot contain '[' or ']' or comma, got '{k}'"
+                ), f"Output of type '{ocls}', function '{fname}': result labels cannot contain '[' or ']' or comma, got '{k}'"
                 _print(f"    result label {k}: {type(r).__name__}")
                 rlabels[k] = r
 
-- 
2.43.0


From bcd8f942e3b5e92072caf4dbeb42ade6558e4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:26 +0000
Subject: [PATCH 117/125] fix: hub heights and rotor diameters that depend on
 the state, for more than one chunk of states

---
 foxes/algorithms/downwind/models/init_farm_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 04d1b47..3f2eae8 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -87,21 +87,25 @@ class InitFarmData(FarmDataModel):
         fdata[FV.D] = np.zeros((n_states, n_turbines), dtype=config.dtype_double)
         for ti, t in enumerate(algo.farm.turbines):
 
+            i0 = fdata.states_i0(counter=True)
+            s = np.s_[i0 : i0 + fdata.n_states]
             if len(t.xy.shape) == 1:
                 fdata[FV.TXYH][:, ti, :2] = t.xy[None, :]
             else:
-                i0 = fdata.states_i0(counter=True)
-                s = np.s_[i0 : i0 + fdata.n_states]
                 fdata[FV.TXYH][:, ti, :2] = t.xy[s]
 
             H = t.H
             if H is None:
                 H = algo.farm_controller.turbine_types[ti].H
+            elif np.ndim(H) > 0:
+                H = H[s]
             fdata[FV.TXYH][:, ti, 2] = H
 
             D = t.D
             if D is None:
                 D = algo.farm_controller.turbine_types[ti].D
+            elif np.ndim(D) > 0:
+                D = D[s]
             fdata[FV.D][:, ti] = D
 
         # calc WD and YAW at rotor centres:
-- 
2.43.0


From c5fb9b2c2de8ab439a15303c8ffc32ddee11a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 118/125] fix: setting hub heights or rotor diameters of some
 turbines left NaN at the others

---
 foxes/models/turbine_models/set_farm_vars.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index d3e0f5c..00277c7 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -166,12 +166,13 @@ class SetFarmVars(TurbineModel):
             if v in [FV.D, FV.H]:
                 for ti in range(algo.n_turbines):
                     t = algo.farm.turbines[ti]
+                    tt = algo.farm_controller.turbine_types[ti]
                     x = np.zeros(algo.n_states, dtype=config.dtype_double)
                     if v == FV.D:
-                        x[:] = t.D
+                        x[:] = tt.D if t.D is None else t.D
                         t.D = x
                     else:
-                        x[:] = t.H
+                        x[:] = tt.H if t.H is None else t.H
                         t.H = x
                     x[:] = np.where(np.isnan(data[:, ti]), x, data[:, ti])
 
-- 
2.43.0


From 3e9c527abb3f4517c8724c9a92d2fb48302d4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:58 +0000
Subject: [PATCH 119/125] fix: point results of several wake models took the
 waked values as ambient ones

---
 foxes/algorithms/downwind/models/point_wakes_calc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/point_wakes_calc.py b/foxes/algorithms/downwind/models/point_wakes_calc.py
index c8ff6d0..8c2b718 100644
--- a/foxes/algorithms/downwind/models/point_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/point_wakes_calc.py
@@ -139,7 +139,10 @@ class PointWakesCalculation(PointDataModel):
                     if v not in res and v in tdata:
                         res[v] = tdata[v].copy()
 
-                gmodel.finalize_point_wakes(algo, mdata, fdata, res, wdeltas, wmodel)
+                amb_res = {v: tdata[v] for v in res.keys()}
+                gmodel.finalize_point_wakes(
+                    algo, mdata, fdata, amb_res, wdeltas, wmodel
+                )
 
                 for v in res.keys():
                     if v in wdeltas:
-- 
2.43.0


From c195be7d0caa1d30a4b05abbd5ef2f9f490b3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:55 +0000
Subject: [PATCH 120/125] fix: number of steps reported during a sequential
 iteration

---
 foxes/algorithms/sequential/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index 3adffcf..8cdc3e2 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -286,7 +286,7 @@ class Sequential(Iterative):
             The total number of iteration steps
 
         """
-        return self.states.size()
+        return len(self._inds) if self.iterating else self.states.size()
 
     @property
     def counter(self):
-- 
2.43.0


From fee1f5cf65ac6a469fb0f6197de94bef1e63bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:36 +0000
Subject: [PATCH 121/125] fix: yawed wakes ignored the lateral position of
 points on the rotor

---
 foxes/models/wake_frames/yawed_wakes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 40d8b6e..ea7ec02 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -273,9 +273,10 @@ class YawedWakes(WakeFrame):
         x = xy[:, :, 0]
         y = xy[:, :, 1]
 
-        # apply deflection:
+        # apply deflection, same for all points of the target:
+        y0 = y.copy()
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
-        xyz[..., 1] = y[:, :, None]
+        xyz[..., 1] += (y - y0)[:, :, None]
 
         return xyz
 
-- 
2.43.0


From 4b59b8bd235e720672d39d25572d2a1c0fb9e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:36 +0000
Subject: [PATCH 122/125] fix: centre rotor delivered negative rotor equivalent
 wind speeds

---
 foxes/models/rotor_models/centre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/rotor_models/centre.py b/foxes/models/rotor_models/centre.py
index dc34055..fe86922 100644
--- a/foxes/models/rotor_models/centre.py
+++ b/foxes/models/rotor_models/centre.py
@@ -183,7 +183,7 @@ class CentreRotor(RotorModel):
 
             for v in self.calc_vars:
                 if v == FV.REWS or v == FV.REWS2 or v == FV.REWS3:
-                    rews = wsp[:, :, 0]
+                    rews = np.maximum(wsp[:, :, 0], 0.0)
                     self._set_res(fdata, v, rews, downwind_index)
                     del rews
                     vdone.append(v)
-- 
2.43.0


From 9be3299fc05507c853531edc91a2169276a61227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:57 +0000
Subject: [PATCH 123/125] fix: Rathmann induction was undefined or too small
 close to the rotor

---
 foxes/models/wake_models/induction/rathmann.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/foxes/models/wake_models/induction/rathmann.py b/foxes/models/wake_models/induction/rathmann.py
index 5439113..3ac7ebc 100644
--- a/foxes/models/wake_models/induction/rathmann.py
+++ b/foxes/models/wake_models/induction/rathmann.py
@@ -186,12 +186,12 @@ class Rathmann(TurbineInductionModel):
 
         def G(x_R, r_R):
             """radial shape function eqn 20"""
-            sin_2_alpha = (2 * x_R) / np.sqrt(
-                (x_R**2 + (r_R - 1) ** 2) * (x_R**2 + (r_R + 1) ** 2)
-            )  # eqn 19
-            sin_alpha = np.sqrt(
-                0.5 * (1 - np.sqrt(1 - sin_2_alpha**2))
-            )  # derived from cos(2a)**2 + sin(2a)**2 = 1
+            # sin(2a) from eqn 19 and cos(2a)**2 + sin(2a)**2 = 1, where
+            # 2a exceeds 90 deg closer than R to the hub:
+            cos_2_alpha = (x_R**2 + r_R**2 - 1) / np.maximum(
+                np.sqrt((x_R**2 + (r_R - 1) ** 2) * (x_R**2 + (r_R + 1) ** 2)), 1e-12
+            )
+            sin_alpha = np.sqrt(np.maximum(0.5 * (1 - cos_2_alpha), 0.0))
             sin_beta = 1 / np.sqrt(x_R**2 + r_R**2 + 1)  # eqn 19
             return sin_alpha * sin_beta * (1 + x_R**2)
 
-- 
2.43.0


From 57faea421e514f970e6cc443a058cf5e2b8ac00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:39 +0000
Subject: [PATCH 124/125] fix: sequential runs failed for states with repeated
 labels

---
 foxes/algorithms/sequential/sequential.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index 8cdc3e2..d36be89 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -212,10 +212,10 @@ class Sequential(Iterative):
 
             for v in self._farm_results.data_vars.keys():
                 if FC.STATE in self._farm_results[v].dims:
-                    self._farm_results[v].loc[{FC.STATE: [self.index]}] = fres[v]
-                    self._farm_results_dwnd[v].loc[{FC.STATE: [self.index]}] = (
-                        fres_dnwnd[v]
-                    )
+                    self._farm_results[v][{FC.STATE: [self.counter]}] = fres[v].to_numpy()
+                    self._farm_results_dwnd[v][{FC.STATE: [self.counter]}] = fres_dnwnd[
+                        v
+                    ].to_numpy()
 
             if self.points is None:
                 for p in self.plugins:
@@ -254,7 +254,9 @@ class Sequential(Iterative):
 
                 for v in self._point_results.data_vars.keys():
                     if FC.STATE in self._point_results[v].dims:
-                        self._point_results[v].loc[{FC.STATE: [self.index]}] = pres[v]
+                        self._point_results[v][{FC.STATE: [self.counter]}] = pres[
+                            v
+                        ].to_numpy()
 
                 for p in self.plugins:
                     p.update(self, fres, pres)
-- 
2.43.0


From bed89e361820d8730de6b78bb4a23830138628e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:53 +0000
Subject: [PATCH 125/125] fix: one point flow lost variables listed before the
 wind

---
 foxes/input/states/one_point_flow.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 67337cf..5ed84d6 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -477,7 +477,9 @@ class OnePointFlowStates(States):
                         [ires[:, :, vres.index("U")], ires[:, :, vres.index("V")]],
                         axis=-1,
                     )
-                    results = {FV.WD: uv2wd(uv), FV.WS: np.linalg.norm(uv, axis=-1)}
+                    results.update(
+                        {FV.WD: uv2wd(uv), FV.WS: np.linalg.norm(uv, axis=-1)}
+                    )
                     del uv
 
         # no dependence on height:
@@ -490,7 +492,9 @@ class OnePointFlowStates(States):
                     uv = np.stack(
                         [_interp_time(hi, "U"), _interp_time(hi, "V")], axis=-1
                     )
-                    results = {FV.WD: uv2wd(uv), FV.WS: np.linalg.norm(uv, axis=-1)}
+                    results.update(
+                        {FV.WD: uv2wd(uv), FV.WS: np.linalg.norm(uv, axis=-1)}
+                    )
                     del uv
 
         # set weights:
-- 
2.43.0

