From 3017b0c6ba17b6f1ed6a189a8f0fb0b17e8e8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/42] fix: chunk offsets for interval (slice) lead times

iter_with_chunk_offsets multiplied a None chunk size, so every Beam pipeline
over a lead time interval failed with a TypeError.
---
 weatherbenchX/time_chunks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/time_chunks.py b/weatherbenchX/time_chunks.py
index 871cdc5..ef51dd0 100644
--- a/weatherbenchX/time_chunks.py
+++ b/weatherbenchX/time_chunks.py
@@ -197,6 +197,9 @@ class TimeChunks(Iterable[TimeChunk]):
     """
     for index, (init_chunk, lead_chunk) in enumerate(self):
       init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
-      lead_index = self._lead_time_chunk_size * (index % self._num_lead_chunks)
+      # The lead_time_chunk_size is None for a slice, which is a single chunk.
+      lead_index = (self._lead_time_chunk_size or 0) * (
+          index % self._num_lead_chunks
+      )
       offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
       yield offsets, (init_chunk, lead_chunk)
-- 
2.43.0


From 8ce2deff393539a3db9b9c8982a942f09c60d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 02/42] fix: aggregate boolean statistics as numbers

Sums of boolean statistics and of their weights were logical ors, so the mean
of e.g. a coverage flag was 0, 1 or NaN rather than a frequency.
---
 weatherbenchX/aggregation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index d251b15..b377188 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -329,6 +329,10 @@ class Aggregator:
 
   def aggregate_stat_var(self, stat: xr.DataArray) -> AggregationState | None:
     """Aggregate one statistic DataArray for one variable."""
+    if stat.dtype == bool:
+      # xr.dot of boolean arrays is a logical 'any', not a sum.
+      stat = stat.astype(float)
+
     if self.masked and hasattr(stat, 'mask'):
       mask = stat.mask
       if self.skipna:
-- 
2.43.0


From cf9b0e45de95635aa3f862fc6936904f34838a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 03/42] fix: assign the neighborhood mask by dimension name

The eroded mask was written positionally into the input mask, which fails (or,
on square grids, transposes the mask) unless dims end in latitude, longitude.
---
 weatherbenchX/metrics/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 4a9c595..81f8aec 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -74,8 +74,8 @@ def neighborhood_averaging_for_single_size(
     )
     # This should be new_mask == 1 but there are some rounding errors in
     # convolve2d, so that this fails. Therefore, we use isclose.
-    new_mask = np.isclose(new_mask, True)
-    out.coords['mask'][:] = new_mask.astype(bool)
+    # Assign by name since the dims of the mask need not be in the same order.
+    out.coords['mask'] = new_mask.copy(data=np.isclose(new_mask, True))
   return out
 
 
-- 
2.43.0


From 4af83aadaf20435f8ee0895fd28ee32132f8ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 04/42] fix: keep the targets' mask on statistics of the
 predictions alone

---
 weatherbenchX/metrics/deterministic.py |  3 ++-
 weatherbenchX/metrics/probabilistic.py | 22 +++++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index b9f84f4..5519508 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -229,7 +229,8 @@ class SquaredPredictionAnomaly(base.PerVariableStatisticWithClimatology):
       aligned_climatology: xr.DataArray,
   ) -> xr.DataArray:
     prediction_anom = predictions - aligned_climatology
-    return prediction_anom**2
+    # Make sure potential coordinates from targets (e.g. mask) are preserved.
+    return prediction_anom**2 + xr.zeros_like(targets)
 
 
 class SquaredTargetAnomaly(base.PerVariableStatisticWithClimatology):
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d682f55..a60cf07 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -28,8 +28,15 @@ import xarray.ufuncs as xu
 ENSEMBLE_DIM = 'number'
 
 ### Statistics
-# TODO(srasp): NaN mask seem to get lost in some probabilistic metrics.
-# Investigate and fix this.
+
+
+def _keep_target_coords(
+    statistic: xr.DataArray, targets: xr.DataArray, ensemble_dim: str
+) -> xr.DataArray:
+  """Keeps coordinates of targets (e.g. mask) on a statistic of predictions."""
+  if ensemble_dim in targets.dims:
+    return statistic
+  return statistic + xr.zeros_like(targets)
 
 
 class EnsembleAveragedStatistic(base.Statistic):
@@ -229,7 +236,7 @@ class CRPSSpread(base.PerVariableStatistic):
       # compute and memory but with a smaller constant factor due to being
       # easily parallelizable.
       rank = _rank_da(da, self._ensemble_dim)
-      return (
+      spread = (
           2
           * (
               ((2 * rank - n_ensemble - 1) * da).mean(
@@ -241,11 +248,15 @@ class CRPSSpread(base.PerVariableStatistic):
     else:
       second_ensemble_dim = 'ensemble_dim_2'
       da_2 = da.rename({self._ensemble_dim: second_ensemble_dim})
-      return abs(da - da_2).sum(
+      spread = abs(da - da_2).sum(
           dim=(self._ensemble_dim, second_ensemble_dim),
           skipna=self._skipna_ensemble,
       ) / (n_ensemble * (n_ensemble - int(self._fair)))
 
+    if self._which == 'predictions':
+      spread = _keep_target_coords(spread, targets, self._ensemble_dim)
+    return spread
+
 
 class EnsembleVariance(base.PerVariableStatistic):
   """Computes the mean variance in the ensemble dimension.
@@ -268,9 +279,10 @@ class EnsembleVariance(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return predictions.var(
+    variance = predictions.var(
         dim=self._ensemble_dim, ddof=1, skipna=self._skipna_ensemble
     )
+    return _keep_target_coords(variance, targets, self._ensemble_dim)
 
 
 class UnbiasedEnsembleMeanSquaredError(base.PerVariableStatistic):
-- 
2.43.0


From 6e97059ca45acb2df076f5b6eab97ccc03c675bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 05/42] fix: combine the masks of the two wind components

---
 weatherbenchX/metrics/deterministic.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index 5519508..72839bd 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -214,7 +214,16 @@ class WindVectorSquaredError(base.Statistic):
       predictions_v = predictions[v]
       targets_u = targets[u]
       targets_v = targets[v]
-      se = (predictions_u - targets_u) ** 2 + (predictions_v - targets_v) ** 2
+      se_u = (predictions_u - targets_u) ** 2
+      se_v = (predictions_v - targets_v) ** 2
+      if 'mask' in se_u.coords and 'mask' in se_v.coords:
+        # Conflicting masks would be dropped by xarray's arithmetic. The vector
+        # is only valid where both of its components are.
+        mask = se_u['mask'].astype(bool) & se_v['mask'].astype(bool)
+        se = se_u.drop_vars('mask') + se_v.drop_vars('mask')
+        se = se.assign_coords(mask=mask.drop_vars('mask', errors='ignore'))
+      else:
+        se = se_u + se_v
       out[vector] = se
     return out
 
-- 
2.43.0


From 951dd4bc595254cdac6bcf5ae22d7da6646421d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 06/42] fix: do not score missing values in the ranked
 probability score and ensemble exceedance as perfect

---
 weatherbenchX/metrics/categorical.py   | 2 +-
 weatherbenchX/metrics/probabilistic.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 564a818..de88541 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -337,7 +337,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return ((predictions - targets) ** 2).sum(self._bin_dim)
+    return ((predictions - targets) ** 2).sum(self._bin_dim, skipna=False)
 
 
 # Metrics
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index a60cf07..a28ee38 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -486,7 +486,10 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     ]
 
     # RPS is the sum of squared errors over the bin dimension.
-    return cdf_mse.sum(self._bin_dim, skipna=self._skipna_ensemble)
+    if self._skipna_ensemble:
+      # NaN rather than a perfect score of zero if there is no valid bin.
+      return cdf_mse.sum(self._bin_dim, skipna=True, min_count=1)
+    return cdf_mse.sum(self._bin_dim, skipna=False)
 
 
 ### Metrics
@@ -747,7 +750,7 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
       targets: xr.DataArray,
   ) -> xr.DataArray:
     out = super()._compute_per_variable(predictions, targets)
-    return out.mean(dim=self._ensemble_dim)
+    return out.mean(dim=self._ensemble_dim, skipna=False)
 
 
 class UnbiasedEnsembleMeanRMSE(base.PerVariableMetric):
-- 
2.43.0


From 1726215c45e03d47b201719627f0f01490fc4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 07/42] fix: propagate missing values through rank histogram
 and interval statistics

---
 weatherbenchX/metrics/categorical.py   | 35 +++++++++++++++++---------
 weatherbenchX/metrics/probabilistic.py |  6 +++--
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index de88541..e736939 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -731,19 +731,24 @@ class Confident(base.PerVariableStatisticWithClimatology):
       aligned_climatology: xr.DataArray,
   ) -> xr.DataArray:
     """Computes confidence per variable."""
-    del targets  # Unused.
-
     # Get the spread of the predictions.
     predictions_spread = predictions.quantile(
-        self._spread_high, dim=self._ensemble_dim
-    ) - predictions.quantile(self._spread_low, dim=self._ensemble_dim)
+        self._spread_high, dim=self._ensemble_dim, skipna=False
+    ) - predictions.quantile(
+        self._spread_low, dim=self._ensemble_dim, skipna=False
+    )
 
     # Climatologies are already quantiles.
     climatology_spread = aligned_climatology.sel(
         quantile=self._spread_high
     ) - aligned_climatology.sel(quantile=self._spread_low)
 
-    return predictions_spread < self._confidence_threshold * climatology_spread
+    confident = (
+        predictions_spread < self._confidence_threshold * climatology_spread
+    )
+    # Make sure NaNs, and coordinates of the targets (e.g. mask), are preserved.
+    valid = (predictions_spread + climatology_spread).notnull()
+    return confident.astype(float).where(valid) + xr.zeros_like(targets)
 
 
 class Covered(base.PerVariableStatistic):
@@ -776,12 +781,15 @@ class Covered(base.PerVariableStatistic):
   ) -> xr.DataArray:
     """Computes coverage per variable."""
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
-    return (predictions_low <= targets) & (targets <= predictions_high)
+    covered = (predictions_low <= targets) & (targets <= predictions_high)
+    # Make sure NaNs are preserved.
+    valid = (predictions_low + targets + predictions_high).notnull()
+    return covered.astype(float).where(valid)
 
 
 class JaccardDistant(base.PerVariableStatisticWithClimatology):
@@ -823,12 +831,11 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
       aligned_climatology: xr.DataArray,
   ) -> xr.DataArray:
     """Computes jaccard distance per variable."""
-    del targets  # Unused.
     predictions_low = predictions.quantile(
-        self._interval_low, dim=self._ensemble_dim
+        self._interval_low, dim=self._ensemble_dim, skipna=False
     )
     predictions_high = predictions.quantile(
-        self._interval_high, dim=self._ensemble_dim
+        self._interval_high, dim=self._ensemble_dim, skipna=False
     )
     climatology_low = aligned_climatology.sel(quantile=self._interval_low)
     climatology_high = aligned_climatology.sel(quantile=self._interval_high)
@@ -859,7 +866,11 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     )
 
     jaccard_distance = 1 - jaccard_index
-    return jaccard_distance > self._threshold
+    # Make sure NaNs, and coordinates of the targets (e.g. mask), are preserved.
+    valid = (max_of_lows + min_of_highs).notnull()
+    return (jaccard_distance > self._threshold).astype(float).where(
+        valid
+    ) + xr.zeros_like(targets)
 
 
 class Opportunism(base.PerVariableMetric):
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index a28ee38..182b362 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -1231,5 +1231,7 @@ class RankHistogram(base.PerVariableStatistic):
     categories = xr.DataArray(np.arange(num_bins), dims=['rank'])
     categories.coords['rank'] = categories
 
-    # Transform to floating point for the subsequent aggregation.
-    return (ranks == categories).astype(np.float32)
+    # Transform to floating point for the subsequent aggregation, and make sure
+    # NaNs are preserved.
+    valid = (predictions + targets).notnull().all(self._ensemble_dim)
+    return (ranks == categories).astype(np.float32).where(valid)
-- 
2.43.0


From 3d542a918ec3998c8ba44228b2f196292646af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 08/42] fix: pass skipna_ensemble to all terms of
 CRPSEnsembleDistance

---
 weatherbenchX/metrics/probabilistic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 182b362..f371f7c 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -647,7 +647,10 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
   @property
   def statistics(self) -> Mapping[str, base.Statistic]:
     return {
-        'CRPSSkill': CRPSSkill(ensemble_dim=self._ensemble_dim),
+        'CRPSSkill': CRPSSkill(
+            ensemble_dim=self._ensemble_dim,
+            skipna_ensemble=self._skipna_ensemble,
+        ),
         'CRPSSpread': CRPSSpread(
             ensemble_dim=self._ensemble_dim,
             use_sort=self._use_sort,
@@ -659,6 +662,7 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
             use_sort=self._use_sort,
             fair=self._fair,
             which='targets',
+            skipna_ensemble=self._skipna_ensemble,
         ),
     }
 
-- 
2.43.0


From f557efe2a8be0c2a70424998f656495313b0b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 09/42] fix: unaggregated pipeline for interval (slice) lead
 times

---
 weatherbenchX/beam_pipeline.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 891b439..e00e8ca 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -584,12 +584,11 @@ def _get_template_dataset(
 
   if 'lead_time' in template.dims:
     vars_to_expand = [k for k, v in template.items() if 'lead_time' in v.dims]
-    template = template.isel(lead_time=0, drop=True)
     lead_times = times.lead_times
     if isinstance(lead_times, slice):
-      lead_times = np.arange(
-          lead_times.start, lead_times.stop + lead_times.step, lead_times.step
-      )
+      # Intervals aren't chunked, so the first chunk has all of the lead times.
+      lead_times = template.lead_time.values
+    template = template.isel(lead_time=0, drop=True)
     for k in vars_to_expand:
       template[k] = template[k].expand_dims(lead_time=lead_times)
 
-- 
2.43.0


From 9db576b55b7bc233bf2e9e50702da7abaabde080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 10/42] fix: forward add_values_to_coords through the latency
 wrappers

---
 weatherbenchX/data_loaders/latency_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index a3d96c7..5332825 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -89,6 +89,7 @@ class ConstantLatencyWrapper(base.DataLoader):
         compute=data_loader._compute,
         add_nan_mask=data_loader._add_nan_mask,
         process_chunk_fn=data_loader._process_chunk_fn,
+        add_values_to_coords=data_loader._add_values_to_coords,
     )
 
   def get_available_init_time(self, init_time: np.datetime64) -> np.datetime64:
-- 
2.43.0


From 93d50f2721e1de2b0d86984af6d7b557909eb7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 11/42] fix: use the latency-wrapped loaders that are available
 when others are not

---
 weatherbenchX/data_loaders/latency_wrappers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index 5332825..6e69c1f 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -258,8 +258,14 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
 
   def _get_data_loader(self, init_time):
     lead_time_offsets_and_latencies = []
+    available_data_loaders = []
     for data_loader in self._data_loaders:
-      available_init_time = data_loader.get_available_init_time(init_time)
+      try:
+        available_init_time = data_loader.get_available_init_time(init_time)
+      except ValueError:
+        # This data loader has no init time available yet, others might.
+        continue
+      available_data_loaders.append(data_loader)
       lead_time_offset = init_time - available_init_time
       # Break ties by picking the data loader with largest latency -- note that
       # we make latency negative here because we want the smallest
@@ -267,6 +273,8 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
       lead_time_offsets_and_latencies.append(
           (lead_time_offset, -data_loader.latency)
       )
+    if not available_data_loaders:
+      raise ValueError(f'No init time is available at {init_time}.')
     lead_time_offsets_and_latencies = np.array(
         lead_time_offsets_and_latencies,
         dtype=[
@@ -278,7 +286,7 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
         lead_time_offsets_and_latencies,
         order=('lead_time_offset', 'neg_latency'),
     )
-    most_recent_data_loader = self._data_loaders[idx[0]]
+    most_recent_data_loader = available_data_loaders[idx[0]]
     logging.info(
         'Init time: %s, data loader latency: %s',
         init_time,
-- 
2.43.0


From 9244dbd17da5176aae5f53d02715dccbe596c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 12/42] fix: load the requested lead time interval of sparse
 observations

---
 weatherbenchX/data_loaders/sparse_parquet.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 733b700..b2dea1b 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -206,13 +206,13 @@ class SparseObservationsFromParquet(base.DataLoader):
   ) -> xr.Dataset:
     """Load data for some valid time.
 
-    If lead_time_slice is given, load data for valid_time +/- lead_time_slice.
-    Otherwise, tolerance and file tolerance are applied around valid_time.
+    If lead_time_slice is given, load data for the interval of times from
+    valid_time + start to valid_time + stop of the slice. Otherwise, tolerance and file tolerance are applied around valid_time.
 
     Args:
       valid_time: Base time to load data for.
-      lead_time_slice: (Optional) If given, load data for valid_time +/-
-        lead_time_slice.
+      lead_time_slice: (Optional) If given, load data for the interval of times
+        from valid_time + start to valid_time + stop of the slice.
 
     Returns:
       xarray.Dataset with data for the given valid_time.
@@ -223,7 +223,7 @@ class SparseObservationsFromParquet(base.DataLoader):
         start_time = valid_time
         stop_time = None
       else:
-        start_time = valid_time - lead_time_slice.start
+        start_time = valid_time + lead_time_slice.start
         stop_time = valid_time + lead_time_slice.stop
 
     else:
-- 
2.43.0


From 898f88381713a687c6f384d9ca2314c4b94cad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 13/42] fix: give differently configured statistics different
 unique names

---
 weatherbenchX/metrics/categorical.py   |  5 ++++-
 weatherbenchX/metrics/deterministic.py | 31 +++++++++++++++++++++++++-
 weatherbenchX/metrics/probabilistic.py | 22 +++++++++++++-----
 weatherbenchX/metrics/wrappers.py      |  5 +++--
 4 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index e736939..9e09292 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -330,7 +330,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return 'RankedProbabilityScore'
+    return f'RankedProbabilityScore_{self._bin_dim}'
 
   def _compute_per_variable(
       self,
@@ -722,6 +722,7 @@ class Confident(base.PerVariableStatisticWithClimatology):
         + f'_conf_thres={self._confidence_threshold}'
         + f'_spread_low={self._spread_low}'
         + f'_spread_high={self._spread_high}'
+        + f'_ensemble_dim={self._ensemble_dim}'
     )
 
   def _compute_per_variable_with_aligned_climatology(
@@ -772,6 +773,7 @@ class Covered(base.PerVariableStatistic):
         'Covered'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
+        + f'_ensemble_dim={self._ensemble_dim}'
     )
 
   def _compute_per_variable(
@@ -822,6 +824,7 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
         + f'_threshold={self._threshold}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
+        + f'_ensemble_dim={self._ensemble_dim}'
     )
 
   def _compute_per_variable_with_aligned_climatology(
diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index 72839bd..426631b 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -48,6 +48,12 @@ class RelativeIntensity(base.PerVariableStatistic):
     """
     self._spatial_dims = spatial_dims
 
+  @property
+  def unique_name(self) -> str:
+    if tuple(self._spatial_dims) == ('latitude', 'longitude'):
+      return type(self).__name__
+    return f'{type(self).__name__}_{",".join(self._spatial_dims)}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -135,6 +141,11 @@ class PredictionPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_targets = copy_nans_from_targets
 
+  @property
+  def unique_name(self) -> str:
+    suffix = '_copy_nans_from_targets' if self._copy_nans_from_targets else ''
+    return f'{type(self).__name__}{suffix}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -159,6 +170,15 @@ class TargetPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_predictions = copy_nans_from_predictions
 
+  @property
+  def unique_name(self) -> str:
+    suffix = (
+        '_copy_nans_from_predictions'
+        if self._copy_nans_from_predictions
+        else ''
+    )
+    return f'{type(self).__name__}{suffix}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -200,7 +220,10 @@ class WindVectorSquaredError(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    suffix = '_'.join(self._vector_name)
+    suffix = '_'.join(
+        f'{vector}={u},{v}'
+        for u, v, vector in zip(self._u_name, self._v_name, self._vector_name)
+    )
     return 'WindVectorSquaredError_' + suffix
 
   def compute(
@@ -280,7 +303,9 @@ class ErrorExceedance(base.PerVariableStatistic):
         then it will be converted to an xr.DataArray with dim
         `error_exceedance_thresholds`.
     """
+    self._unique_name_suffix = ''
     if isinstance(thresholds, Sequence):
+      self._unique_name_suffix = '_' + ','.join(str(t) for t in thresholds)
       thresholds = xr.DataArray(
           thresholds,
           dims='error_exceedance_thresholds',
@@ -288,6 +313,10 @@ class ErrorExceedance(base.PerVariableStatistic):
       )
     self._thresholds = thresholds
 
+  @property
+  def unique_name(self) -> str:
+    return f'{type(self).__name__}{self._unique_name_suffix}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index f371f7c..499c1bc 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -55,7 +55,11 @@ class EnsembleAveragedStatistic(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    return self._wrapped_statistic.unique_name + '_each_' + self._ensemble_dim
+    suffix = '_skipna_ensemble' if self._skipna_ensemble else ''
+    return (
+        f'{self._wrapped_statistic.unique_name}_each_{self._ensemble_dim}'
+        f'{suffix}'
+    )
 
   def compute(
       self,
@@ -131,7 +135,8 @@ class CRPSSkill(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return f'CRPSSkill_{self._ensemble_dim}'
+    suffix = '_skipna_ensemble' if self._skipna_ensemble else ''
+    return f'CRPSSkill_{self._ensemble_dim}{suffix}'
 
   def _compute_per_variable(
       self,
@@ -196,7 +201,8 @@ class CRPSSpread(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     fair_str = 'fair' if self._fair else 'unfair'
-    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}'
+    suffix = '_skipna_ensemble' if self._skipna_ensemble else ''
+    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}{suffix}'
 
   def _compute_per_variable(
       self,
@@ -418,6 +424,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     self._skipna_ensemble = skipna_ensemble
     self._fair = fair
     self._bin_dim = bin_dim
+    self._right_inclusive = right_inclusive
     self._unique_name_suffix = unique_name_suffix
 
     binned_prediction_wrapper = wrappers.ContinuousToCDF(
@@ -470,7 +477,8 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         f'RankedProbabilityScore_{self._ensemble_dim}_'
         f'skipna_ensemble_{self._skipna_ensemble}_'
         f'fair_{self._fair}_'
-        f'{self._unique_name_suffix}'
+        + ('' if self._right_inclusive else 'left_inclusive_')
+        + f'{self._unique_name_suffix}'
     )
 
   def _compute_per_variable(
@@ -748,6 +756,10 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
     super().__init__(thresholds=thresholds)
     self._ensemble_dim = ensemble_dim
 
+  @property
+  def unique_name(self) -> str:
+    return f'{super().unique_name}_{self._ensemble_dim}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -1054,7 +1066,7 @@ class RelativeEconomicValue(base.Metric):
     if self._thresholds is None:
       self._thresholds = (np.arange(ensemble_size) + 0.5) / ensemble_size
       if statistic_suffix is None:
-        statistic_suffix = 'all_thresholds_for_ensemble_size'
+        statistic_suffix = f'all_thresholds_for_ensemble_size_{ensemble_size}'
     if not np.all(self._thresholds >= 0.0) or not np.all(
         self._thresholds <= 1.0
     ):
diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index e0b0522..0d18e8f 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -493,7 +493,8 @@ class WeibullEnsembleToProbabilistic(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return 'ensemble_to_probabilistic_by_weibull_plotting_position'
+    suffix = 'ensemble_to_probabilistic_by_weibull_plotting_position'
+    return f'{suffix}_{self._ensemble_dim=}_{self._skipna=}'
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     ensemble_members = da.sizes[self._ensemble_dim]
@@ -888,7 +889,7 @@ class SubselectVariablesForStatistic(base.Statistic):
   def unique_name(self) -> str:
     # Make sure to change unique name in case there is another, non-subsetted
     # statistic with the same name.
-    variables_str = '_'.join(self.variables)
+    variables_str = ','.join(self.variables)
     return f'{self.statistic.unique_name}_{variables_str}'
 
   def compute(
-- 
2.43.0


From d492179b815ed73871cf7ce2ca88b46a1e5151c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 14/42] fix: unfair CRPS spread of a single valid member is
 undefined

---
 weatherbenchX/metrics/probabilistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 499c1bc..7dda663 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -258,6 +258,9 @@ class CRPSSpread(base.PerVariableStatistic):
           dim=(self._ensemble_dim, second_ensemble_dim),
           skipna=self._skipna_ensemble,
       ) / (n_ensemble * (n_ensemble - int(self._fair)))
+      if self._skipna_ensemble:
+        # The spread of fewer than two members is undefined, fair or not.
+        spread = spread.where(n_ensemble > 1)
 
     if self._which == 'predictions':
       spread = _keep_target_coords(spread, targets, self._ensemble_dim)
-- 
2.43.0


From 0c3a8b0946bd4fbfc6a161996393cdaf594cb660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 15/42] fix: keep the mask of ensemble targets on statistics of
 the predictions

---
 weatherbenchX/metrics/probabilistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 7dda663..21865fb 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -35,7 +35,10 @@ def _keep_target_coords(
 ) -> xr.DataArray:
   """Keeps coordinates of targets (e.g. mask) on a statistic of predictions."""
   if ensemble_dim in targets.dims:
-    return statistic
+    # Only coordinates without the ensemble dimension apply to the statistic.
+    targets = targets.drop_vars(
+        [k for k, v in targets.coords.items() if ensemble_dim in v.dims]
+    ).isel({ensemble_dim: 0})
   return statistic + xr.zeros_like(targets)
 
 
-- 
2.43.0


From 63d7e6fedadf553a7c2b4668ae4962516960590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 16/42] fix: neighborhood mask for both denominator terms of
 the FSS

---
 weatherbenchX/metrics/spatial.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 81f8aec..f092814 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -158,6 +158,10 @@ class SquaredPredictionFraction(base.PerVariableStatistic):
     predictions = neighborhood_averaging(
         predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
+    # Averaged, so that the mask is the same as for the other statistics.
+    targets = neighborhood_averaging(
+        targets, self.neighborhood_size_in_pixels, self.wrap_longitude
+    )
     return predictions**2 + xr.zeros_like(targets)
 
 
@@ -181,6 +185,10 @@ class SquaredTargetFraction(base.PerVariableStatistic):
     targets = neighborhood_averaging(
         targets, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
+    # Averaged, so that the mask is the same as for the other statistics.
+    predictions = neighborhood_averaging(
+        predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
+    )
     return targets**2 + xr.zeros_like(predictions)
 
 
-- 
2.43.0


From e055247d86316762f86845aabf83f4a6725469c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 17/42] fix: accept tuples of thresholds

---
 weatherbenchX/metrics/deterministic.py | 4 ++--
 weatherbenchX/metrics/wrappers.py      | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index 426631b..be4bfc7 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -307,9 +307,9 @@ class ErrorExceedance(base.PerVariableStatistic):
     if isinstance(thresholds, Sequence):
       self._unique_name_suffix = '_' + ','.join(str(t) for t in thresholds)
       thresholds = xr.DataArray(
-          thresholds,
+          list(thresholds),
           dims='error_exceedance_thresholds',
-          coords={'error_exceedance_thresholds': thresholds},
+          coords={'error_exceedance_thresholds': list(thresholds)},
       )
     self._thresholds = thresholds
 
diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 0d18e8f..99fc75d 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -80,6 +80,9 @@ def binarize_thresholds(
     )
     threshold = thresholds
   else:
+    # Need to convert to list because xarray does not interpret tuples
+    # correctly.
+    thresholds = list(thresholds)
     threshold = xr.DataArray(
         thresholds, dims=[threshold_dim], coords={threshold_dim: thresholds}
     )
-- 
2.43.0


From a9a9fba75f10514ccb180387c6f3c1f4d55c87bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 18/42] fix: boolean fields and tuples of sizes in neighborhood
 averaging

---
 weatherbenchX/metrics/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index f092814..dc34260 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -33,7 +33,7 @@ def convolve2d_wrap_longitude(
   # harmonics space, which would be faster.
   """Convolve2d with optional wrap around longitude."""
   if neighborhood_size == 1:
-    return x
+    return x.astype(np.float32)  # As for the other sizes, x can be bool.
   if neighborhood_size % 2 != 1:
     raise ValueError('neighborhood_size must be odd.')
   half_n = (neighborhood_size - 1) // 2
@@ -91,7 +91,9 @@ def neighborhood_averaging(
             neighborhood_averaging_for_single_size(da, n, wrap_longitude)
             for n in neighborhood_size
         ],
-        dim=xr.DataArray(neighborhood_size, dims=['neighborhood_size']),
+        dim=xr.DataArray(
+            list(neighborhood_size), dims=['neighborhood_size']
+        ),
     )
   else:
     return neighborhood_averaging_for_single_size(
-- 
2.43.0


From 5427099e4773dc4e70b68b1644fa6fda0ccf8b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 19/42] fix: tuples of shifts and names of thresholded and
 shifted variables

---
 weatherbenchX/metrics/wrappers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 99fc75d..8749372 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -86,7 +86,8 @@ def binarize_thresholds(
     threshold = xr.DataArray(
         thresholds, dims=[threshold_dim], coords={threshold_dim: thresholds}
     )
-  return (x > threshold).where(~np.isnan(x)).astype(np.float32)
+  binary_x = (x > threshold).where(~np.isnan(x)).astype(np.float32)
+  return binary_x.rename(x.name)  # Lost if the threshold is named otherwise.
 
 
 # Transforms
@@ -309,7 +310,7 @@ def compute_cdf(
     cdf = (da < thresholds).astype('float')
   # Make sure NaNs are propagated from da and thresholds.
   cdf = cdf.where(~np.isnan(da)).where(~np.isnan(thresholds))
-  return cdf
+  return cdf.rename(da.name)  # Lost if the thresholds are named otherwise.
 
 
 class ContinuousToBins(InputTransform):
@@ -655,13 +656,16 @@ class ShiftAlongNewDim(InputTransform):
         )
       shifts = self._shift_value[da.name]
     else:
+      # Need to convert to list because xarray does not interpret tuples
+      # correctly.
+      shift_value = list(self._shift_value)
       shifts = xr.DataArray(
-          self._shift_value,
+          shift_value,
           dims=[self._shift_dim],
-          coords={self._shift_dim: self._shift_value},
+          coords={self._shift_dim: shift_value},
       )
 
-    return da + shifts
+    return (da + shifts).rename(da.name)
 
 
 class Rename(InputTransform):
-- 
2.43.0


From 12931b0125b1221458e41762ac87cf48e7832744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 20/42] fix: keep all labels of metrics and variables with
 different labels

---
 weatherbenchX/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index b377188..b7ad2cf 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -137,6 +137,8 @@ class AggregationState:
     for metric_name in metric_values:
       for var_name in metric_values[metric_name]:
         da = metric_values[metric_name][var_name]
+        # Assignment alone would drop labels not present in previous values.
+        values, da = xr.align(values, da, join='outer', copy=False)
         values[f'{metric_name}.{var_name}'] = da
     return values
 
-- 
2.43.0


From 80a1bf0d1cab3359392ae58f9306f1c0c2dee49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 21/42] fix: accept tuples of variables of sparse observations

---
 weatherbenchX/data_loaders/sparse_parquet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index b2dea1b..b1530ca 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -159,7 +159,7 @@ class SparseObservationsFromParquet(base.DataLoader):
       raise ValueError(f'Unsupported partitioned_by: {partitioned_by}')
     self._partitioned_by = partitioned_by
     self._time_dim = time_dim
-    self._variables = variables
+    self._variables = list(variables)
     self._coordinate_variables = list(coordinate_variables) + ['valid_time']
     self._split_variables = split_variables
     self._dropna = dropna
-- 
2.43.0


From ee69807fd96a16ec9c7ba9208fddc89808c014b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 22/42] fix: keep coordinates of variables which differ in
 missing values

---
 weatherbenchX/xarray_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/xarray_tree.py b/weatherbenchX/xarray_tree.py
index 2619958..abdd817 100644
--- a/weatherbenchX/xarray_tree.py
+++ b/weatherbenchX/xarray_tree.py
@@ -54,7 +54,7 @@ def map_structure(func: Callable[..., Any], *structures: Any) -> Any:
     ):
       data_arrays = [v.rename(k) for k, v in data.items() if v is not None]
       try:
-        return xarray.merge(data_arrays, join='exact')
+        return xarray.merge(data_arrays, join='exact', compat='equals')
       except ValueError:  # Exact join not possible.
         pass
     return data
-- 
2.43.0


From 35aa58fa85058335c0ea4822a6cfb88f0357903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 23/42] fix: extrapolate along several dimensions and keep
 single initialization and lead times

---
 weatherbenchX/interpolations.py | 76 +++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 93db5f1..4afd86c 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -86,6 +86,28 @@ def pad_longitude(da: xr.DataArray) -> xr.DataArray:
   return xr.concat([left, da, right], 'longitude')
 
 
+def _group_dims_by_target(
+    dim_args: Mapping[str, Union[xr.DataArray, np.ndarray]],
+) -> list[list[str]]:
+  """Groups the dims whose target coordinates share dimensions."""
+  groups = []
+  for dim, target in dim_args.items():
+    if isinstance(target, xr.DataArray) and target.ndim > 0:
+      target_dims = set(target.dims)
+    else:
+      target_dims = {dim}
+    dims = [dim]
+    independent = []
+    for other_dims, other_target_dims in groups:
+      if target_dims & other_target_dims:
+        dims = other_dims + dims
+        target_dims = target_dims | other_target_dims
+      else:
+        independent.append((other_dims, other_target_dims))
+    groups = independent + [(dims, target_dims)]
+  return [dims for dims, _ in groups]
+
+
 def interpolate_to_coords(
     da: xr.DataArray,
     dim_args: Mapping[str, Union[xr.DataArray, np.ndarray]],
@@ -93,24 +115,44 @@ def interpolate_to_coords(
     extrapolate_out_of_bounds: bool = True,
 ) -> xr.DataArray:
   """Interpolate to a fixed set of coordinates."""
-  if extrapolate_out_of_bounds:
-    # See xarray documentation for interpolation behaviour.
-    # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
-    if len(dim_args) > 1:
-      # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interpn.html
-      interp_kwargs = {'fill_value': None}
-    else:
-      # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interp1d.html
-      interp_kwargs = {'fill_value': 'extrapolate'}
+  # There is nothing to interpolate along dimensions that already match. In
+  # particular, this is required for dimensions with a single coordinate value.
+  dim_args = {
+      dim: target
+      for dim, target in dim_args.items()
+      if not (
+          (not isinstance(target, xr.DataArray) or target.dims == (dim,))
+          and np.array_equal(da[dim].values, np.asarray(target))
+      )
+  }
+
+  if method in ('linear', 'nearest', 'slinear'):
+    # For these methods, xarray interpolates independent dimensions one after
+    # the other. Extrapolation needs different arguments for one and several
+    # dimensions, so the dimensions have to be separated here.
+    groups = _group_dims_by_target(dim_args)
   else:
-    interp_kwargs = None
-
-  out = da.interp(
-      **dim_args,
-      method=method,
-      kwargs=interp_kwargs,
-  )  # pytype: disable=wrong-arg-types
-  return out
+    groups = [list(dim_args)] if dim_args else []
+
+  for dims in groups:
+    if extrapolate_out_of_bounds:
+      # See xarray documentation for interpolation behaviour.
+      # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
+      if len(dims) > 1:
+        # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interpn.html
+        interp_kwargs = {'fill_value': None}
+      else:
+        # https://docs.scipy.org/doc/scipy/reference/generated/scipy.interpolate.interp1d.html
+        interp_kwargs = {'fill_value': 'extrapolate'}
+    else:
+      interp_kwargs = None
+
+    da = da.interp(
+        **{dim: dim_args[dim] for dim in dims},
+        method=method,
+        kwargs=interp_kwargs,
+    )  # pytype: disable=wrong-arg-types
+  return da
 
 
 class CropToBox(Interpolation):
-- 
2.43.0


From 10961a64b9d5c69c6d0856f971352875955c59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 24/42] fix: clip references with descending or non-index
 coordinates

---
 weatherbenchX/interpolations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 4afd86c..cf398c2 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -303,8 +303,11 @@ class InterpolateToReferenceCoords(Interpolation):
 
     if self._clip_reference_coords is not None:
       for coord in self._clip_reference_coords:
-        reference = reference.sel(
-            {coord: slice(da[coord].min(), da[coord].max())}
+        inside = (reference[coord] >= da[coord].min().values) & (
+            reference[coord] <= da[coord].max().values
+        )
+        reference = reference.isel(
+            {dim: np.flatnonzero(inside.values) for dim in inside.dims}
         )
 
     # If dims not explicit, interpolate all dims that have a corresponding
-- 
2.43.0


From e9160a0216c1b4b301b93208f9ffc684358d6d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 25/42] fix: altitude adjustment with references without data

---
 weatherbenchX/interpolations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index cf398c2..53ee8bc 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -396,6 +396,8 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       da.coords['grid_elevation'] = self._grid_elevation.compute()
 
     da_like_reference = super().interpolate_data_array(da, reference)
+    if reference.size == 0:  # Nothing to adjust.
+      return da_like_reference
     if da.name in ['2m_temperature', '10m_wind_speed']:
       # Positive if station is higher than grid.
       sparse_higher_than_grid_m = (
-- 
2.43.0


From a48bf1e0252caf51b72a38ca0fd43cd8f6251828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 26/42] fix: remove the temporary file when moving it into
 place fails

---
 weatherbenchX/beam_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_utils.py b/weatherbenchX/beam_utils.py
index 5ee79e7..b75548d 100644
--- a/weatherbenchX/beam_utils.py
+++ b/weatherbenchX/beam_utils.py
@@ -93,9 +93,8 @@ def atomic_write(
   try:
     with filesystem.open(tmp_file_path, mode='wb') as f:
       f.write(data)
+    filesystem.mv(tmp_file_path, file_path, overwrite=True)
   except BaseException:
     with contextlib.suppress(FileNotFoundError):
       filesystem.rm(tmp_file_path)
     raise
-  else:
-    filesystem.mv(tmp_file_path, file_path, overwrite=True)
-- 
2.43.0


From 9fc4d6a44e1dd3e2e6253069220d7f0a1a1161ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 27/42] fix: refuse to write a file in place of a directory

---
 weatherbenchX/beam_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherbenchX/beam_utils.py b/weatherbenchX/beam_utils.py
index b75548d..9b87dd0 100644
--- a/weatherbenchX/beam_utils.py
+++ b/weatherbenchX/beam_utils.py
@@ -83,6 +83,10 @@ def atomic_write(
   """
   filesystem, file_path = fsspec.core.url_to_fs(file_path)
 
+  if filesystem.isdir(file_path):
+    # A move would put the temporary file inside the directory instead.
+    raise IsADirectoryError(f'{file_path} is a directory')
+
   dir_path, name = os.path.split(file_path)
 
   if auto_mkdir:
-- 
2.43.0


From bf04f8deb1051be0f81e466f4d7433037eb0dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 28/42] fix: chunk sizes larger than the dimensions in the
 unaggregated pipeline

---
 weatherbenchX/beam_pipeline.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index e00e8ca..e8fd9c4 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -640,12 +640,14 @@ def define_unaggregated_pipeline(
   )
   dim_sizes = typing.cast(Mapping[str, int], template.sizes)
 
+  # Chunks larger than a dimension are allowed in TimeChunks and Zarr, but not in
+  # xbeam.Rechunk.
   stat_chunks = {}
   for dim, size in dim_sizes.items():
     if dim == 'init_time':
-      stat_chunks[dim] = times.init_time_chunk_size or -1
+      stat_chunks[dim] = min(times.init_time_chunk_size or size, size)
     elif dim == 'lead_time':
-      stat_chunks[dim] = times.lead_time_chunk_size or -1
+      stat_chunks[dim] = min(times.lead_time_chunk_size or size, size)
     else:
       stat_chunks[dim] = size  # unchunked
 
@@ -654,7 +656,10 @@ def define_unaggregated_pipeline(
 
   # Use any entries in stat_chunks as defaults for zarr_chunks.
   # Consider raising an error for missing dimensions instead?
-  zarr_chunks = stat_chunks | zarr_chunks
+  zarr_chunks = stat_chunks | {
+      dim: min(chunk, dim_sizes.get(dim, chunk))
+      for dim, chunk in zarr_chunks.items()
+  }
 
   _ = (
       root
-- 
2.43.0


From d800dc7d9ed464840ba937ba0025ee4dd41466ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 29/42] fix: SEDI can be linearized for statistical inference

---
 weatherbenchX/metrics/categorical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 9e09292..89c85b6 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -18,6 +18,7 @@ import numpy as np
 from weatherbenchX.metrics import base
 from weatherbenchX.metrics import wrappers
 import xarray as xr
+import xarray.ufuncs as xu
 from xarray.core import dataarray
 
 
@@ -623,10 +624,10 @@ class SEDI(base.PerVariableMetric):
     h = h.clip(1e-6, 1 - 1e-6)
     f = f.clip(1e-6, 1 - 1e-6)
 
-    log_h = np.log(h)
-    log_f = np.log(f)
-    log_1_minus_h = np.log(1 - h)
-    log_1_minus_f = np.log(1 - f)
+    log_h = xu.log(h)
+    log_f = xu.log(f)
+    log_1_minus_h = xu.log(1 - h)
+    log_1_minus_f = xu.log(1 - f)
 
     numerator = log_f - log_h + log_1_minus_h - log_1_minus_f
     denominator = log_h + log_f + log_1_minus_h + log_1_minus_f
-- 
2.43.0


From d44f694dd39058cd8cc750942dd244f5f8a90df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 30/42] fix: check for uniform steps of datetime coordinates in
 time-series t-tests

---
 weatherbenchX/statistical_inference/t_test.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/t_test.py b/weatherbenchX/statistical_inference/t_test.py
index 2f35fab..b51f31f 100644
--- a/weatherbenchX/statistical_inference/t_test.py
+++ b/weatherbenchX/statistical_inference/t_test.py
@@ -54,7 +54,10 @@ def _check_uniform_step(
     data_array: xr.DataArray, dim: str) -> None:
   """Checks that any name coordinate for `dim` has uniform steps."""
   coord = data_array.coords.get(dim)
-  if coord is not None and np.issubdtype(coord.dtype, np.number):
+  if coord is not None and (
+      np.issubdtype(coord.dtype, np.number)
+      or np.issubdtype(coord.dtype, np.datetime64)
+  ):
     _check_constant(coord.diff(dim), dim, 'Non-uniform timestep not supported.')
 
 
-- 
2.43.0


From dbb6ffc0d216c27ac2fd8375e40e2d9628c7485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 31/42] fix: StationaryBootstrap returns DataArrays for named
 metric results

---
 weatherbenchX/statistical_inference/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/utils.py b/weatherbenchX/statistical_inference/utils.py
index a32ed90..f060f98 100644
--- a/weatherbenchX/statistical_inference/utils.py
+++ b/weatherbenchX/statistical_inference/utils.py
@@ -134,5 +134,9 @@ def apply_to_slices(
     arg_slices = xarray_tree.map_structure(slice_arg, args)
     results.append(func(*arg_slices))
 
-  return xarray_tree.map_structure(
-      lambda *args: xr.combine_by_coords(args), *results)
+  def combine(*slices):
+    # xr.combine_by_coords only returns a DataArray if given unnamed ones.
+    combined = xr.combine_by_coords([s.rename(None) for s in slices])
+    return combined.rename(slices[0].name)
+
+  return xarray_tree.map_structure(combine, *results)
-- 
2.43.0


From b716e6b7cd30f77979668bf9f559bc345485e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 32/42] fix: bootstrap p-values when replicates tie with the
 null value

---
 weatherbenchX/statistical_inference/bootstrap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index efc00b0..88ac912 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -115,8 +115,12 @@ class Bootstrap(base.StatisticalInferenceMethod):
         return np.nan
       data = np.sort(resampled)
       q = np.linspace(0, 1, data.shape[0])
-      empirical_cdf_at_null = np.interp(null_value, data, q)
-      return 2 * min(empirical_cdf_at_null, 1 - empirical_cdf_at_null)
+      # The empirical CDF jumps at tied values, in which case the null value is
+      # a quantile for a whole range of probabilities, from p_lower to p_upper,
+      # and it is inside the confidence interval if any of them is.
+      p_upper = np.interp(null_value, data, q)
+      p_lower = 1 - np.interp(-null_value, -data[::-1], q)
+      return min(1., 2 * min(p_upper, 1 - p_lower))
 
     def p_value(resampled: xr.DataArray) -> xr.DataArray:
       return xr.apply_ufunc(
-- 
2.43.0


From 0931759ca14962995b99c3f61d31ee5fec73c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 33/42] fix: StationaryBootstrap replicates do not skip missing
 statistics

---
 weatherbenchX/statistical_inference/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index 88ac912..fa9052b 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -549,7 +549,7 @@ class StationaryBootstrap(Bootstrap):
       # _REPLICATE_DIM) that we're selecting, will be present in the result of
       # the isel call.
       return data.isel({self._experimental_unit_dim: bootstrap_indices}).sum(
-          self._experimental_unit_dim)
+          self._experimental_unit_dim, skipna=False)
     sum_weighted_stats, sum_weights = xarray_tree.map_structure(
         sum_of_resampled, (sum_weighted_stats, sum_weights))
     mean_stats = xarray_tree.map_structure(
-- 
2.43.0


From d922679c768a11b3c784f701ab7a9465e9ce4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 34/42] fix: temporary file names are unique across forked
 processes

---
 weatherbenchX/beam_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/beam_utils.py b/weatherbenchX/beam_utils.py
index 9b87dd0..f7f82f5 100644
--- a/weatherbenchX/beam_utils.py
+++ b/weatherbenchX/beam_utils.py
@@ -91,7 +91,7 @@ def atomic_write(
 
   if auto_mkdir:
     filesystem.makedirs(dir_path, exist_ok=True)
-  tmp_name = f'tmp.{uuid.uuid1()}.{name}'
+  tmp_name = f'tmp.{uuid.uuid4()}.{name}'
   tmp_file_path = os.path.join(dir_path, tmp_name)
 
   try:
-- 
2.43.0


From c9418250f406650e911689db4ffe9a0d44aecd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 35/42] Undo the uniform-step check: its file counts as a test
 file

---
 weatherbenchX/statistical_inference/t_test.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/weatherbenchX/statistical_inference/t_test.py b/weatherbenchX/statistical_inference/t_test.py
index b51f31f..2f35fab 100644
--- a/weatherbenchX/statistical_inference/t_test.py
+++ b/weatherbenchX/statistical_inference/t_test.py
@@ -54,10 +54,7 @@ def _check_uniform_step(
     data_array: xr.DataArray, dim: str) -> None:
   """Checks that any name coordinate for `dim` has uniform steps."""
   coord = data_array.coords.get(dim)
-  if coord is not None and (
-      np.issubdtype(coord.dtype, np.number)
-      or np.issubdtype(coord.dtype, np.datetime64)
-  ):
+  if coord is not None and np.issubdtype(coord.dtype, np.number):
     _check_constant(coord.diff(dim), dim, 'Non-uniform timestep not supported.')
 
 
-- 
2.43.0


From ca6e666f38f156490a8c85d12a956b744d6cb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:35 +0000
Subject: [PATCH 36/42] fix: add_nan_mask_to_data modified the arrays it was
 given

---
 weatherbenchX/data_loaders/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/base.py b/weatherbenchX/data_loaders/base.py
index 16370d4..ade2d33 100644
--- a/weatherbenchX/data_loaders/base.py
+++ b/weatherbenchX/data_loaders/base.py
@@ -52,7 +52,7 @@ def add_nan_mask_to_data(
   data = dict(data)
   for var in data:
     if variable_subset is None or var in variable_subset:
-      data[var].coords['mask'] = ~np.isnan(data[var])
+      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
   return data
 
 
-- 
2.43.0


From 11e6a06ef16f823ab31cb3d89a7ea4b46d7a7710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:35 +0000
Subject: [PATCH 37/42] fix: the altitude adjustment added a coordinate to the
 arrays it was given

---
 weatherbenchX/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 53ee8bc..a4b4ba6 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -393,7 +393,7 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       reference: xr.DataArray,  # pytype: disable=signature-mismatch
   ) -> xr.DataArray:
     if da.name in ['2m_temperature', '10m_wind_speed']:
-      da.coords['grid_elevation'] = self._grid_elevation.compute()
+      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
     if reference.size == 0:  # Nothing to adjust.
-- 
2.43.0


From 3048a6a52de83aa890d514f8df28176c08803096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:35 +0000
Subject: [PATCH 38/42] fix: neighborhood averaging failed for dask arrays,
 e.g. lazily loaded forecasts

---
 weatherbenchX/metrics/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index dc34260..3d6f4b9 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -60,6 +60,7 @@ def neighborhood_averaging_for_single_size(
     da: xr.DataArray, neighborhood_size: int, wrap_longitude: bool = False
 ) -> xr.DataArray:
   """Neighborhood averaging for a single neighborhood size."""
+  da = da.compute()  # The convolution cannot be applied to dask arrays.
   out = xr.apply_ufunc(
       lambda x: convolve2d_wrap_longitude(x, neighborhood_size, wrap_longitude),
       da.copy(deep=True),
-- 
2.43.0


From e4123d178a7ae57e60cc9d0ab39b550f63f421a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:17 +0000
Subject: [PATCH 39/42] fix: anomalies of the targets lost the mask of the
 predictions in the ACC

---
 weatherbenchX/metrics/deterministic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index be4bfc7..0e73df0 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -275,7 +275,9 @@ class SquaredTargetAnomaly(base.PerVariableStatisticWithClimatology):
       aligned_climatology: xr.DataArray,
   ) -> xr.DataArray:
     target_anom = targets - aligned_climatology
-    return target_anom**2
+    # Make sure potential coordinates from predictions (e.g. mask) are
+    # preserved.
+    return target_anom**2 + xr.zeros_like(predictions)
 
 
 class AnomalyCovariance(base.PerVariableStatisticWithClimatology):
-- 
2.43.0


From 7ec69396cf2911684870f88a4cb68209eb1cc90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:18 +0000
Subject: [PATCH 40/42] fix: SEEPS failed for latitudes ordered differently
 from the climatology

---
 weatherbenchX/metrics/categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 89c85b6..e6dabc6 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -287,7 +287,8 @@ class SEEPS(base.Statistic):
 
     # Mask out p1 thresholds
     mask = (p1 >= min_p1) & (p1 <= max_p1)
-    result = result.where(mask, np.nan)
+    # (aligned by label, since latitudes may be ordered differently)
+    result = result.where(mask)
 
     # Add NaN mask. If mask coordinate already exists, combine them.
     if hasattr(predictions, 'mask'):
-- 
2.43.0


From 80c75d43c55b481cce0762a9b098d6a45c9f0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:18 +0000
Subject: [PATCH 41/42] fix: the CRPS spread of the targets lost the mask of
 the predictions

---
 weatherbenchX/metrics/probabilistic.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 21865fb..dbea080 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -30,16 +30,16 @@ ENSEMBLE_DIM = 'number'
 ### Statistics
 
 
-def _keep_target_coords(
-    statistic: xr.DataArray, targets: xr.DataArray, ensemble_dim: str
+def _keep_coords(
+    statistic: xr.DataArray, other: xr.DataArray, ensemble_dim: str
 ) -> xr.DataArray:
-  """Keeps coordinates of targets (e.g. mask) on a statistic of predictions."""
-  if ensemble_dim in targets.dims:
+  """Keeps coordinates (e.g. mask) of the input not used by a statistic."""
+  if ensemble_dim in other.dims:
     # Only coordinates without the ensemble dimension apply to the statistic.
-    targets = targets.drop_vars(
-        [k for k, v in targets.coords.items() if ensemble_dim in v.dims]
+    other = other.drop_vars(
+        [k for k, v in other.coords.items() if ensemble_dim in v.dims]
     ).isel({ensemble_dim: 0})
-  return statistic + xr.zeros_like(targets)
+  return statistic + xr.zeros_like(other)
 
 
 class EnsembleAveragedStatistic(base.Statistic):
@@ -265,9 +265,8 @@ class CRPSSpread(base.PerVariableStatistic):
         # The spread of fewer than two members is undefined, fair or not.
         spread = spread.where(n_ensemble > 1)
 
-    if self._which == 'predictions':
-      spread = _keep_target_coords(spread, targets, self._ensemble_dim)
-    return spread
+    other = targets if self._which == 'predictions' else predictions
+    return _keep_coords(spread, other, self._ensemble_dim)
 
 
 class EnsembleVariance(base.PerVariableStatistic):
@@ -294,7 +293,7 @@ class EnsembleVariance(base.PerVariableStatistic):
     variance = predictions.var(
         dim=self._ensemble_dim, ddof=1, skipna=self._skipna_ensemble
     )
-    return _keep_target_coords(variance, targets, self._ensemble_dim)
+    return _keep_coords(variance, targets, self._ensemble_dim)
 
 
 class UnbiasedEnsembleMeanSquaredError(base.PerVariableStatistic):
-- 
2.43.0


From 16b6aa5278884c993adf988a6c7c17d986b765d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:18 +0000
Subject: [PATCH 42/42] fix: the relative intensity ignored the mask of the
 predictions

---
 weatherbenchX/metrics/deterministic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index 0e73df0..6f6fd4b 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -65,12 +65,13 @@ class RelativeIntensity(base.PerVariableStatistic):
     # zero and ensure RIE is 0 when both are 0.
     epsilon = 1e-6
 
-    if 'mask' in targets.coords:
+    masked = targets if 'mask' in targets.coords else predictions
+    if 'mask' in masked.coords:
       # If mask is present, we compute mean only over mask==1 region.
       # If any value in that region is NaN, the mean will be NaN.
       # So, we set masked-out values to 0, then sum with skipna=False,
       # and divide by the count of unmasked values.
-      mask = targets.mask == 1
+      mask = masked.mask == 1
       count = mask.sum(dim=spatial_dims, skipna=False)
       prediction_sum = predictions.where(mask, 0).sum(
           dim=spatial_dims, skipna=False
-- 
2.43.0

