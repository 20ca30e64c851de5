From 85208fc4ddcff133643e711060008db4a578cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 01/36] fix: iterate chunk offsets for lead time intervals

TimeChunks.iter_with_chunk_offsets raised a TypeError when lead_times was a
slice, so the beam pipeline could not evaluate the documented lead time
intervals.
---
 weatherbenchX/time_chunks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/time_chunks.py b/weatherbenchX/time_chunks.py
index 871cdc5..7975f03 100644
--- a/weatherbenchX/time_chunks.py
+++ b/weatherbenchX/time_chunks.py
@@ -197,6 +197,10 @@ class TimeChunks(Iterable[TimeChunk]):
     """
     for index, (init_chunk, lead_chunk) in enumerate(self):
       init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
-      lead_index = self._lead_time_chunk_size * (index % self._num_lead_chunks)
+      # The chunk size is None for a lead_time interval, which is always a single
+      # chunk at offset zero.
+      lead_index = (self._lead_time_chunk_size or 0) * (
+          index % self._num_lead_chunks
+      )
       offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
       yield offsets, (init_chunk, lead_chunk)
-- 
2.43.0


From 0a4864d2aac71af6327bf7866c208ee5abd952ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 02/36] fix: aggregate boolean statistics as numbers

xr.dot of purely boolean arrays is a logical or, so the mean of a boolean
statistic (e.g. Covered, Confident) without float weights was 0 or 1 only.
---
 weatherbenchX/aggregation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index d251b15..e3cbe58 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -329,6 +329,10 @@ class Aggregator:
 
   def aggregate_stat_var(self, stat: xr.DataArray) -> AggregationState | None:
     """Aggregate one statistic DataArray for one variable."""
+    if stat.dtype == bool:
+      # Sums of products of boolean arrays are logical ors, not counts.
+      stat = stat.astype(float)
+
     if self.masked and hasattr(stat, 'mask'):
       mask = stat.mask
       if self.skipna:
-- 
2.43.0


From e5e89534509195e154d1418c51c074a31d489b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 03/36] fix: remove the temporary file when publishing it fails

---
 weatherbenchX/beam_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_utils.py b/weatherbenchX/beam_utils.py
index 5ee79e7..b75548d 100644
--- a/weatherbenchX/beam_utils.py
+++ b/weatherbenchX/beam_utils.py
@@ -93,9 +93,8 @@ def atomic_write(
   try:
     with filesystem.open(tmp_file_path, mode='wb') as f:
       f.write(data)
+    filesystem.mv(tmp_file_path, file_path, overwrite=True)
   except BaseException:
     with contextlib.suppress(FileNotFoundError):
       filesystem.rm(tmp_file_path)
     raise
-  else:
-    filesystem.mv(tmp_file_path, file_path, overwrite=True)
-- 
2.43.0


From 60ed54aa3bb5c06d8fdb90ad5052c0d53d1a09bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 04/36] fix: keep all labels when collecting metric values in
 one dataset

Metrics evaluated together may have different labels along a dimension of
the same name (e.g. two thresholded metrics). Assigning into the dataset
reindexed every later metric to the labels of the first one, silently
replacing its values by NaN.
---
 weatherbenchX/aggregation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index e3cbe58..5ab4ebd 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -137,6 +137,9 @@ class AggregationState:
     for metric_name in metric_values:
       for var_name in metric_values[metric_name]:
         da = metric_values[metric_name][var_name]
+        # Metrics may have different labels along dimensions of the same name
+        # (e.g. thresholds); plain assignment would drop the new ones.
+        values, da = xr.align(values, da, join='outer', copy=False)
         values[f'{metric_name}.{var_name}'] = da
     return values
 
-- 
2.43.0


From 810db3bff6f696730851b818bc5b2cacc04db58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 05/36] fix: capture all parameters in unique statistic names

Statistics with the same unique_name are computed once and shared, so two
variants of a metric differing in a parameter missing from the name (skipna,
thresholds, ensemble or spatial dims, ...) silently got the same values when
evaluated together.
---
 weatherbenchX/metrics/categorical.py   |  8 ++---
 weatherbenchX/metrics/deterministic.py | 42 +++++++++++++++++++++++++-
 weatherbenchX/metrics/probabilistic.py | 21 ++++++++++---
 weatherbenchX/metrics/spatial.py       |  3 +-
 weatherbenchX/metrics/wrappers.py      |  5 ++-
 5 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 564a818..a7b472f 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -330,7 +330,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return 'RankedProbabilityScore'
+    return f'RankedProbabilityScore_{self._bin_dim}'
 
   def _compute_per_variable(
       self,
@@ -718,7 +718,7 @@ class Confident(base.PerVariableStatisticWithClimatology):
   @property
   def unique_name(self) -> str:
     return (
-        'Confident'
+        f'Confident_{self._ensemble_dim}'
         + f'_conf_thres={self._confidence_threshold}'
         + f'_spread_low={self._spread_low}'
         + f'_spread_high={self._spread_high}'
@@ -764,7 +764,7 @@ class Covered(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     return (
-        'Covered'
+        f'Covered_{self._ensemble_dim}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
     )
@@ -810,7 +810,7 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
   @property
   def unique_name(self) -> str:
     return (
-        'JaccardDistant'
+        f'JaccardDistant_{self._ensemble_dim}'
         + f'_threshold={self._threshold}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index b9f84f4..b1ea7f5 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -14,6 +14,7 @@
 """Implementation of deterministic metrics and assiciated statistics."""
 from absl import logging
 from collections.abc import Hashable
+import hashlib
 from typing import Iterable, Mapping, Sequence, Union
 import jax
 import numpy as np
@@ -48,6 +49,15 @@ class RelativeIntensity(base.PerVariableStatistic):
     """
     self._spatial_dims = spatial_dims
 
+  @property
+  def unique_name(self) -> str:
+    dims = (
+        [self._spatial_dims]
+        if isinstance(self._spatial_dims, str)
+        else self._spatial_dims
+    )
+    return 'RelativeIntensity_' + '_'.join(str(d) for d in dims)
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -135,6 +145,11 @@ class PredictionPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_targets = copy_nans_from_targets
 
+  @property
+  def unique_name(self) -> str:
+    suffix = '_copy_nans_from_targets' if self._copy_nans_from_targets else ''
+    return super().unique_name + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -159,6 +174,15 @@ class TargetPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_predictions = copy_nans_from_predictions
 
+  @property
+  def unique_name(self) -> str:
+    suffix = (
+        '_copy_nans_from_predictions'
+        if self._copy_nans_from_predictions
+        else ''
+    )
+    return super().unique_name + suffix
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -200,7 +224,10 @@ class WindVectorSquaredError(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    suffix = '_'.join(self._vector_name)
+    suffix = '_'.join(
+        f'{vector}={u},{v}'
+        for u, v, vector in zip(self._u_name, self._v_name, self._vector_name)
+    )
     return 'WindVectorSquaredError_' + suffix
 
   def compute(
@@ -278,6 +305,19 @@ class ErrorExceedance(base.PerVariableStatistic):
       )
     self._thresholds = thresholds
 
+  @property
+  def unique_name(self) -> str:
+    # Thresholds can be large arrays, so they are identified by a digest.
+    thresholds = self._thresholds
+    if not isinstance(thresholds, xr.Dataset):
+      thresholds = xr.Dataset({'thresholds': thresholds})
+    digest = hashlib.sha256()
+    for name in sorted(thresholds.variables, key=str):
+      variable = thresholds.variables[name]
+      values = variable.values.astype(str).tolist()
+      digest.update(repr((str(name), variable.dims, values)).encode())
+    return f'{super().unique_name}_{digest.hexdigest()[:16]}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d682f55..ab8e303 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -48,7 +48,11 @@ class EnsembleAveragedStatistic(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    return self._wrapped_statistic.unique_name + '_each_' + self._ensemble_dim
+    suffix = '_skipna_ensemble' if self._skipna_ensemble else ''
+    return (
+        f'{self._wrapped_statistic.unique_name}_each_{self._ensemble_dim}'
+        + suffix
+    )
 
   def compute(
       self,
@@ -124,7 +128,8 @@ class CRPSSkill(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return f'CRPSSkill_{self._ensemble_dim}'
+    suffix = '_skipna_ensemble' if self._skipna_ensemble else ''
+    return f'CRPSSkill_{self._ensemble_dim}{suffix}'
 
   def _compute_per_variable(
       self,
@@ -189,7 +194,8 @@ class CRPSSpread(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     fair_str = 'fair' if self._fair else 'unfair'
-    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}'
+    suffix = '_skipna_ensemble' if self._skipna_ensemble else ''
+    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}{suffix}'
 
   def _compute_per_variable(
       self,
@@ -406,6 +412,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     self._skipna_ensemble = skipna_ensemble
     self._fair = fair
     self._bin_dim = bin_dim
+    self._right_inclusive = right_inclusive
     self._unique_name_suffix = unique_name_suffix
 
     binned_prediction_wrapper = wrappers.ContinuousToCDF(
@@ -458,6 +465,8 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         f'RankedProbabilityScore_{self._ensemble_dim}_'
         f'skipna_ensemble_{self._skipna_ensemble}_'
         f'fair_{self._fair}_'
+        f'right_inclusive_{self._right_inclusive}_'
+        f'{self._bin_dim}_'
         f'{self._unique_name_suffix}'
     )
 
@@ -729,6 +738,10 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
     super().__init__(thresholds=thresholds)
     self._ensemble_dim = ensemble_dim
 
+  @property
+  def unique_name(self) -> str:
+    return f'{super().unique_name}_{self._ensemble_dim}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -1035,7 +1048,7 @@ class RelativeEconomicValue(base.Metric):
     if self._thresholds is None:
       self._thresholds = (np.arange(ensemble_size) + 0.5) / ensemble_size
       if statistic_suffix is None:
-        statistic_suffix = 'all_thresholds_for_ensemble_size'
+        statistic_suffix = f'all_thresholds_for_ensemble_size_{ensemble_size}'
     if not np.all(self._thresholds >= 0.0) or not np.all(
         self._thresholds <= 1.0
     ):
diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 4a9c595..feb2780 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -104,7 +104,8 @@ def get_suffix(
     wrap_longitude: bool = False,
 ):
   if isinstance(neighborhood_size, Iterable):
-    suffix = ','.join([str(t) for t in neighborhood_size])
+    # A list of sizes adds a dimension, even if there is only one of them.
+    suffix = '[' + ','.join([str(t) for t in neighborhood_size]) + ']'
   else:
     suffix = str(neighborhood_size)
   if wrap_longitude:
diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index e0b0522..1583ba6 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -493,7 +493,10 @@ class WeibullEnsembleToProbabilistic(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return 'ensemble_to_probabilistic_by_weibull_plotting_position'
+    return (
+        'ensemble_to_probabilistic_by_weibull_plotting_position'
+        f'_{self._ensemble_dim=}_{self._skipna=}'
+    )
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     ensemble_members = da.sizes[self._ensemble_dim]
-- 
2.43.0


From 34854f8632dd3b4184216debbe50d03293c46e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 06/36] fix: add_values_to_coords keeps each variable's own
 values

Values of variables that agree wherever both are present were merged into a
single coordinate of the Dataset, so a variable's missing values were replaced
by those of another variable.
---
 weatherbenchX/data_loaders/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/data_loaders/base.py b/weatherbenchX/data_loaders/base.py
index 16370d4..bdbe82e 100644
--- a/weatherbenchX/data_loaders/base.py
+++ b/weatherbenchX/data_loaders/base.py
@@ -156,8 +156,11 @@ class DataLoader(abc.ABC):
       chunk = add_nan_mask_to_data(chunk)
 
     if self._add_values_to_coords:
-      chunk = xarray_tree.map_structure(
-          lambda da: da.assign_coords(values_as_coord=da), chunk
-      )
+      # Kept as separate DataArrays, because merging variables into a Dataset
+      # would also merge their values_as_coord coordinates.
+      chunk = {
+          name: chunk[name].assign_coords(values_as_coord=chunk[name])
+          for name in chunk
+      }
 
     return chunk
-- 
2.43.0


From bfc4cc0c5367fc60047f4dc5de5feb5640741888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 07/36] fix: latency wrapper keeps the add_values_to_coords
 option of the wrapped loader

---
 weatherbenchX/data_loaders/latency_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index a3d96c7..5332825 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -89,6 +89,7 @@ class ConstantLatencyWrapper(base.DataLoader):
         compute=data_loader._compute,
         add_nan_mask=data_loader._add_nan_mask,
         process_chunk_fn=data_loader._process_chunk_fn,
+        add_values_to_coords=data_loader._add_values_to_coords,
     )
 
   def get_available_init_time(self, init_time: np.datetime64) -> np.datetime64:
-- 
2.43.0


From e7336fbed67661d37e80df9a2298fa9e15416539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 08/36] fix: multiple latency wrapper skips data loaders
 without an available forecast

A single data loader that had not issued anything yet made the whole request
fail, although another data loader had a forecast available.
---
 weatherbenchX/data_loaders/latency_wrappers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index 5332825..170f429 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -96,6 +96,8 @@ class ConstantLatencyWrapper(base.DataLoader):
     """Return most recent available nominal init time for requested init time."""
     issue_time = self.nominal_init_times + self.latency
     diff = (issue_time - init_time).astype(int)
+    if not np.any(diff <= 0):
+      raise ValueError(f'No forecast available at init time {init_time}.')
     # Find index of issue time that is closest to requested init_time.
     # on the left, i.e. with issue_time > nominal init_time.
     available_idx = np.nanargmax(np.where(diff <= 0, diff, np.nan))
@@ -258,8 +260,13 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
 
   def _get_data_loader(self, init_time):
     lead_time_offsets_and_latencies = []
+    available_data_loaders = []
     for data_loader in self._data_loaders:
-      available_init_time = data_loader.get_available_init_time(init_time)
+      try:
+        available_init_time = data_loader.get_available_init_time(init_time)
+      except ValueError:  # This data loader has not issued any forecast yet.
+        continue
+      available_data_loaders.append(data_loader)
       lead_time_offset = init_time - available_init_time
       # Break ties by picking the data loader with largest latency -- note that
       # we make latency negative here because we want the smallest
@@ -267,6 +274,8 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
       lead_time_offsets_and_latencies.append(
           (lead_time_offset, -data_loader.latency)
       )
+    if not available_data_loaders:
+      raise ValueError(f'No forecast available at init time {init_time}.')
     lead_time_offsets_and_latencies = np.array(
         lead_time_offsets_and_latencies,
         dtype=[
@@ -278,7 +287,7 @@ class MultipleConstantLatencyWrapper(base.DataLoader):
         lead_time_offsets_and_latencies,
         order=('lead_time_offset', 'neg_latency'),
     )
-    most_recent_data_loader = self._data_loaders[idx[0]]
+    most_recent_data_loader = available_data_loaders[idx[0]]
     logging.info(
         'Init time: %s, data loader latency: %s',
         init_time,
-- 
2.43.0


From 63fda8994d10b181786520eb3f5334fcc8ecfbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 09/36] fix: lead-time interval of sparse observations starts
 at its start

The start of the interval was subtracted from the init time, so an interval
that does not start at zero returned observations outside of it (1h to 6h
returned -1h to 6h).
---
 weatherbenchX/data_loaders/sparse_parquet.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 733b700..794e67e 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -206,13 +206,14 @@ class SparseObservationsFromParquet(base.DataLoader):
   ) -> xr.Dataset:
     """Load data for some valid time.
 
-    If lead_time_slice is given, load data for valid_time +/- lead_time_slice.
-    Otherwise, tolerance and file tolerance are applied around valid_time.
+    If lead_time_slice is given, load data from valid_time +
+    lead_time_slice.start to valid_time + lead_time_slice.stop. Otherwise,
+    tolerance and file tolerance are applied around valid_time.
 
     Args:
       valid_time: Base time to load data for.
-      lead_time_slice: (Optional) If given, load data for valid_time +/-
-        lead_time_slice.
+      lead_time_slice: (Optional) If given, load data for this interval of lead
+        times after valid_time.
 
     Returns:
       xarray.Dataset with data for the given valid_time.
@@ -223,7 +224,7 @@ class SparseObservationsFromParquet(base.DataLoader):
         start_time = valid_time
         stop_time = None
       else:
-        start_time = valid_time - lead_time_slice.start
+        start_time = valid_time + lead_time_slice.start
         stop_time = valid_time + lead_time_slice.stop
 
     else:
-- 
2.43.0


From 91b088ede3b523eea5f34967d5502729e391c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 10/36] fix: drop a mask coordinate once it has been used for
 aggregation

---
 weatherbenchX/aggregation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index 5ab4ebd..627983e 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -350,6 +350,11 @@ class Aggregator:
       # We need to broadcast the mask to the same shape as the stat, so that
       # reductions over it behave the same as reductions over the full stat.
       mask = mask.broadcast_like(stat)
+
+      # The mask has been used, and its values differ between variables, so it
+      # can't be a coordinate of a dataset with the results of all of them.
+      stat = stat.drop_vars('mask', errors='ignore')
+      mask = mask.drop_vars('mask', errors='ignore')
     elif self.skipna:
       mask = ~stat.isnull()
       stat = stat.where(mask, 0)
-- 
2.43.0


From b224c75862a58a91d2b2fa8d165121f8b7a12fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 11/36] fix: extrapolate out of bounds when interpolating to
 gridded targets

With extrapolate_out_of_bounds=True (the default) and two or more dimensions,
targets outside the source domain came out as NaN instead of extrapolated unless
all targets shared their dimensions.
---
 weatherbenchX/interpolations.py | 37 +++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 93db5f1..9d399be 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -86,6 +86,21 @@ def pad_longitude(da: xr.DataArray) -> xr.DataArray:
   return xr.concat([left, da, right], 'longitude')
 
 
+def _target_dims(
+    dim: str, target: Union[xr.DataArray, np.ndarray]
+) -> tuple[Hashable, ...]:
+  """Dimensions that interpolating `dim` to the target results in."""
+  return target.dims if isinstance(target, xr.DataArray) else (dim,)
+
+
+def _is_out_of_bounds(
+    source: xr.DataArray, target: Union[xr.DataArray, np.ndarray]
+) -> bool:
+  target = np.asarray(target)
+  source = np.asarray(source)
+  return bool(np.any((target < source.min()) | (target > source.max())))
+
+
 def interpolate_to_coords(
     da: xr.DataArray,
     dim_args: Mapping[str, Union[xr.DataArray, np.ndarray]],
@@ -94,6 +109,28 @@ def interpolate_to_coords(
 ) -> xr.DataArray:
   """Interpolate to a fixed set of coordinates."""
   if extrapolate_out_of_bounds:
+    if len(dim_args) > 1 and method in ('linear', 'slinear', 'nearest'):
+      # Here xarray interpolates a dimension whose target doesn't share its
+      # dimensions with the other targets on its own, using interp1d or
+      # np.interp, for which fill_value=None does not mean extrapolation. So
+      # these have to be extrapolated separately.
+      separate = {
+          dim: target
+          for dim, target in dim_args.items()
+          if _is_out_of_bounds(da[dim], target)
+          and not any(
+              set(_target_dims(dim, target)) & set(_target_dims(d, t))
+              for d, t in dim_args.items()
+              if d != dim
+          )
+      }
+      if separate:
+        da = da.interp(
+            **separate, method=method, kwargs={'fill_value': 'extrapolate'}
+        )
+        dim_args = {d: t for d, t in dim_args.items() if d not in separate}
+        if not dim_args:
+          return da
     # See xarray documentation for interpolation behaviour.
     # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
     if len(dim_args) > 1:
-- 
2.43.0


From 3e33696213ced8122b9faed34f2ac84455851554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 12/36] fix: keep values of a size-one dimension whose point is
 the target

Linear interpolation along a dimension with a single point gives NaN even where
that point is the one asked for, as with the single init and lead time of a
chunk that data and gridded reference have in common.
---
 weatherbenchX/interpolations.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 9d399be..2817fd4 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -108,6 +108,15 @@ def interpolate_to_coords(
     extrapolate_out_of_bounds: bool = True,
 ) -> xr.DataArray:
   """Interpolate to a fixed set of coordinates."""
+  # A dimension of size one can't be interpolated linearly (this would result in
+  # NaNs), and needn't be if its only point is the target.
+  dim_args = {
+      dim: target
+      for dim, target in dim_args.items()
+      if da.sizes[dim] > 1
+      or _target_dims(dim, target) != (dim,)
+      or not np.array_equal(da[dim], target)
+  }
   if extrapolate_out_of_bounds:
     if len(dim_args) > 1 and method in ('linear', 'slinear', 'nearest'):
       # Here xarray interpolates a dimension whose target doesn't share its
-- 
2.43.0


From 5f72036de6d4f6eb3510265d28efdfccbb193fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 13/36] fix: treat longitude as periodic for every grid and
 target convention

With wrap_longitude, padding assumed increasing longitudes (a decreasing grid
was padded with the wrong columns), and targets given in another convention
(e.g. -100 for a grid from 0 to 360) were extrapolated or missing instead of
being interpolated.
---
 weatherbenchX/interpolations.py | 50 +++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 2817fd4..895ce93 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -79,6 +79,7 @@ class MultipleInterpolation(Interpolation):
 
 def pad_longitude(da: xr.DataArray) -> xr.DataArray:
   """Pad longitude values to allow for wrapped interpolation."""
+  da = da.sortby('longitude')
   left = da.isel(longitude=[-1])
   left = left.assign_coords(longitude=left.longitude.values - 360)
   right = da.isel(longitude=[0])
@@ -101,6 +102,41 @@ def _is_out_of_bounds(
   return bool(np.any((target < source.min()) | (target > source.max())))
 
 
+def interpolate_to_wrapped_coords(
+    da: xr.DataArray,
+    dim_args: Mapping[str, Union[xr.DataArray, np.ndarray]],
+    method: str,
+    extrapolate_out_of_bounds: bool = True,
+) -> xr.DataArray:
+  """As interpolate_to_coords, for the result of pad_longitude."""
+  target = dim_args.get('longitude')
+  if target is None or not _is_out_of_bounds(da.longitude, target):
+    return interpolate_to_coords(
+        da, dim_args, method, extrapolate_out_of_bounds
+    )
+  # Move targets given in another longitude convention into the padded range.
+  lon_min, lon_max = da.longitude.values.min(), da.longitude.values.max()
+  original = np.asarray(target)
+  wrapped = np.where(
+      (original < lon_min) | (original > lon_max),
+      (original - lon_min) % 360 + lon_min,
+      original,
+  )
+  if isinstance(target, xr.DataArray):
+    wrapped = target.copy(data=wrapped)
+    if 'longitude' in target.dims:
+      wrapped = wrapped.assign_coords(longitude=wrapped.values)
+  out = interpolate_to_coords(
+      da,
+      {**dim_args, 'longitude': wrapped},
+      method,
+      extrapolate_out_of_bounds,
+  )
+  return out.assign_coords(
+      longitude=(_target_dims('longitude', target), original)
+  )
+
+
 def interpolate_to_coords(
     da: xr.DataArray,
     dim_args: Mapping[str, Union[xr.DataArray, np.ndarray]],
@@ -248,7 +284,12 @@ class InterpolateToFixedCoords(Interpolation):
       # TODO(srasp): Raise error if this isn't True but seems like it should be.
       da = pad_longitude(da)
 
-    interpolated_da = interpolate_to_coords(
+    interpolate = (
+        interpolate_to_wrapped_coords
+        if self._wrap_longitude
+        else interpolate_to_coords
+    )
+    interpolated_da = interpolate(
         da,
         self._coords,
         self._method,
@@ -327,7 +368,12 @@ class InterpolateToReferenceCoords(Interpolation):
 
     dim_args = {dim: reference[dim] for dim in dims}
 
-    da_like_reference = interpolate_to_coords(
+    interpolate = (
+        interpolate_to_wrapped_coords
+        if self._wrap_longitude
+        else interpolate_to_coords
+    )
+    da_like_reference = interpolate(
         da,
         dim_args,
         self._method,
-- 
2.43.0


From 54791e4909b4ca5f1f3a5448ae4d8ec34fc7fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 14/36] fix: clip reference coordinates in any order

clip_reference_coords selected nothing, and the result was silently empty, when
the coordinate of the reference is in decreasing order.
---
 weatherbenchX/interpolations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 895ce93..6f194ae 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -348,9 +348,10 @@ class InterpolateToReferenceCoords(Interpolation):
 
     if self._clip_reference_coords is not None:
       for coord in self._clip_reference_coords:
-        reference = reference.sel(
-            {coord: slice(da[coord].min(), da[coord].max())}
+        in_extent = (reference[coord] >= da[coord].values.min()) & (
+            reference[coord] <= da[coord].values.max()
         )
+        reference = reference.isel({coord: in_extent.values})
 
     # If dims not explicit, interpolate all dims that have a corresponding
     # coordinate in the reference.
-- 
2.43.0


From ce2f13122604c18263c8d84f6c8fbf9444c13290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:12 +0000
Subject: [PATCH 15/36] fix: pad longitude only when it is interpolated

With wrap_longitude but no interpolation along longitude, the result had the
padding columns as additional longitudes.
---
 weatherbenchX/interpolations.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 6f194ae..c68def1 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -280,7 +280,7 @@ class InterpolateToFixedCoords(Interpolation):
       reference: Optional[xr.DataArray] = None,
   ) -> xr.DataArray:
 
-    if self._wrap_longitude:
+    if self._wrap_longitude and 'longitude' in self._coords:
       # TODO(srasp): Raise error if this isn't True but seems like it should be.
       da = pad_longitude(da)
 
@@ -343,7 +343,14 @@ class InterpolateToReferenceCoords(Interpolation):
       reference: xr.DataArray,  # pytype: disable=signature-mismatch
   ) -> xr.DataArray:
 
-    if self._wrap_longitude:
+    # If dims not explicit, interpolate all dims that have a corresponding
+    # coordinate in the reference.
+    if self._dims is None:
+      dims = [d for d in da.dims if d in reference.coords]
+    else:
+      dims = self._dims
+
+    if self._wrap_longitude and 'longitude' in dims:
       da = pad_longitude(da)
 
     if self._clip_reference_coords is not None:
@@ -353,13 +360,6 @@ class InterpolateToReferenceCoords(Interpolation):
         )
         reference = reference.isel({coord: in_extent.values})
 
-    # If dims not explicit, interpolate all dims that have a corresponding
-    # coordinate in the reference.
-    if self._dims is None:
-      dims = [d for d in da.dims if d in reference.coords]
-    else:
-      dims = self._dims
-
     # Catch case where reference doesn't contain any data.
     if reference.size == 0:
       # Need to make sure to retain any dimensions that are not being
-- 
2.43.0


From eac2f02f6574b3b4ea5fcf065236a08edd501bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 16/36] fix: CRPSEnsembleDistance passes skipna_ensemble to all
 of its statistics

---
 weatherbenchX/metrics/probabilistic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index ab8e303..92084a7 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -641,7 +641,10 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
   @property
   def statistics(self) -> Mapping[str, base.Statistic]:
     return {
-        'CRPSSkill': CRPSSkill(ensemble_dim=self._ensemble_dim),
+        'CRPSSkill': CRPSSkill(
+            ensemble_dim=self._ensemble_dim,
+            skipna_ensemble=self._skipna_ensemble,
+        ),
         'CRPSSpread': CRPSSpread(
             ensemble_dim=self._ensemble_dim,
             use_sort=self._use_sort,
@@ -653,6 +656,7 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
             use_sort=self._use_sort,
             fair=self._fair,
             which='targets',
+            skipna_ensemble=self._skipna_ensemble,
         ),
     }
 
-- 
2.43.0


From 043c344d131f8bee43a1be907c474dd7b6c1c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 17/36] fix: RankHistogram does not count missing targets or
 members as a rank

---
 weatherbenchX/metrics/probabilistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 92084a7..6b68db6 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -1233,5 +1233,8 @@ class RankHistogram(base.PerVariableStatistic):
     categories = xr.DataArray(np.arange(num_bins), dims=['rank'])
     categories.coords['rank'] = categories
 
+    # The rank is unknown where the target or any of the members is missing.
+    missing = targets.isnull() | predictions.isnull().any(self._ensemble_dim)
+
     # Transform to floating point for the subsequent aggregation.
-    return (ranks == categories).astype(np.float32)
+    return (ranks == categories).astype(np.float32).where(~missing)
-- 
2.43.0


From dfa126266091d8ddcf8e4147731adfdd2b5bd8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 18/36] fix: ranked probability scores are missing where inputs
 are missing for all bins

---
 weatherbenchX/metrics/categorical.py   | 3 ++-
 weatherbenchX/metrics/probabilistic.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index a7b472f..bf4bb86 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -337,7 +337,8 @@ class RankedProbabilityScore(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return ((predictions - targets) ** 2).sum(self._bin_dim)
+    # Undefined where predictions or targets are missing for all bins.
+    return ((predictions - targets) ** 2).sum(self._bin_dim, min_count=1)
 
 
 # Metrics
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 6b68db6..305f481 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -482,8 +482,11 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         'tmp'
     ]
 
-    # RPS is the sum of squared errors over the bin dimension.
-    return cdf_mse.sum(self._bin_dim, skipna=self._skipna_ensemble)
+    # RPS is the sum of squared errors over the bin dimension, undefined where
+    # it is missing for all bins.
+    return cdf_mse.sum(
+        self._bin_dim, skipna=self._skipna_ensemble, min_count=1
+    )
 
 
 ### Metrics
-- 
2.43.0


From 81faea8af1956a87b4e1d19e0db49d9e2cd770a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 19/36] fix: neighborhood averaging assigns the averaged mask
 by dimension name

---
 weatherbenchX/metrics/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index feb2780..7af2f8e 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -74,8 +74,8 @@ def neighborhood_averaging_for_single_size(
     )
     # This should be new_mask == 1 but there are some rounding errors in
     # convolve2d, so that this fails. Therefore, we use isclose.
-    new_mask = np.isclose(new_mask, True)
-    out.coords['mask'][:] = new_mask.astype(bool)
+    # The dimensions of the mask may be in a different order.
+    out.coords['mask'] = new_mask.copy(data=np.isclose(new_mask, True))
   return out
 
 
-- 
2.43.0


From 92723130f055a9f099487f6aebff79f500fc6193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:32 +0000
Subject: [PATCH 20/36] fix: neighborhood averaging of size 1 returns fractions
 for boolean inputs

---
 weatherbenchX/metrics/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 7af2f8e..ff94d97 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -33,7 +33,7 @@ def convolve2d_wrap_longitude(
   # harmonics space, which would be faster.
   """Convolve2d with optional wrap around longitude."""
   if neighborhood_size == 1:
-    return x
+    return x.astype(np.float32)
   if neighborhood_size % 2 != 1:
     raise ValueError('neighborhood_size must be odd.')
   half_n = (neighborhood_size - 1) // 2
-- 
2.43.0


From 3d67e94a28205c28648e82f18856646cb5462685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 21/36] fix: FSS denominators use the neighborhood-averaged
 mask like the numerator

---
 weatherbenchX/metrics/spatial.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index ff94d97..940b9cb 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -159,6 +159,11 @@ class SquaredPredictionFraction(base.PerVariableStatistic):
     predictions = neighborhood_averaging(
         predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
+    if 'mask' in targets.coords:
+      # Same mask as in the other statistics.
+      targets = neighborhood_averaging(
+          targets, self.neighborhood_size_in_pixels, self.wrap_longitude
+      )
     return predictions**2 + xr.zeros_like(targets)
 
 
@@ -182,6 +187,11 @@ class SquaredTargetFraction(base.PerVariableStatistic):
     targets = neighborhood_averaging(
         targets, self.neighborhood_size_in_pixels, self.wrap_longitude
     )
+    if 'mask' in predictions.coords:
+      # Same mask as in the other statistics.
+      predictions = neighborhood_averaging(
+          predictions, self.neighborhood_size_in_pixels, self.wrap_longitude
+      )
     return targets**2 + xr.zeros_like(predictions)
 
 
-- 
2.43.0


From e2059d49d127c72816eb5c504ef6fbaad3092e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 22/36] fix: interval metrics are missing, not False, where an
 input is missing

---
 weatherbenchX/metrics/categorical.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index bf4bb86..60cc552 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -744,7 +744,9 @@ class Confident(base.PerVariableStatisticWithClimatology):
         quantile=self._spread_high
     ) - aligned_climatology.sel(quantile=self._spread_low)
 
-    return predictions_spread < self._confidence_threshold * climatology_spread
+    threshold = self._confidence_threshold * climatology_spread
+    missing = predictions_spread.isnull() | threshold.isnull()
+    return (predictions_spread < threshold).astype(np.float32).where(~missing)
 
 
 class Covered(base.PerVariableStatistic):
@@ -782,7 +784,9 @@ class Covered(base.PerVariableStatistic):
     predictions_high = predictions.quantile(
         self._interval_high, dim=self._ensemble_dim
     )
-    return (predictions_low <= targets) & (targets <= predictions_high)
+    covered = (predictions_low <= targets) & (targets <= predictions_high)
+    missing = predictions_low.isnull() | targets.isnull()
+    return covered.astype(np.float32).where(~missing)
 
 
 class JaccardDistant(base.PerVariableStatisticWithClimatology):
@@ -860,7 +864,11 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     )
 
     jaccard_distance = 1 - jaccard_index
-    return jaccard_distance > self._threshold
+    return (
+        (jaccard_distance > self._threshold)
+        .astype(np.float32)
+        .where(union_length.notnull())
+    )
 
 
 class Opportunism(base.PerVariableMetric):
-- 
2.43.0


From 23b3fac8a0bb34e2e75bb3bb0bbf1553f525d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 23/36] fix: SEEPS is missing where the wet threshold is
 missing

---
 weatherbenchX/metrics/categorical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 60cc552..ce8d8ef 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -284,8 +284,10 @@ class SEEPS(base.Statistic):
     # Take dot product
     result = xr.dot(out, scoring_matrix, dims=('forecast_cat', 'truth_cat'))
 
-    # Mask out p1 thresholds
+    # Mask out p1 thresholds and missing wet thresholds, without which light and
+    # heavy precipitation cannot be told apart.
     mask = (p1 >= min_p1) & (p1 <= max_p1)
+    mask = mask & wet_threshold_for_valid_time.notnull()
     result = result.where(mask, np.nan)
 
     # Add NaN mask. If mask coordinate already exists, combine them.
-- 
2.43.0


From 2e5d67e40c8dd6c9dc65776cf9dad57d6df28174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:49 +0000
Subject: [PATCH 24/36] fix: Jaccard index of two different single points is 0

---
 weatherbenchX/metrics/categorical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index ce8d8ef..819aee9 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -856,13 +856,14 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     ) - intersection_length
 
     # We need to handle the case where union_length is 0. This occurs if both
-    # intervals are identical single points (e.g., [5, 5] and [5, 5]). In this
-    # specific case, the Jaccard Index should be 1 (perfect overlap). Note that
-    # in this case the intersection_length will also be 0.
+    # intervals are single points (e.g., [5, 5] and [5, 5]). In this specific
+    # case, the Jaccard Index should be 1 (perfect overlap) if the points are
+    # identical and 0 otherwise. Note that in this case the intersection_length
+    # will also be 0.
     jaccard_index = xr.where(
         union_length > 0,
         intersection_length / union_length,
-        1.0
+        (predictions_low == climatology_low).astype(np.float32),
     )
 
     jaccard_distance = 1 - jaccard_index
-- 
2.43.0


From f5de0d631889751a05e6947e429c3bc8a3002f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:49 +0000
Subject: [PATCH 25/36] fix: combine statistics that carry time coordinates on
 joined dimensions

---
 weatherbenchX/aggregation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index 627983e..bb56190 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -21,6 +21,7 @@ from weatherbenchX import binning
 from weatherbenchX import weighting
 from weatherbenchX import xarray_tree
 from weatherbenchX.metrics import base as metrics_base
+import numpy as np
 import xarray as xr
 
 
@@ -50,7 +51,14 @@ def combining_sum(data_arrays: Sequence[xr.DataArray]) -> xr.DataArray:
   Returns:
     The results as a DataArray.
   """
-  return sum(xr.align(*data_arrays, join='outer', fill_value=0))
+  fill_value = {}
+  for da in data_arrays:
+    for name, coord in da.coords.items():
+      # Times (e.g. a valid_time coordinate) cannot be filled with zero.
+      is_time = coord.dtype.kind in 'mM'
+      fill_value[name] = np.array('NaT', coord.dtype)[()] if is_time else 0
+    fill_value[da.name] = 0
+  return sum(xr.align(*data_arrays, join='outer', fill_value=fill_value))
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 4c85a10cd2e2a4018d49ca0df5190a0654388a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 26/36] fix: accept tuples of thresholds and shifts

---
 weatherbenchX/metrics/deterministic.py |  3 +++
 weatherbenchX/metrics/wrappers.py      | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index b1ea7f5..e4847fa 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -298,6 +298,9 @@ class ErrorExceedance(base.PerVariableStatistic):
         `error_exceedance_thresholds`.
     """
     if isinstance(thresholds, Sequence):
+      # Need to convert to a list because xarray does not interpret tuples
+      # correctly.
+      thresholds = list(thresholds)
       thresholds = xr.DataArray(
           thresholds,
           dims='error_exceedance_thresholds',
diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 1583ba6..ae6e1cc 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -80,6 +80,9 @@ def binarize_thresholds(
     )
     threshold = thresholds
   else:
+    # Need to convert to a list because xarray does not interpret tuples
+    # correctly.
+    thresholds = list(thresholds)
     threshold = xr.DataArray(
         thresholds, dims=[threshold_dim], coords={threshold_dim: thresholds}
     )
@@ -654,10 +657,13 @@ class ShiftAlongNewDim(InputTransform):
         )
       shifts = self._shift_value[da.name]
     else:
+      # Need to convert to a list because xarray does not interpret tuples
+      # correctly.
+      shift_values = list(self._shift_value)
       shifts = xr.DataArray(
-          self._shift_value,
+          shift_values,
           dims=[self._shift_dim],
-          coords={self._shift_dim: self._shift_value},
+          coords={self._shift_dim: shift_values},
       )
 
     return da + shifts
-- 
2.43.0


From ec045f5a4a79e79ca73e2059b2f899ee4d3c7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 27/36] fix: keep variable names through transforms

---
 weatherbenchX/metrics/wrappers.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index ae6e1cc..f66a76e 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -801,16 +801,15 @@ class WrappedStatistic(base.Statistic):
       predictions: Mapping[Hashable, xr.DataArray],
       targets: Mapping[Hashable, xr.DataArray],
   ) -> Mapping[Hashable, xr.DataArray]:
+    def transform_fn(da: xr.DataArray) -> xr.DataArray:
+      # Arithmetic with unnamed arrays drops the name of the variable, by which
+      # later transforms may look up e.g. thresholds.
+      return self.transform.transform_fn(da).rename(da.name)
+
     if self.transform.which in ('predictions', 'both'):
-      predictions = xarray_tree.map_structure(
-          self.transform.transform_fn,
-          predictions,
-      )
+      predictions = xarray_tree.map_structure(transform_fn, predictions)
     if self.transform.which in ('targets', 'both'):
-      targets = xarray_tree.map_structure(
-          self.transform.transform_fn,
-          targets,
-      )
+      targets = xarray_tree.map_structure(transform_fn, targets)
     return self.statistic.compute(predictions, targets)
 
 
-- 
2.43.0


From 330c632b44fd2bc8284114db0291ba2e90f9e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 28/36] fix: distinct statistic names for distinct variable
 subsets

---
 weatherbenchX/metrics/wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index f66a76e..e7e6c45 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -896,7 +896,8 @@ class SubselectVariablesForStatistic(base.Statistic):
   def unique_name(self) -> str:
     # Make sure to change unique name in case there is another, non-subsetted
     # statistic with the same name.
-    variables_str = '_'.join(self.variables)
+    # The separator must not make e.g. ['a', 'b'] the same as ['a_b'].
+    variables_str = ','.join(self.variables)
     return f'{self.statistic.unique_name}_{variables_str}'
 
   def compute(
-- 
2.43.0


From 00c5589e3b1e0ff4c8281f1d54d40397625ca17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:52 +0000
Subject: [PATCH 29/36] fix: zero-fill statistics of a variable named like a
 time coordinate

---
 weatherbenchX/aggregation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/aggregation.py b/weatherbenchX/aggregation.py
index bb56190..489f604 100644
--- a/weatherbenchX/aggregation.py
+++ b/weatherbenchX/aggregation.py
@@ -57,7 +57,8 @@ def combining_sum(data_arrays: Sequence[xr.DataArray]) -> xr.DataArray:
       # Times (e.g. a valid_time coordinate) cannot be filled with zero.
       is_time = coord.dtype.kind in 'mM'
       fill_value[name] = np.array('NaT', coord.dtype)[()] if is_time else 0
-    fill_value[da.name] = 0
+  # After all coordinates, as an array may have the name of one of them.
+  fill_value.update({da.name: 0 for da in data_arrays})
   return sum(xr.align(*data_arrays, join='outer', fill_value=fill_value))
 
 
-- 
2.43.0


From 8da79c61a5b569eb424342826762f9e6fdae4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:08 +0000
Subject: [PATCH 30/36] fix: store unaggregated statistics for an interval of
 lead times

---
 weatherbenchX/beam_pipeline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index 891b439..d29fcde 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -587,9 +587,9 @@ def _get_template_dataset(
     template = template.isel(lead_time=0, drop=True)
     lead_times = times.lead_times
     if isinstance(lead_times, slice):
-      lead_times = np.arange(
-          lead_times.start, lead_times.stop + lead_times.step, lead_times.step
-      )
+      # Intervals of lead times are not chunked, so that the first chunk has
+      # all of the lead times that the loaders found in the interval.
+      lead_times = first_chunk.lead_time.values
     for k in vars_to_expand:
       template[k] = template[k].expand_dims(lead_time=lead_times)
 
-- 
2.43.0


From aea591fb52b40bf0d7f95a957fd78ebb8d3b77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:08 +0000
Subject: [PATCH 31/36] fix: store unaggregated statistics that carry
 coordinates along time

---
 weatherbenchX/beam_pipeline.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index d29fcde..b9eae38 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -485,6 +485,28 @@ def define_pipeline(
     )
 
 
+def _drop_time_dependent_coords(stat: xr.DataArray) -> xr.DataArray:
+  """Drops coordinates along init_time/lead_time other than the two themselves.
+
+  The coordinates of the output come from a template based on the first chunk,
+  so coordinates whose values differ between chunks (e.g. the dayofyear that
+  statistics take from a climatology) can't be written. The template adds
+  valid_time itself. The mask is kept, so that it can be rejected.
+
+  Args:
+    stat: A statistic.
+
+  Returns:
+    The statistic without these coordinates.
+  """
+  return stat.drop_vars([
+      name
+      for name, coord in stat.coords.items()
+      if name not in ('init_time', 'lead_time', 'mask')
+      and not {'init_time', 'lead_time'}.isdisjoint(coord.dims)
+  ])
+
+
 class ComputeAndFormatStatistics(beam.DoFn):
   """Computes statistics and formats them for xarray-beam."""
 
@@ -523,7 +545,7 @@ class ComputeAndFormatStatistics(beam.DoFn):
       for var_name, da in var_dict.items():
         name = f'{stat_name}.{var_name}'
 
-        chunk_ds = xr.Dataset({name: da})
+        chunk_ds = xr.Dataset({name: _drop_time_dependent_coords(da)})
 
         dim_order = []
         offsets = {}
@@ -570,7 +592,7 @@ def _get_template_dataset(
   first_chunk = xr.Dataset()
   for stat_name, var_dict in statistics_dict.items():
     for var_name, da in var_dict.items():
-      first_chunk[f'{stat_name}.{var_name}'] = da
+      first_chunk[f'{stat_name}.{var_name}'] = _drop_time_dependent_coords(da)
 
   # Convert the first chunk into a template, with the proper init_time and
   # lead_time dimensions
-- 
2.43.0


From 255f864411ebe10bf7497aac98d46700c2034f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 32/36] fix: rechunk unaggregated statistics with time chunks
 longer than the axis

TimeChunks accepts chunk sizes longer than the axis they divide, but the
unaggregated pipeline handed them to xarray_beam's rechunking unclipped, which
rejects them as soon as any other dimension has to be rechunked.
---
 weatherbenchX/beam_pipeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/beam_pipeline.py b/weatherbenchX/beam_pipeline.py
index b9eae38..f1ec049 100644
--- a/weatherbenchX/beam_pipeline.py
+++ b/weatherbenchX/beam_pipeline.py
@@ -666,9 +666,9 @@ def define_unaggregated_pipeline(
   stat_chunks = {}
   for dim, size in dim_sizes.items():
     if dim == 'init_time':
-      stat_chunks[dim] = times.init_time_chunk_size or -1
+      stat_chunks[dim] = min(times.init_time_chunk_size or size, size)
     elif dim == 'lead_time':
-      stat_chunks[dim] = times.lead_time_chunk_size or -1
+      stat_chunks[dim] = min(times.lead_time_chunk_size or size, size)
     else:
       stat_chunks[dim] = size  # unchunked
 
-- 
2.43.0


From acfcb94a75a78145d814716362b9edd9e4b97280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 33/36] fix: return DataArrays from apply_to_slices for named
 results

xr.combine_by_coords returns a Dataset for named DataArrays, so that the
resampled values, intervals and p-values of StationaryBootstrap were Datasets
whenever the statistics come from named variables (as they do in practice).
---
 weatherbenchX/statistical_inference/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/utils.py b/weatherbenchX/statistical_inference/utils.py
index a32ed90..381e1ac 100644
--- a/weatherbenchX/statistical_inference/utils.py
+++ b/weatherbenchX/statistical_inference/utils.py
@@ -134,5 +134,9 @@ def apply_to_slices(
     arg_slices = xarray_tree.map_structure(slice_arg, args)
     results.append(func(*arg_slices))
 
-  return xarray_tree.map_structure(
-      lambda *args: xr.combine_by_coords(args), *results)
+  def combine(*arrays: xr.DataArray) -> xr.DataArray:
+    # combine_by_coords returns a Dataset when given named DataArrays.
+    combined = xr.combine_by_coords([array.rename(None) for array in arrays])
+    return combined.rename(arrays[0].name)
+
+  return xarray_tree.map_structure(combine, *results)
-- 
2.43.0


From 3778619c6402ba76bd6bf72de9d18e399e5972e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 34/36] fix: propagate missing statistics to stationary
 bootstrap replicates

They were skipped in the sum of the statistics but their weights were still
counted, biasing the replicates towards zero. The other methods, and the point
estimates, propagate them.
---
 weatherbenchX/statistical_inference/bootstrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index efc00b0..04f5516 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -544,8 +544,10 @@ class StationaryBootstrap(Bootstrap):
       # Note the dimensions of bootstrap_indices (experimental_unit_dim,
       # _REPLICATE_DIM) that we're selecting, will be present in the result of
       # the isel call.
+      # Missing values must not be skipped, since this would leave out the
+      # statistic of a data point whose weight is still included.
       return data.isel({self._experimental_unit_dim: bootstrap_indices}).sum(
-          self._experimental_unit_dim)
+          self._experimental_unit_dim, skipna=False)
     sum_weighted_stats, sum_weights = xarray_tree.map_structure(
         sum_of_resampled, (sum_weighted_stats, sum_weights))
     mean_stats = xarray_tree.map_structure(
-- 
2.43.0


From aa282159b9a79b4144e794776b5704d643279cc1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 35/36] fix: bootstrap p-value of a null value tied with
 replicates

A model compared to itself, whose differences are all zero, had a p-value of
0 (significantly different from itself): with all replicates equal to the
null value the empirical CDF was taken as 1.
---
 weatherbenchX/statistical_inference/bootstrap.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index 04f5516..538f22d 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -115,8 +115,13 @@ class Bootstrap(base.StatisticalInferenceMethod):
         return np.nan
       data = np.sort(resampled)
       q = np.linspace(0, 1, data.shape[0])
-      empirical_cdf_at_null = np.interp(null_value, data, q)
-      return 2 * min(empirical_cdf_at_null, 1 - empirical_cdf_at_null)
+      # These differ if some resampled values are equal to the null value, as
+      # e.g. all of them are if a model is compared to itself.
+      max_empirical_cdf_at_null = np.interp(null_value, data, q)
+      min_empirical_cdf_at_null = 1 - np.interp(-null_value, -data[::-1], q)
+      return min(
+          1.0, 2 * max_empirical_cdf_at_null, 2 * (1 - min_empirical_cdf_at_null)
+      )
 
     def p_value(resampled: xr.DataArray) -> xr.DataArray:
       return xr.apply_ufunc(
-- 
2.43.0


From d48ab4d27967f54ad81cb4d1065889904dc0724b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:04:00 +0000
Subject: [PATCH 36/36] fix: distinct statistic names for SEEPS of distinct
 variables

SEEPS of ['a', 'b_c'] and of ['a_b', 'c'] shared a name, so one of them got
the results of the other if computed together.
---
 weatherbenchX/metrics/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 819aee9..5a95e90 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -175,7 +175,7 @@ class SEEPS(base.Statistic):
   @property
   def unique_name(self) -> str:
     suffix = (
-        '_'.join(self._variables)
+        ','.join(self._variables)
         + '_dry_threshold_mm_'
         + '_'.join([str(s) for s in self._dry_threshold_mm])
         + '_min_p1_'
-- 
2.43.0

