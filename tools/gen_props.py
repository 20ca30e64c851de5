"""Writes /verif/properties.jsonl (kept as one readable source)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
  a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
  if observe: a["observe_at"] = observe
  if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
W = "weatherbenchX/"

prop("C01", "Pipeline results do not depend on chunking, schedule or combine order",
 "The metric values and the saved aggregation state that the distributed evaluation pipeline writes equal those obtained by evaluating all initialisation and lead times in one piece in memory. This holds for every chunk size, every order and grouping in which partial results are combined (empty partials and retried work included), every choice of averaged dimensions, and for lead times given as exact values or as an interval. When initialisation or lead time is not averaged, every chunk's values end up exactly once under their own coordinate.",
 ["schedules", "configurations", "inputs"], "All chunkings, all reduce/keep choices for init_time and lead_time, all combine trees and orders incl. empty accumulators, all metric/loader combinations.",
 "The existing tests run the DirectRunner on a handful of chunkings; the runner's combine tree there is fixed and small, so order/grouping/empty-accumulator faults and most chunk/dimension combinations are never reached.",
 [W+"beam_pipeline.py", W+"beam_utils.py", W+"aggregation.py"],
 [("CombiningSum CombineFn", "beam_utils.CombiningSum"), ("define_pipeline", "beam_pipeline.define_pipeline"), ("concat of kept dims", "beam_pipeline.ConcatPerStatisticPerVariable")],
 ["netCDF metrics file", "netCDF aggregation state file", "CombineFn accumulators"],
 [("accumulator", "partial sums per statistic/variable", "beam_utils.CombiningSum"), ("bundle keys", "statistic, variable, kind, offsets", "beam_pipeline")])

prop("C02", "Aggregation states add like a commutative monoid, losing and inventing nothing",
 "Adding aggregation states is associative and commutative, has the empty state as identity, and never changes its operands. Where two states do not share coordinate labels the sum covers the union of labels, with a missing contribution counted as zero in both the weighted sum and the weight. Summing the result further over a kept dimension gives the same as having averaged over that dimension from the start.",
 ["inputs", "histories"], "All finite sequences of states (including empty ones, disjoint/overlapping labels, NaN contributions) and all orders and groupings of the additions.",
 "Tests add two or three fixed states; algebraic laws and label-union behaviour quantify over all states, orders and groupings.",
 [W+"aggregation.py", W+"xarray_tree.py"],
 [("zero-filled outer-join sum", "aggregation.combining_sum"), ("AggregationState.sum / __add__ / zero", "aggregation.AggregationState"), ("sum_along_dims", "aggregation.AggregationState.sum_along_dims")],
 ["AggregationState attributes", "mean_statistics()"])

prop("C03", "Aggregation computes exact weighted, binned sums of statistics and weights",
 "For every statistic and variable, the aggregate holds the sum over the averaged dimensions of statistic x all weights x all bin memberships, and the matching sum of weights x bin memberships, so that the mean in each bin is the weighted mean of exactly the members of that bin; this includes statistics with yes/no values. A bin with no members has weight zero and an undefined mean, and several binnings combine to every combination of their bins. A variable lacking an averaged or binned dimension is left out of both sums together, without affecting other variables.",
 ["inputs", "configurations"], "All statistic arrays and dtypes, sets of reduce dims, lists of weightings and binnings, with variables of differing dimensions.",
 "Tests use one or two fixed weight/bin setups with random data; interactions of several weightings/binnings, empty bins, non-float statistics and variables with missing dimensions are not enumerated.",
 [W+"aggregation.py", W+"binning.py", W+"weighting.py"],
 [("Aggregator.aggregation_fn", "aggregation.Aggregator"), ("aggregate_statistics", "aggregation.Aggregator"), ("mean_statistics", "aggregation.AggregationState")],
 ["AggregationState attributes"])

prop("C04", "Masked or skipped values never leak in; unmasked NaNs are never hidden",
 "With masking on, positions whose mask is false contribute nothing to the weighted sum or the weight, even when they hold NaN or infinity; every unmasked position does contribute. Without skipping NaNs, any unmasked NaN belonging to an aggregate makes that aggregate NaN instead of being silently dropped; with skipping, exactly the non-NaN positions contribute to sum and weight. The mask that loaders add on request is true exactly where the data as finally loaded is not missing, and is carried with the data through statistics to the aggregation, so that masked positions of either input are left out as above.",
 ["inputs", "configurations"], "All arrays with NaN/inf patterns, all masks (full or broadcast), masked/skipna settings, and pipelines from loader to aggregate.",
 "Tests check single NaN positions on one shape; leak/propagation quantifies over all patterns and mask/skipna/reduce combinations.",
 [W+"aggregation.py", W+"data_loaders/base.py", W+"metrics/base.py"],
 [("Aggregator.aggregate_stat_var", "aggregation.Aggregator"), ("add_nan_mask / mask coordinate", "data_loaders/base.py")],
 ["AggregationState attributes", "loaded chunk mask coordinate"])

prop("C05", "Metrics evaluated together give the same values as evaluated alone",
 "Evaluating any collection of metrics in one pass gives each metric exactly the values it gets when evaluated on its own with the same data, regardless of the other metrics, their parameters and their order. In particular two metrics that differ only in a parameter that affects their result (threshold, ensemble dimension, missing-value policy, climatology, wrapped inputs, ...) never share an intermediate statistic. Metric and variable names in the result are exactly those requested.",
 ["configurations", "inputs"], "All finite collections and orders of metric instances over all parameter values.",
 "Sharing is keyed on a name; tests exercise one or two pairs of metrics, while collisions are a property of all pairs of parameterisations.",
 [W+"metrics/base.py", W+"metrics/deterministic.py", W+"metrics/probabilistic.py", W+"metrics/categorical.py", W+"metrics/spatial.py", W+"metrics/wrappers.py"],
 [("statistic unique_name", "metrics/base.py Statistic.unique_name and overrides"), ("unique statistic deduplication", "metrics/base.py compute_unique_statistics_for_all_metrics")],
 ["metric_values dataset"])

prop("C06", "Time chunks partition the requested times exactly once, in order",
 "For any initialisation times, lead times (explicit or an interval) and chunk sizes, the chunks cover every (initialisation, lead) pair exactly once, in order, initialisation-major, each chunk holding at most the requested number of times and only the last one fewer. Length, indexing, iteration and iteration with offsets agree with each other, and a chunk's offsets are the positions of its first times in the full arrays. Ill-formed requests (negative sizes, open or stepped intervals, chunked intervals, out-of-range indices) are rejected instead of silently evaluating something else.",
 ["inputs", "configurations"], "All lengths of the two time axes, all chunk sizes including none/zero/larger than the axis, interval and explicit leads, all indices.",
 "Tests show two examples; the partition law and agreement of the four access paths quantify over all sizes.",
 [W+"time_chunks.py"], [("TimeChunks.__init__/__iter__/__len__/__getitem__/iter_with_chunk_offsets", "time_chunks.TimeChunks")],
 ["chunks, offsets"])

prop("C07", "Gridded loaders return exactly the requested times with the right data",
 "A gridded loader asked for initialisation times and lead times returns data labelled with exactly those times in that order, and every value is the source value for that pair: forecasts by (initialisation, lead), targets by valid time = initialisation + lead, climatology and climatology ensembles by day-of-year and hour of the valid time (leap days included), persistence by the initialisation time. Variable selection and renaming, coordinate values added, and interpolation/computation hooks apply in the documented order, and repeating or interleaving requests never changes an answer. A request for times absent from the source fails or yields missing values, never the data of another time.",
 ["inputs", "histories", "configurations"], "All request sequences over all alignments of init/lead/source times, including leap years, year boundaries and non-contiguous, unsorted or repeated requests.",
 "Tests load one contiguous chunk per loader; alignment is a statement over all (init, lead, source calendar) combinations and histories of requests.",
 [W+"data_loaders/xarray_loaders.py", W+"data_loaders/base.py"],
 [("PredictionsFromXarray, TargetsFromXarray, ClimatologyFromXarray, PersistenceFromXarray, ProbabilisticClimatologyFromXarray", "data_loaders/xarray_loaders.py"), ("load_chunk step order", "data_loaders/base.py")],
 ["load_chunk result"])

prop("C08", "Latency-aware loading serves the newest issued forecast, never a future one",
 "For each requested initialisation time and exact lead times the latency-aware loader serves the most recent forecast whose nominal initialisation time plus its latency is not after the requested time, taken at the lead that reaches the requested valid time, and labels the result with the requested times. With several sources it serves, per request, the source whose newest available forecast is most recent (ties going to the source documented to win), ignoring sources with nothing available yet. No request ever returns data issued after the requested time, and a request nothing can answer fails instead of answering with other data.",
 ["inputs", "histories", "configurations"], "All sets of issue times, latencies, numbers of sources, request times and exact lead times, in any order of requests.",
 "Tests use one regular issue schedule; no-look-ahead and maximality quantify over all schedules and latencies.",
 [W+"data_loaders/latency_wrappers.py"],
 [("ConstantLatencyWrapper", "data_loaders/latency_wrappers.py"), ("MultipleConstantLatencyWrapper", "data_loaders/latency_wrappers.py"), ("XarrayConstantLatencyWrapper", "data_loaders/latency_wrappers.py")],
 ["load_chunk result"],
 [("available init times", "issue times of each source", "latency wrapper constructors")])

prop("C09", "Sparse observations are selected exactly once with the right times",
 "For each requested initialisation time, an observation is returned exactly when its valid time falls in the requested lead interval (or matches a requested exact lead, within the configured tolerance), exactly once, under the initialisation time and lead it was matched to, with its own coordinates and values. Observations outside the request, or removed by the configured missing-value, duplicate or variable rules, are never returned, and none is lost because it lies in another file, day, month or year than the initialisation time. Chunked requests together return the same observations as one request.",
 ["inputs", "configurations"], "All observation tables (times, stations, variables, duplicates, missing values), file partitionings, request windows, tolerances and boundary settings.",
 "Tests use small fixed tables within one partition; window boundaries, partition crossings and exactly-once over chunk boundaries quantify over all tables.",
 [W+"data_loaders/sparse_parquet.py"],
 [("SparseObservationsFromParquet", "data_loaders/sparse_parquet.py"), ("file partition selection", "data_loaders/sparse_parquet.py")],
 ["load_chunk result"])

prop("C10", "A result file is always absent, the old version or a complete new version",
 "At every instant, readers of an output path see either nothing, the previous complete contents or the complete contents of some writer, never a mixture or a prefix, even when several workers write the same path concurrently or a worker fails or is killed at any point. A write that reports failure leaves the previous contents in place and leaves no temporary file behind; a write that reports success has published exactly its own bytes. Missing parent directories are created when asked for, and writers to the same path never share a temporary file.",
 ["crash_points", "schedules", "fault_sequences"], "All interleavings of writers and readers of one path, a fault or crash at every filesystem operation.",
 "Tests write one file once and inject one write error; interleavings, crash points and move failures are not reachable by sampling.",
 [W+"beam_utils.py"], [("atomic_write: temp file then move", "beam_utils.atomic_write")],
 ["contents of the destination directory after each filesystem operation"],
 [("destination", "contents seen by readers", "fsspec filesystem"), ("temporaries", "in-flight temp files", "fsspec filesystem")])

prop("C11", "Saved aggregation states load back unchanged and stay combinable",
 "Writing an aggregation state to any of its stored forms (tree, flat dataset, file) and reading it back gives the same statistics, variables, dimensions, coordinates and values for both the weighted sums and the weights, with none swapped, merged or renamed (for names that the stored form allows). Metrics computed from, and sums formed with, a restored state equal those of the original, so evaluating periods separately and adding the restored states equals evaluating them together.",
 ["inputs", "histories"], "All states over sets of statistic/variable names (including names with dots and other punctuation) and array shapes.",
 "Tests round-trip one state; name mangling and sum/weight pairing quantify over all name sets and shapes.",
 [W+"aggregation.py", W+"beam_pipeline.py"],
 [("to_data_tree/from_data_tree/to_dataset/from_dataset", "aggregation.AggregationState"), ("WriteAggregationState", "beam_pipeline.py")],
 ["restored AggregationState"])

prop("C12", "Spatial binnings place every point in exactly the bins it belongs to",
 "Latitude/longitude boxes, coordinate bands, land/sea masks and value-interval bins contain a point exactly when its coordinates satisfy the declared limits, independent of grid order, of the longitude convention (0..360 or -180..180) and of whether data is gridded or a list of points. A longitude range crossing the date line or zero meridian means the arc from its western to its eastern limit; boundaries are included or excluded as documented; a global bin contains everything. Restricting a region to land keeps exactly its land points.",
 ["inputs", "configurations"], "All regions and limits (wrapping, touching, degenerate), all grids and point lists, both longitude conventions, all bin edges.",
 "Tests use a few regions on one grid; membership is a statement for every limit/coordinate combination, boundaries and wraps included.",
 [W+"binning.py"], [("Regions, LandSea, LatitudeBins, LongitudeBins, ByCoordBins", "binning.py")],
 ["create_bin_mask result"])

prop("C13", "Time and label binnings assign each element to its own bins, with correct labels",
 "Binning by an exact coordinate, by a calendar unit of init or valid time, by seconds-derived units, by sets of units or by sets of labels puts each element in exactly the bins its own label belongs to and no other, with the bin coordinate naming them; automatically discovered or complementary bins cover everything exactly once, and an added global bin contains everything. The assignment depends only on the element's own label, not on its position, chunk or neighbours, so chunks evaluated separately and combined agree with one evaluation. Elements whose valid time crosses a day, month or year boundary are binned by the time that was asked for.",
 ["inputs", "configurations"], "All coordinate values, calendar units, sets (overlapping, empty, with complements) and chunkings.",
 "Tests use a single short time axis; unit extraction across boundaries and set algebra quantify over all times and sets.",
 [W+"binning.py"], [("ByExactCoord, ByTimeUnit, ByTimeUnitSets, ByTimeUnitFromSeconds, BySets", "binning.py")],
 ["create_bin_mask result"])

prop("C14", "Unaggregated output holds every statistic once, at its own times",
 "The pipeline that stores unaggregated (or only spatially reduced) statistics writes, for every initialisation and lead time requested, the same values as computing the statistics directly on that pair, under their own coordinates, for any chunking and any storage chunk sizes allowed. No requested time is missing, duplicated or overwritten by another chunk, the variables written are exactly the requested statistics, the stored valid times and auxiliary coordinates are right for their positions, and the storage chunks are those asked for.",
 ["schedules", "configurations", "inputs"], "All chunkings of the two time axes, zarr chunk choices, and orders in which chunks are written.",
 "Tests run one or two chunk layouts; offset/region faults show only for particular remainders.",
 [W+"beam_pipeline.py", W+"time_chunks.py"], [("define_unaggregated_pipeline", "beam_pipeline.py"), ("chunk offsets as write regions", "time_chunks.iter_with_chunk_offsets")],
 ["written zarr store"])

prop("C15", "Input transforms reach only the chosen inputs, in the listed order",
 "A wrapped metric behaves like the plain metric applied to transformed inputs: the transforms run in the listed order, on forecasts, targets or both as asked, and the inputs the caller passed are left unchanged. Each transform does what it states for every input: selection of labels or variables, thresholding and binning into categories (strict or inclusive as documented, missing values preserved), day-of-year dependent thresholds, ensemble averaging, inlining of functions, stacking of dimensions, shifts, renaming, and missing-data handling. Selecting a subset of variables or coordinates leaves other variables untouched, and differently wrapped versions of a metric never get each other's results.",
 ["inputs", "configurations"], "All sequences of transforms and targets of application, all inputs including missing values and threshold-equal values.",
 "Tests apply single transforms to single arrays; order, side selection and name separation quantify over sequences and combinations.",
 [W+"metrics/wrappers.py"], [("WrappedMetric/WrappedStatistic/InputTransform", "metrics/wrappers.py")],
 ["metric/statistic values", "caller's inputs"])

prop("C16", "Contingency-table statistics partition events and scores follow from them",
 "For binary forecasts and targets, every point with both values present is counted in exactly one of hits, false alarms, misses and correct rejections, and a point with a missing value counts in none of them but stays missing. Every categorical score (accuracy, CSI, POD, POFD, FAR, frequency bias, F1, HSS, ETS, reliability and related ones) equals its defining formula applied to the averaged table, so it does not depend on chunking or point order. Multi-category and threshold-sweep versions equal the binary version applied per category or threshold.",
 ["inputs"], "All binary/categorical/probability arrays including missing values and degenerate tables.",
 "Tests check a few fixed tables; the partition and the formulas quantify over all tables including empty cells.",
 [W+"metrics/categorical.py"], [("contingency statistics", "metrics/categorical.py"), ("derived scores", "metrics/categorical.py")],
 ["statistic and metric values"])

prop("C17", "Ensemble scores match their definitions for every ensemble",
 "CRPS and its skill and spread parts, their fair and plain variants, unbiased ensemble-mean error, spread, variance, threshold exceedance, ranked probability and relative economic value scores equal their defining sums over members for every ensemble size they accept, and the alternative algorithms for one score agree. None of them depends on the order of members; rank histograms place each target in exactly one rank consistent with the members below it. Missing members or targets are propagated or skipped exactly as the chosen policy says, and ensembles too small for a fair estimate give an undefined result or an error, not a wrong number.",
 ["inputs", "configurations"], "All ensembles (ties, single member, missing members), targets, variants and policies.",
 "Tests compare a few random ensembles; ties, small sizes, NaN policies and algorithm agreement quantify over all ensembles.",
 [W+"metrics/probabilistic.py"], [("CRPS/EnsembleAverage/RankHistogram/RPS/REV", "metrics/probabilistic.py")],
 ["statistic and metric values"])

prop("C18", "Regridding is exact where it must be and never mixes unrelated points",
 "For source axes of at least two points, interpolating onto points that coincide with source grid points returns the source values, linear interpolation returns the standard weighted combination of the surrounding grid points and nearest interpolation the closest one, along every dimension, with longitude treated as periodic when wrapping is requested. Points outside the source domain are missing, extrapolated or rejected as configured, never given an unrelated value. The result is laid out on the target's points with all other dimensions preserved, and a sequence of interpolations equals applying them one after another.",
 ["inputs", "configurations"], "All monotone source grids (both orders), target points incl. seam and boundary points, methods, wrap and fill settings, sequences.",
 "Tests interpolate one field with one setting; boundary, seam and order cases quantify over all grids and points.",
 [W+"interpolations.py"], [("InterpolateToReferenceCoords, InterpolateToFixedCoords, MultipleInterpolation and others", "interpolations.py")],
 ["interpolated arrays"])

prop("C19", "Grid-area weights are proportional to cell area with unit mean",
 "Area weights for a latitude-longitude grid are positive, proportional to the area of the latitude band each grid point represents on the sphere, and average to one over latitude. They depend only on the latitude values, not on their order, on other dimensions or on data, and grids including the poles give the polar points their (smaller) caps. A field that is constant in space therefore has that constant as its area-weighted mean.",
 ["inputs", "configurations"], "All strictly monotone latitude axes (ascending/descending, with or without poles, equal or unequal spacing).",
 "Tests check one or two resolutions; proportionality and order invariance quantify over all axes.",
 [W+"weighting.py"], [("GridAreaWeighting", "weighting.py")], ["weights array"])

prop("C20", "Bootstrap replicates are genuine resamples of whole experimental units",
 "Every bootstrap replicate of a metric is the metric of a resample drawn with replacement from the experimental units: one multiset of units explains the statistics and weights that enter a replicate value (for plain and cluster resampling, all metrics, variables and positions of the replicate at once), clusters are taken whole, and the number drawn equals the number of units (or clusters). Block resampling takes runs of consecutive units, wrapping around the end, of the asked mean length or of the length chosen for that very value's own series. All units are equally likely. Point estimates equal the plain metric values, missing statistics are never counted as zero, and intervals, standard errors, p-values and significance are those of the replicates. Statistics whose units differ are refused.",
 ["inputs", "histories", "configurations"], "All aggregation states, numbers of units, cluster assignments, block lengths, seeds and replicate counts.",
 "Tests check statistical coverage on average; that each individual replicate is an admissible joint resample is never examined.",
 [W+"statistical_inference/bootstrap.py", W+"statistical_inference/base.py"],
 [("IIDBootstrap, ClusterBootstrap, StationaryBootstrap", "statistical_inference/bootstrap.py")],
 ["replicates, point estimates, confidence intervals, p-values"])

prop("C21", "Comparisons and confidence intervals refer to the right quantities",
 "Comparing with a baseline evaluates the requested difference (or relative difference) of the main and baseline values computed on the same experimental units (baselines whose units differ are refused), zero when both are equal, with swapped roles giving the negated difference. Analytic inference uses exactly the per-unit values of the chosen unit dimension: the point estimate equals the plain metric, the linearised per-unit values are the metric's first-order influences (also for ratios, square roots and weighted means), the standard error follows the documented estimator, intervals are the estimate plus and minus the t quantile times the standard error, and p-values and significance agree with the intervals for every null value. Missing statistics give missing results. Estimators of serial correlation require evenly spaced units and refuse others. Applying a function to slices calls it once per slice and assembles its results at the right labels.",
 ["inputs", "configurations"], "All aggregation states with any number of units, metrics (linear and non-linear), weights, confidence levels and slicings.",
 "Tests check a few simulated data sets; consistency between estimate, interval and p-value quantifies over all of them.",
 [W+"statistical_inference/baseline_comparison.py", W+"statistical_inference/t_test.py", W+"statistical_inference/autodiff.py", W+"statistical_inference/utils.py"],
 [("BaselineComparison, t-test, delta method, apply_to_slices", "statistical_inference/")], ["inference results"])

prop("C22", "Neighbourhood (fractions) statistics count exactly the neighbourhood",
 "Neighbourhood fractions at each grid point equal the average of the event field over the square window of the requested odd size (no wider than the grid) centred there, where longitude wraps around if requested, cells beyond the domain edge are treated as documented, and missing or masked cells are treated as documented. The fractions skill score equals its defining ratio of averaged squared differences and is one for identical fields and within zero and one otherwise. Each requested neighbourhood size is computed independently of the others.",
 ["inputs", "configurations"], "All event fields (with missing cells), window sizes up to the grid size, wrap settings.",
 "Tests use one field; window edge and wrap cases quantify over all fields and sizes.",
 [W+"metrics/spatial.py"], [("FSS and neighbourhood averaging", "metrics/spatial.py")], ["statistic and metric values"])

prop("C23", "Climatology-based metrics use the climate of each forecast's own valid time",
 "Anomalies, climatological thresholds and climatology-normalised scores use, for each element, the climatology entry for that element's own valid day-of-year and hour (leap days included), whatever the chunk, order of times, or whether data is laid out by initialisation and lead or by valid time. Anomaly correlation and activity scores equal their defining formulas on averaged anomaly products. A missing climatology entry gives a missing or rejected result, never another day's climate.",
 ["inputs", "configurations"], "All valid times across the calendar (leap years, year ends, all hours), chunkings, and data layouts.",
 "Tests use a few consecutive days; alignment is a statement for every valid time.",
 [W+"metrics/base.py", W+"metrics/deterministic.py", W+"metrics/probabilistic.py", W+"metrics/categorical.py"],
 [("PerVariableStatisticWithClimatology", "metrics/base.py"), ("ACC, activity, SEEPS", "metrics/")], ["statistic and metric values"])

prop("C24", "Deterministic metrics equal their formulas on globally averaged statistics",
 "Bias, mean absolute error, mean squared error, root mean squared error, wind-vector error, forecast and target averages and error-exceedance rates equal their defining formula, with non-linear steps (roots, ratios, correlations) applied once after averaging over all chunks, never per chunk. Errors are forecast minus target element by element on matching labels, with missing values propagated. Every variable of the inputs is scored, vector metrics use the right components, and swapping sign or scale of inputs changes the result as the formula implies.",
 ["inputs", "configurations"], "All forecasts/targets, dimension orders, variable sets and chunkings.",
 "Tests check a few constants; formula and label matching quantify over all inputs and chunkings.",
 [W+"metrics/deterministic.py", W+"metrics/base.py", W+"aggregation.py"],
 [("Bias, MAE, MSE, RMSE, WindVectorRMSE, ErrorExceedance ...", "metrics/deterministic.py")], ["statistic and metric values"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
  for p in P:
    assert len(p["title"]) <= 80, p["id"]
    f.write(json.dumps(p) + "\n")
print(len(P))
