"""Which specification modules and driver decide each property."""
REGISTRY = {
    'C06': dict(
        driver='drv_time_chunks', trace='TraceTimeChunks', trace_cfg='TraceTimeChunks.cfg',
        mc=[dict(module='MCTimeChunks', cfg='MCTimeChunks.cfg', cfg_thorough='MCTimeChunks_t.cfg')],
        shards=2,
        assumptions=['axes of at most a few dozen times; non-empty axes']),
    'C02': dict(
        driver='drv_agg_state', trace='TraceAggState', trace_cfg='TraceAggState.cfg',
        mc=[dict(module='MCAggState', cfg='MCAggState.cfg', cfg_thorough='MCAggState_t.cfg')],
        assumptions=['integer-valued contributions (exact in float64)', 'states added together have the same statistic/variable names']),
    'C03': dict(
        driver='drv_aggregate', trace='TraceAggregate', trace_cfg='TraceAggregate.cfg',
        mc=[dict(module='MCAggregate', cfg='MCAggregate.cfg', workers=8), dict(module='MCAggregate', cfg='MCAggregate_emit.cfg')],
        assumptions=['integer-valued statistics and weights (exact in float)']),
    'C04': dict(
        driver='drv_aggregate_nan', trace='TraceAggregate', trace_cfg='TraceAggregate.cfg',
        mc=[dict(module='MCAggregate', cfg='MCAggregate.cfg', workers=8), dict(module='MCAggregate', cfg='MCAggregate_emit.cfg')],
        assumptions=['an unmasked NaN outside every bin may or may not spread into other bins (documented as current behaviour, not part of the property)']),
    'C01': dict(
        driver='drv_pipeline', trace='TracePipeline', trace_cfg='TracePipeline.cfg',
        mc=[dict(module='MCPipeline', cfg='MCPipeline.cfg', cfg_thorough='MCPipeline_t.cfg', workers=8),
            dict(module='MCPipeline', cfg='MCPipeline_sim.cfg', simulate=120, depth=90)],
        assumptions=['integer-valued data (exact sums)', 'runner freedom is modelled by a schedule-controlled executor of the Beam graph plus runs on the DirectRunner']),
    'C10': dict(
        driver='drv_atomic_write', trace='TraceAtomicWrite', trace_cfg='TraceAtomicWrite.cfg',
        mc=[dict(module='MCAtomicWrite', cfg='MCAtomicWrite.cfg', workers=4),
            dict(module='MCAtomicWrite', cfg='MCAtomicWrite_negSharedTmp.cfg', violates='NoTempLeft'),
            dict(module='MCAtomicWrite', cfg='MCAtomicWrite_negDirectWrite.cfg', violates='NeverPartial'),
            dict(module='MCAtomicWrite', cfg='MCAtomicWrite_negCleanMv.cfg', violates='NoTempLeft'),
            dict(module='MCAtomicWrite', cfg='MCAtomicWrite_emit.cfg', workers=2),
            dict(module='MCAtomicWrite', cfg='MCAtomicWrite_sim.cfg', simulate=600, depth=60)],
        assumptions=['the filesystem move is atomic (documented precondition of atomic_write)',
                     'at most one injected failure per writer, not in the clean-up removal itself']),
    'C05': dict(
        driver='drv_joint', trace='TraceJoint', trace_cfg='TraceJoint.cfg',
        mc=[dict(module='Joint', cfg='MCJoint.cfg', cfg_thorough='MCJoint_t.cfg', workers=4),
            dict(module='Joint', cfg='MCJoint_neg.cfg', violates='JointIsAlone')],
        assumptions=['statistic names supplied by the user (unique_name_suffix) are distinct for distinct parameters',
                     'collections exclude metric variants that fail on their own']),
    'C12': dict(
        driver='drv_spatial', trace='TraceSpatial', trace_cfg='TraceSpatial.cfg',
        mc=[dict(module='MCSpatial', cfg='MCSpatial.cfg', cfg_thorough='MCSpatial.cfg', workers=4),
            dict(module='MCSpatial', cfg='MCSpatial_t.cfg', workers=4, only='thorough')],
        shards=4,
        assumptions=['limits and coordinates that are multiples of a quarter degree (exact in floating point)',
                     'a land mask is given on the points of the statistic (documented); limits a whole number of turns apart mean the whole circle']),
    'C13': dict(
        driver='drv_labels', trace='TraceLabels', trace_cfg='TraceLabels.cfg',
        mc=[dict(module='MCCalendar', cfg='MCCalendar.cfg', cfg_thorough='MCCalendar_t.cfg', workers=2),
            dict(module='MCLabels', cfg='MCLabels_exact.cfg', workers=2), dict(module='MCLabels', cfg='MCLabels_sets.cfg', workers=2),
            dict(module='MCLabels', cfg='MCLabels_exact_t.cfg', workers=4, only='thorough'),
            dict(module='MCLabels', cfg='MCLabels_sets_t.cfg', workers=4, only='thorough')],
        shards=4,
        assumptions=['no missing (NaN/NaT) labels', 'times are whole seconds']),
    'C07': dict(
        driver='drv_loader', trace='TraceLoader', trace_cfg='TraceLoader.cfg',
        mc=[dict(module='MCLoader', cfg='MCLoader.cfg', workers=2), dict(module='MCLoader', cfg='MCLoader_t.cfg', workers=4, only='thorough'),
            dict(module='MCCalendar', cfg='MCCalendar.cfg', cfg_thorough='MCCalendar_t.cfg', workers=2)],
        assumptions=['times and leads are whole minutes; lead-time slices on sorted lead axes']),
    'C08': dict(
        driver='drv_latency', trace='TraceLatency', trace_cfg='TraceLatency.cfg',
        mc=[dict(module='MCLatency', cfg='MCLatency.cfg', workers=4), dict(module='MCLatency', cfg='MCLatency_t.cfg', workers=8, only='thorough')],
        assumptions=['times, leads and latencies are whole minutes; exact lead times (intervals of leads are not supported by the wrappers)']),
    'C09': dict(
        driver='drv_sparse', trace='TraceSparse', trace_cfg='TraceSparse.cfg',
        mc=[dict(module='MCSparse', cfg='MCSparse.cfg', workers=4), dict(module='MCSparse', cfg='MCSparse_t.cfg', workers=8, only='thorough')],
        assumptions=['no partition file is missing and each observation is filed within file_tolerance of its own time (documented)',
                     'an observation exactly at the upper end of a tolerance window without include_slice_end_time may or may not be returned (documentation and code differ)',
                     'which of several equally close duplicates is kept is free']),
}
REGISTRY['C19'] = dict(
    driver='drv_area', trace='TraceGridArea', trace_cfg='TraceGridArea.cfg',
    mc=[dict(module='MCGridArea', cfg='MCGridArea.cfg', cfg_thorough='MCGridArea_t.cfg', workers=4)],
    shards=6,
    assumptions=['latitudes are multiples of a quarter degree; at least two latitudes'])
REGISTRY['C18'] = dict(
    driver='drv_interp', trace='TraceInterp', trace_cfg='TraceInterp.cfg',
    mc=[dict(module='MCInterp', cfg='MCInterp.cfg', workers=4), dict(module='MCInterp', cfg='MCInterp_t.cfg', workers=8, only='thorough')],
    assumptions=['methods linear and nearest; ties of nearest free',
                 'a missing value next to a target at which it has no weight may or may not be felt',
                 'source longitudes distinct modulo 360; longitude limits of CropToBox free on the boundary (documentation and code differ)'])
REGISTRY['C24'] = dict(
    driver='drv_det', trace='TraceStats', trace_cfg='TraceStats.cfg',
    mc=[dict(module='MCStats', cfg='MCStats_det.cfg', cfg_thorough='MCStats_det_t.cfg', workers=8)],
    assumptions=['integer-valued inputs (exact sums); means compared to 1/65536, roots to 1/500'])
REGISTRY['C16'] = dict(
    driver='drv_cat', trace='TraceStats', trace_cfg='TraceStats.cfg',
    mc=[dict(module='MCStats', cfg='MCStats_bin.cfg', cfg_thorough='MCStats_bin_t.cfg', workers=8),
        dict(module='MCLog', cfg='MCLog.cfg', workers=2)],
    assumptions=['binary inputs are 0/1 or boolean; weighted table counts up to a few hundred',
                 'a score whose denominator is zero may be NaN or infinite'])
REGISTRY['C17'] = dict(
    driver='drv_prob', trace='TraceEns', trace_cfg='TraceEns.cfg',
    mc=[dict(module='MCEns', cfg='MCEns.cfg', cfg_thorough='MCEns_t.cfg', workers=8)],
    assumptions=['integer-valued members; ensembles of up to 6 (4 with skipped members) and target ensembles of up to 3',
                 'the plain (not fair) spread of a single usable member may be 0 or missing; the exceedance rate with missing members may skip them or be missing',
                 'economic value with decision thresholds strictly between 0 and 1; free where its denominator vanishes',
                 'nearest decision thresholds without ties'])
REGISTRY['C22'] = dict(
    driver='drv_nbhd', trace='TraceNbhd', trace_cfg='TraceNbhd.cfg',
    mc=[dict(module='MCNbhd', cfg='MCNbhd.cfg', cfg_thorough='MCNbhd_t.cfg', workers=8),
        dict(module='MCNbhd', cfg='MCNbhd_pair.cfg', workers=8, only='thorough')],
    assumptions=['windows no wider than the number of longitudes; no NaN labels',
                 'the outermost rows (and columns without wrap) count as zero in both fields, as the code documents'])
REGISTRY['C23'] = dict(
    driver='drv_clim', trace='TraceClim', trace_cfg='TraceClim.cfg',
    mc=[dict(module='MCClim', cfg='MCClim.cfg', cfg_thorough='MCClim_t.cfg', workers=4),
        dict(module='MCClim', cfg='MCClim_laws.cfg', workers=4)],
    assumptions=['whole-minute valid times; scores that compare forecast and target statistics get complete pairs (a mask or missing value in the target alone does not reach the forecast-only statistic)',
                 'wet thresholds above the dry threshold; a penalty is free where the climate is always or never dry',
                 'quantile boundaries are quarters, or the defaults with 11 members; ensembles with some members missing are left open'])
REGISTRY['C15'] = dict(
    driver='drv_wrap', trace='TraceTransform', trace_cfg='TraceTransform.cfg',
    mc=[dict(module='MCTransform', cfg='MCTransform.cfg', cfg_thorough='MCTransform_t.cfg', workers=4),
        dict(module='MCTransform', cfg='MCTransform_emit.cfg', cfg_thorough='MCTransform_emit_t.cfg', workers=2),
        dict(module='MCTransform', cfg='MCTransform_neg.cfg', violates='OrderIrrelevant')],
    assumptions=['names given by the user (unique_name_suffix) are distinct for distinct parameters', 'threshold dimensions are new to the array'])
REGISTRY['C11'] = dict(
    driver='drv_store', trace='TraceStore', trace_cfg='TraceStore.cfg',
    mc=[dict(module='MCStore', cfg='MCStore.cfg', cfg_thorough='MCStore_t.cfg', workers=4),
        dict(module='MCStore', cfg='MCStore_emit.cfg', workers=4),
        dict(module='MCStore', cfg='MCStore_neg.cfg', violates='RoundTrip')],
    assumptions=['names are non-empty strings without the separator of the stored form and without "/"; flat tables of states with compatible coordinates (both documented)',
                 'numbers that the file format represents exactly; a statistic none of whose variables was aggregated is not stored in flat forms'])
REGISTRY['C14'] = dict(
    driver='drv_unagg', trace='TraceUnagg', trace_cfg='TraceUnagg.cfg',
    mc=[dict(module='MCUnagg', cfg='MCUnagg.cfg', cfg_thorough='MCUnagg_t.cfg', workers=4),
        dict(module='MCUnagg', cfg='MCUnagg_emit.cfg', workers=4),
        dict(module='MCUnagg', cfg='MCUnagg_neg.cfg', violates='Complete')],
    assumptions=['statistics have compatible coordinates and keep every time dimension that is chunked (documented or implied by the store)',
                 'storage chunks no larger than their axis'])
REGISTRY['C20'] = dict(
    driver='drv_boot', trace='TraceBoot', trace_cfg='TraceBoot.cfg',
    mc=[dict(module='MCBootstrap', cfg='MCBootstrap.cfg', cfg_thorough='MCBootstrap_t.cfg', workers=4),
        dict(module='MCBootstrap', cfg='MCBootstrap_emit.cfg', workers=2),
        dict(module='MCBootstrap', cfg='MCBootstrap_neg.cfg', violates='Joint')],
    assumptions=['arch.bootstrap.optimal_block_length is taken as given (an outside library); only what it is applied to and how its answer is used is judged',
                 'draw frequencies are judged with wide (8 sigma) tolerances'])
REGISTRY['C21'] = dict(
    driver='drv_infer', trace='TraceInfer', trace_cfg='TraceInfer.cfg',
    mc=[dict(module='MCTTable', cfg='MCTTable.cfg', workers=1),
        dict(module='MCInfer', cfg='MCInfer.cfg', cfg_thorough='MCInfer_t.cfg', workers=8),
        dict(module='MCInfer', cfg='MCInfer_neg.cfg', violates='NoOrder')],
    assumptions=['results are single precision for intermediate quantities (jax), compared with matching tolerances',
                 'the serial-correlation inflation is open where it is ill conditioned',
                 'ratio metrics only where the mean of the denominator is positive'])
