import sys; sys.path.insert(0,'/verif/tools')
from mkseed import add
add('s29-metrics-single-precision', 'C01', 'statistics whose exact value needs more than single precision, e.g. a small difference of large values, written by the pipeline',
 'the metrics written by the pipeline are rounded to single precision, unlike those of a single-process evaluation',
 [('beam_pipeline.py', "    metrics = metrics.drop_attrs(deep=True)\n", "    metrics = metrics.drop_attrs(deep=True)\n    # Single precision is plenty for results, and halves their size.\n    metrics = metrics.map(\n        lambda x: x.astype('float32') if x.dtype.kind == 'f' else x)\n")],
'''import tempfile, os, numpy as np, xarray as xr, apache_beam as beam
from weatherbenchX import aggregation, beam_pipeline, time_chunks
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import deterministic
it = np.datetime64('2020-01-01', 'ns') + np.arange(2) * np.timedelta64(24, 'h')
lt = np.arange(1) * np.timedelta64(24, 'h').astype('timedelta64[ns]')
p = xr.Dataset({'v': (['init_time', 'lead_time', 'x'], np.full((2, 1, 2), 100000.001))}, coords=dict(init_time=it, lead_time=lt, x=[0, 1]))
t = xr.Dataset({'v': (['valid_time', 'x'], np.zeros((2, 2)))}, coords=dict(valid_time=it, x=[0, 1]))
with tempfile.TemporaryDirectory() as d:
  out = os.path.join(d, 'm.nc')
  with beam.Pipeline('DirectRunner') as root:
    beam_pipeline.define_pipeline(root, time_chunks.TimeChunks(it, lt, 1, 1),
        xarray_loaders.PredictionsFromXarray(ds=p, rename_dimensions=None), xarray_loaders.TargetsFromXarray(ds=t, rename_dimensions=None),
        {'bias': deterministic.Bias()}, aggregation.Aggregator(reduce_dims=['init_time', 'x']), out_path=out)
  r = float(xr.open_dataset(out).load()['bias.v'].values.ravel()[0])
print(repr(r))
assert r == 100000.001
''')

add('s30-template-without-reference', 'C14', 'unaggregated output of forecasts interpolated to the coordinates of the targets',
 'the forecasts of the output template are loaded without the targets they are interpolated to, which fails',
 [('beam_pipeline.py', "  predictions_chunk = predictions_loader.load_chunk(\n      first_init_times, first_lead_times, targets_chunk\n  )", "  predictions_chunk = predictions_loader.load_chunk(\n      first_init_times, first_lead_times\n  )")],
'''import tempfile, os, numpy as np, xarray as xr, apache_beam as beam
from weatherbenchX import beam_pipeline, interpolations, time_chunks
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import deterministic
it = np.datetime64('2020-01-01', 'ns') + np.arange(2) * np.timedelta64(24, 'h')
lt = np.arange(1) * np.timedelta64(24, 'h').astype('timedelta64[ns]')
p = xr.Dataset({'v': (['init_time', 'lead_time', 'latitude'], np.array([[[0., 4., 8.]], [[8., 4., 0.]]]))}, coords=dict(init_time=it, lead_time=lt, latitude=[0., 4., 8.]))
t = xr.Dataset({'v': (['valid_time', 'latitude'], np.zeros((2, 2)))}, coords=dict(valid_time=it, latitude=[1., 6.]))
with tempfile.TemporaryDirectory() as d:
  out = os.path.join(d, 'm.zarr')
  with beam.Pipeline('DirectRunner') as root:
    beam_pipeline.define_unaggregated_pipeline(root, time_chunks.TimeChunks(it, lt, 1, 1),
        xarray_loaders.PredictionsFromXarray(ds=p, rename_dimensions=None, interpolation=interpolations.InterpolateToReferenceCoords(method='linear')),
        xarray_loaders.TargetsFromXarray(ds=t, rename_dimensions=None),
        {'bias': deterministic.Bias()}, out_path=out)
  r = xr.open_zarr(out).load()
  print(r)
  a = r[list(r.data_vars)[0]].transpose('init_time', 'lead_time', 'latitude').values
assert a.tolist() == [[[1., 6.]], [[7., 2.]]], a
''')

add('s31-complement-of-missing', 'C13', 'bins by sets of values with complements, where some labels are missing (e.g. a station without a network)',
 'points with a missing label are in neither the set nor its complement',
 [('binning.py', "        not_in_mask = ~mask.copy()\n", "        # Only points that have a label can be outside of the set.\n        not_in_mask = ~mask & statistic[self.coord_name].notnull()\n")],
'''import numpy as np, xarray as xr
from weatherbenchX import binning
da = xr.DataArray([1., 2., 3.], dims='x', coords={'x': [0, 1, 2], 'elev': ('x', [5., np.nan, 7.])})
m = binning.BySets({'low': [5.]}, 'elev', bin_dim_name='b', add_set_complements=True).create_bin_mask(da)
r = (m.sum('b')).values
print(r)
assert (r == 1).all()
''')

add('s32-rps-missing-threshold', 'C17', 'RPS without skipna_ensemble where the thresholds of some bin are missing at some points',
 'the sum over the bins skips the missing bin, so the score is too low instead of missing',
 [('metrics/probabilistic.py', "        self._bin_dim, skipna=self._skipna_ensemble, min_count=1", "        self._bin_dim, min_count=1")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import probabilistic
thr = xr.DataArray([[0., 1., 2.], [0., np.nan, 2.]], dims=['x', 'thr'], coords={'x': [0, 1], 'thr': [0, 1, 2]}, name='v')
p = xr.DataArray([[1.5, .5], [.5, 2.5]], dims=['number', 'x'], coords={'number': [0, 1], 'x': [0, 1]}, name='v')
t = xr.DataArray([.2, 1.7], dims=['x'], coords={'x': [0, 1]}, name='v')
thr = xr.Dataset({'v': thr})
m = probabilistic.EnsembleRankedProbabilityScore(thr, thr, 'thr', 't', enforce_monotonicity=False)
r = m.compute({'v': p}, {'v': t})['v'].values
print(r)
assert np.isfinite(r[0]) and np.isnan(r[1])
''')

add('s33-threshold-single-precision', 'C15', 'double precision values that differ from a threshold by less than single precision resolves',
 'values just above (or at) the threshold are put on the wrong side of it',
 [('metrics/wrappers.py', "  return (x > threshold).where(~np.isnan(x)).astype(np.float32)", "  # All in single precision, as the result.\n  x = x.astype(np.float32)\n  return (\n      (x > threshold.astype(np.float32)).where(~np.isnan(x)).astype(np.float32)\n  )")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import wrappers
x = xr.DataArray([101325.001, 101325., 101324.999], dims='x', name='v')
r = wrappers.ContinuousToBinary('both', [101325.], 'thr').transform_fn(x).values.ravel()
print(r)
assert r.tolist() == [1, 0, 0]
''')
