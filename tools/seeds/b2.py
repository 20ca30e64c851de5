import sys; sys.path.insert(0, '/verif/tools')
from mkseed import add
only = sys.argv[1:]
_add = add
def add(sid, *a):
  if not only or sid in only:
    _add(sid, *a)

add('s13-threshold-name-digits', 'C05', 'two binarisations in one set of metrics whose thresholds agree in their first six digits (e.g. pressures in Pa)',
 'the two statistics get one name, so one of the metrics is computed from the other threshold',
 [('metrics/wrappers.py', "','.join([str(t) for t in self._threshold_value])", "','.join([f'{t:g}' for t in self._threshold_value])")],
'''import numpy as np, xarray as xr
from weatherbenchX import aggregation
from weatherbenchX.metrics import base, categorical, wrappers
p = {'p': xr.DataArray([101325.0, 101325.2, 101325.8], dims='x')}
t = {'p': xr.DataArray([101325.3, 101325.2, 101325.8], dims='x')}
def m(th):
  return wrappers.WrappedMetric(categorical.Accuracy(), [wrappers.ContinuousToBinary(which='both', threshold_value=th, threshold_dim='th')])
ms = {'a': m(101325.1), 'b': m(101325.4)}
st = base.compute_unique_statistics_for_all_metrics(ms, p, t)
agg = aggregation.Aggregator(reduce_dims=['x']).aggregate_statistics(st)
v = agg.metric_values(ms)
a, b = float(v['a.p'].dropna('th').squeeze()), float(v['b.p'].dropna('th').squeeze())
print(a, b)
assert abs(a - 2 / 3) < 1e-6 and b == 1, (a, b)
''')

add('s14-dataset-separator', 'C11', 'a state stored with a separator other than the default one',
 'reading the state back splits the names at the default separator, so the nesting of statistics and variables is lost',
 [('aggregation.py', "      path = '/' + path.replace(separator, '/')\n", "      path = '/' + '/'.join(path.split('#'))\n")],
'''import numpy as np, xarray as xr
from weatherbenchX import aggregation
da = xr.DataArray([1., 2.], dims=['init_time'], coords={'init_time': [0, 1]})
s = aggregation.AggregationState({'s': {'v': da}}, {'s': {'v': xr.ones_like(da)}})
r = aggregation.AggregationState.from_dataset(s.to_dataset(separator='|'), separator='|')
print(r)
assert list(r.sum_weighted_statistics) == ['s'] and list(r.sum_weighted_statistics['s']) == ['v']
''')

add('s15-template-sorted-times', 'C14', 'initialisation times given in an order other than ascending',
 'the store of unaggregated statistics labels its init times in sorted order, while values are written in the given order',
 [('beam_pipeline.py', "expand_dims(init_time=times.init_times)", "expand_dims(init_time=np.sort(times.init_times))")],
'''import tempfile, os, numpy as np, xarray as xr, apache_beam as beam
from weatherbenchX import beam_pipeline, time_chunks
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import deterministic
it = np.array(['2020-01-03', '2020-01-01', '2020-01-02'], 'datetime64[ns]')
lt = (np.arange(2) * np.timedelta64(24, 'h')).astype('timedelta64[ns]')
vt = np.datetime64('2020-01-01', 'ns') + np.arange(6) * np.timedelta64(24, 'h')
p = xr.Dataset({'t': (('init_time', 'lead_time'), np.arange(6.).reshape(3, 2) * 10)}, coords={'init_time': np.sort(it), 'lead_time': lt}).rename(init_time='time', lead_time='prediction_timedelta')
t = xr.Dataset({'t': ('time', np.zeros(6))}, coords={'time': vt})
with tempfile.TemporaryDirectory() as d:
  p.to_zarr(d + '/p.zarr'); t.to_zarr(d + '/t.zarr')
  pl = xarray_loaders.PredictionsFromXarray(path=d + '/p.zarr', variables=['t'])
  tl = xarray_loaders.TargetsFromXarray(path=d + '/t.zarr', variables=['t'])
  with beam.Pipeline(runner='DirectRunner') as root:
    beam_pipeline.define_unaggregated_pipeline(root, time_chunks.TimeChunks(it, lt, init_time_chunk_size=1), pl, tl, {'b': deterministic.Bias()}, d + '/o.zarr')
  o = xr.open_zarr(d + '/o.zarr').load()
  name = list(o.data_vars)[0]
  for i in it:
    got = o[name].sel(init_time=i).values.ravel().tolist(); want = p.t.sel(time=i).values.tolist()
    print(i, got, want)
    assert got == want
''')

add('s16-stack-own-order', 'C15', 'predictions and targets with the stacked dimensions in different orders',
 'the members stacked together are laid out in the order of each array, so predictions are paired with other targets',
 [('metrics/wrappers.py', "    stacked = da.stack({self._temporary_new_dim_name: self._dims_to_stack})\n", "    dims = [d for d in da.dims if d in self._dims_to_stack]\n    stacked = da.stack({self._temporary_new_dim_name: dims})\n")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import deterministic, wrappers
p = xr.DataArray(np.arange(6.).reshape(2, 3), dims=['a', 'b'], coords={'a': [0, 1], 'b': [0, 1, 2]})
t = p.transpose('b', 'a')
s = wrappers.WrappedStatistic(deterministic.Error(), wrappers.StackToNewDimension(which='both', dims_to_stack=['a', 'b'], new_dim_name='n'))
r = s.compute({'v': p}, {'v': t})['v']
print(r.values)
assert (r == 0).all()
''')

add('s17-seeps-p1-own-hours', 'C23', 'a SEEPS climatology whose dry fraction differs between hours or days, and a chunk whose valid times are not all of them',
 'the scoring matrix is built from the dry fraction at the first valid hour only instead of the mean over the climatology',
 [('metrics/categorical.py', "        .mean(('hour', 'dayofyear'))\n", "        .sel(hour=np.unique(valid_time.dt.hour))\n        .mean(('hour', 'dayofyear'))\n")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import categorical
frac = xr.DataArray(np.broadcast_to(np.array([.2, .6])[:, None], (2, 366)), dims=['hour', 'dayofyear'], coords={'hour': [0, 12], 'dayofyear': np.arange(1, 367)})
clim = xr.Dataset({'p_seeps_dry_fraction': frac, 'p_seeps_threshold': xr.full_like(frac, .01)})
s = categorical.SEEPS(['p'], clim)
it = np.array(['2020-01-01'], 'datetime64[ns]'); lt = np.array([12], 'timedelta64[h]').astype('timedelta64[ns]')
mk = lambda v: xr.DataArray([[v]], dims=['init_time', 'lead_time'], coords={'init_time': it, 'lead_time': lt})
r = float(s.compute({'p': mk(0.)}, {'p': mk(.005)})['p'].squeeze())
print(r)
assert abs(r - .5 / (1 - .4)) < 1e-6
''')

add('s18-spread-count-shape', 'C17', 'skipna_ensemble=True with a member missing at some points of a dimension beyond the first, and fair=False',
 'the unfair spread counts the members only where all are present, so it is too small at points with missing members',
 [('metrics/probabilistic.py', "      n_ensemble = da.count(self._ensemble_dim)\n    else:\n      n_ensemble = da.sizes[self._ensemble_dim]\n    if not", "      n_ensemble = da.count(self._ensemble_dim)\n      if not self._fair:\n        n_ensemble = n_ensemble.max()\n    else:\n      n_ensemble = da.sizes[self._ensemble_dim]\n    if not")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import probabilistic
p = xr.DataArray([[0., 4.], [2., 8.], [4., np.nan]], dims=['number', 'x'])
t = xr.DataArray([0., 0.], dims=['x'])
r = probabilistic.CRPSSpread(fair=False, skipna_ensemble=True).compute({'v': p}, {'v': t})['v']
print(r.values)
assert np.allclose(r.values, [16 / 9, 2.0])
''')

add('s19-wrap-descending', 'C18', 'wrap_longitude with a grid whose longitudes are not ascending',
 'the wrap-around columns are taken before sorting, so the padded grid is wrong where targets lie across the seam',
 [('interpolations.py', "  da = da.sortby('longitude')\n  left = da.isel(longitude=[-1])\n", "  left = da.isel(longitude=[-1])\n"), ('interpolations.py', "  return xr.concat([left, da, right], 'longitude')", "  return xr.concat([left, da, right], 'longitude').sortby('longitude')")],
'''import numpy as np, xarray as xr
from weatherbenchX import interpolations
lon = np.array([270., 180., 90., 0.])
da = xr.DataArray([3., 2., 1., 0.], dims=['longitude'], coords={'longitude': lon})
i = interpolations.InterpolateToFixedCoords('linear', {'longitude': np.array([300., 330.])}, wrap_longitude=True)
r = i.interpolate({'v': da})['v'].values
print(r)
assert np.allclose(r, [2., 1.]), r
''')

add('s20-lat-bounds-half-cell', 'C19', 'unevenly spaced latitudes that do not reach the poles',
 'the outermost cell at the upper end extends by half the first spacing instead of half the last',
 [('weighting.py', "  right_bound = x[-1] + diff[-1] / 2\n", "  right_bound = x[-1] + diff[0] / 2\n")],
'''import numpy as np, xarray as xr
from weatherbenchX import weighting
lat = np.array([-10., 0., 40.])
w = weighting.GridAreaWeighting(return_normalized=False).weights(xr.DataArray(np.zeros(3), dims=['latitude'], coords={'latitude': lat})).values
b = np.deg2rad([-15., -5., 20., 60.])
print(w)
assert np.allclose(w, np.sin(b[1:]) - np.sin(b[:-1]))
''')

add('s21-cluster-order', 'C20', 'cluster labels whose first appearance is not in sorted order, with clusters of different sizes or repeated labels',
 'units of equal neighbouring labels only are taken as a cluster: a label that comes back later starts a new cluster id',
 [('statistical_inference/bootstrap.py', "    unique_cluster_ids, cluster_ids = np.unique(coord.data, return_inverse=True)\n    cluster_ids = xr.DataArray", "    starts = np.concatenate([[False], coord.data[1:] != coord.data[:-1]])\n    cluster_ids = np.cumsum(starts)\n    unique_cluster_ids = np.unique(cluster_ids)\n    cluster_ids = xr.DataArray")],
'''import numpy as np, xarray as xr
from weatherbenchX import aggregation
from weatherbenchX.metrics import deterministic
from weatherbenchX.statistical_inference import bootstrap
np.random.seed(0)
season = ['w', 's', 'w', 's']
da = xr.DataArray([10., 0., 0., 0.], dims=['init_time'], coords={'init_time': [0, 1, 2, 3], 'season': ('init_time', season)})
st = aggregation.AggregationState({'Error': {'v': da}}, {'Error': {'v': xr.ones_like(da)}})
b = bootstrap.ClusterBootstrap(metrics={'b': deterministic.Bias()}, aggregated_statistics=st, experimental_unit_coord='season', n_replicates=200)
got = sorted(set(np.round(np.asarray(b.resampled_values['b']['v'].values), 6).tolist()))
print(got)
assert set(got) <= {0., 2.5, 5.}, got
''')

add('s22-units-as-set', 'C21', 'statistics whose experimental units are the same set in a different order',
 'reordered units are accepted and combined by position or in the order of the first',
 [('statistical_inference/utils.py', "      elif not np.all(var_coord.data == coord.data):", "      elif not np.all(np.isin(var_coord.data, coord.data)):")],
'''import numpy as np, xarray as xr
from weatherbenchX import aggregation
from weatherbenchX.statistical_inference import utils
mk = lambda u, v: xr.DataArray(v, dims=['init_time'], coords={'init_time': u})
a = mk([0, 1, 2, 3], [1., 2., 3., 4.]); b = mk([3, 2, 1, 0], [1., 2., 3., 4.])
st = aggregation.AggregationState({'A': {'v': a}, 'B': {'v': b}}, {'A': {'v': a * 0 + 1}, 'B': {'v': b * 0 + 1}})
try:
  utils.get_and_check_experimental_unit_coord(st, 'init_time')
except ValueError as e:
  print('refused', e)
else:
  raise SystemExit('accepted')
''')

add('s23-neighborhood-order', 'C22', 'neighbourhood sizes not given in ascending order',
 'scores are computed for ascending sizes but labelled in the given order',
 [('metrics/spatial.py', "            for n in neighborhood_size\n        ],", "            for n in sorted(neighborhood_size)\n        ],")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import spatial
x = xr.DataArray(np.eye(5, dtype=np.float32), dims=['latitude', 'longitude'], coords={'latitude': np.arange(5), 'longitude': np.arange(5)})
r = spatial.neighborhood_averaging(x, [3, 1])
print(r.neighborhood_size.values)
assert np.allclose(r.sel(neighborhood_size=1).transpose('latitude', 'longitude'), x)
''')

add('s24-climatology-nearest', 'C23', 'a climatology given along time that does not cover some valid time',
 'a valid time that the climatology lacks silently uses the nearest one instead of being refused',
 [('metrics/base.py', "      sel_kwargs = {'time': valid_time}\n", "      sel_kwargs = {'time': valid_time, 'method': 'nearest'}\n")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import deterministic
clim = xr.Dataset({'v': ('time', [1., 2.])}, coords={'time': np.array(['2020-01-01', '2020-01-02'], 'datetime64[ns]')})
mk = lambda: xr.DataArray([[5.]], dims=['init_time', 'lead_time'], coords={'init_time': np.array(['2020-01-02'], 'datetime64[ns]'), 'lead_time': np.array([24], 'timedelta64[h]').astype('timedelta64[ns]')})
try:
  r = deterministic.SquaredPredictionAnomaly(clim).compute({'v': mk()}, {'v': mk()})
except KeyError as e:
  print('refused')
else:
  raise SystemExit('accepted ' + str(r['v'].values))
''')

add('s25-intensity-missing-target', 'C24', 'relative intensity with a mask, where a target value inside the masked region is missing',
 'the missing target counts as zero in the mean intensity instead of making the score missing',
 [('metrics/deterministic.py', "      target_sum = targets.where(mask, 0).sum(dim=spatial_dims, skipna=False)\n", "      target_sum = targets.where(mask, 0).sum(dim=spatial_dims)\n")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import deterministic
co = {'latitude': [0, 1], 'longitude': [0, 1]}
p = xr.DataArray([[2., 2.], [2., 2.]], dims=['latitude', 'longitude'], coords=co)
t = xr.DataArray([[2., np.nan], [2., 2.]], dims=['latitude', 'longitude'], coords=co)
t.coords['mask'] = (('latitude', 'longitude'), [[True, True], [True, False]])
m = deterministic.RelativeIntensity()
st = {k: s.compute({'v': p}, {'v': t}) for k, s in m.statistics.items()} if hasattr(m, 'statistics') else {'x': m.compute({'v': p}, {'v': t})}
r = float(list(st.values())[0]['v'])
print(r)
assert np.isnan(r)
''')

add('s26-sum-skips-missing', 'C02', 'an unaggregated state with a missing statistic whose units are later summed over (sum_along_dims)',
 'a missing sum is skipped while its weight still counts, so the mean is biased instead of missing',
 [('aggregation.py', "      return self.map(lambda x: x.sum(dims, skipna=False))", "      return self.map(lambda x: x.sum(dims))")],
'''import numpy as np, xarray as xr
from weatherbenchX import aggregation
da = xr.DataArray([1., np.nan, 3.], dims=['x'], coords={'x': [0, 1, 2]})
s = aggregation.AggregationState({'s': {'v': da}}, {'s': {'v': xr.ones_like(da)}})
m = float(s.sum_along_dims(['x']).mean_statistics()['s']['v'])
print(m)
assert np.isnan(m)
''')

add('s27-sedi-no-events', 'C16', 'a table without any observed event (or without any non-event), e.g. a rare threshold in one region',
 'SEDI of a table whose hit rate is undefined is a finite number instead of missing',
 [('metrics/categorical.py', "    h = h.clip(1e-6, 1 - 1e-6)\n    f = f.clip(1e-6, 1 - 1e-6)\n", "    h = xr.where(h > 1e-6, np.minimum(h, 1 - 1e-6), 1e-6)\n    f = xr.where(f > 1e-6, np.minimum(f, 1 - 1e-6), 1e-6)\n")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import categorical
mk = lambda v: {'v': xr.DataArray(v)}
r = categorical.SEDI().values_from_mean_statistics({'TruePositives': mk(0.), 'FalseNegatives': mk(0.), 'FalsePositives': mk(.25), 'TrueNegatives': mk(.75)})['v']
print(float(r))
assert np.isnan(float(r))
''')

add('s28-fp-missing-target', 'C16', 'a point whose target is missing while the forecast is an event',
 'the point counts as no false alarm (0) instead of being missing, which biases false-alarm scores',
 [('metrics/categorical.py', "        (predictions.astype(bool) * ~targets.astype(bool))\n        .where(~np.isnan(predictions * targets))", "        (predictions.astype(bool) * ~targets.astype(bool))\n        .where(~np.isnan(predictions))")],
'''import numpy as np, xarray as xr
from weatherbenchX.metrics import categorical
p = xr.DataArray([1., 1., 1.], dims='x'); t = xr.DataArray([0., 1., np.nan], dims='x')
r = categorical.FalsePositives().compute({'v': p}, {'v': t})['v'].values
print(r)
assert np.isnan(r[2])
''')
