import sys; sys.path.insert(0,'/verif/tools')
from mkseed import add
add('s01-combining-sum-fastpath','C02','two states whose arrays have equal sizes but different labels (e.g. other stations seen by each chunk)',
 'labels present in only one summand vanish from the sum (inner instead of outer join)',
 [('aggregation.py',"  return sum(xr.align(*data_arrays, join='outer', fill_value=0))","""  data_arrays = list(data_arrays)
  if all(d.sizes == data_arrays[0].sizes for d in data_arrays):
    # Arrays of the same shape do not need to be expanded.
    return sum(data_arrays)
  return sum(xr.align(*data_arrays, join='outer', fill_value=0))""")],
'''import numpy as np, xarray as xr
from weatherbenchX import aggregation
def st(labels, vals):
  da = xr.DataArray(np.array(vals, float), dims=['station'], coords={'station': labels})
  return aggregation.AggregationState({'s': {'v': da}}, {'s': {'v': xr.ones_like(da)}})
r = st(['a', 'b'], [1, 2]) + st(['b', 'c'], [10, 20])
got = {str(k): float(v) for k, v in zip(r.sum_weighted_statistics['s']['v'].station.values, r.sum_weighted_statistics['s']['v'].values)}
print(got)
assert got == {'a': 1, 'b': 12, 'c': 20}, got
''')
add('s02-masked-and-skipna','C04','masked=True together with skipna=True, a statistic with a mask coordinate and a NaN at an unmasked point',
 'the NaN point is counted in the weights with value zero, so the mean is biased low',
 [('aggregation.py',"""      if self.skipna:
        mask = mask & ~stat.isnull()
""","""      if self.skipna:
        stat = stat.fillna(0)
""")],
'''import numpy as np, xarray as xr
from weatherbenchX import aggregation
da = xr.DataArray(np.array([2., np.nan, 6., 100.]), dims=['x'], coords={'x': range(4)})
da.coords['mask'] = ('x', [True, True, True, False])
r = aggregation.Aggregator(reduce_dims=['x'], masked=True, skipna=True).aggregate_statistics({'s': {'v': da}}).mean_statistics()['s']['v']
print(float(r))
assert float(r) == 4.0
''')
add('s03-chunk-offset-short-last','C06','the number of init times is not a multiple of the chunk size, and the last (short) chunk is looked at',
 'the offset of the last, shorter init-time chunk is computed from its own length',
 [('time_chunks.py',"init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)","init_index = len(init_chunk) * (index // self._num_lead_chunks)")],
'''import numpy as np
from weatherbenchX import time_chunks
it = np.datetime64('2020-01-01') + np.arange(5) * np.timedelta64(6, 'h')
tc = time_chunks.TimeChunks(it, np.arange(2) * np.timedelta64(6, 'h'), init_time_chunk_size=2, lead_time_chunk_size=1)
for off, (i, l) in tc.iter_with_chunk_offsets():
  print(off, i, l)
  assert tc.init_times[off.init_time] == i[0] and tc.lead_times[off.lead_time] == l[0]
''')
add('s04-pipeline-skip-rest','C01','several variables, an earlier one of which lacks a reduced dimension (so it is not aggregated)',
 'the pipeline drops every variable after the first one that cannot be aggregated',
 [('beam_pipeline.py',"""          if aggregation_state is None:
            continue
""","""          if aggregation_state is None:
            break
""")],
'''import tempfile, os, numpy as np, xarray as xr, apache_beam as beam
from weatherbenchX import aggregation, beam_pipeline, time_chunks
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import deterministic
it = np.datetime64('2020-01-01', 'ns') + np.arange(3) * np.timedelta64(24, 'h')
lt = np.arange(2) * np.timedelta64(24, 'h').astype('timedelta64[ns]')
vt = np.datetime64('2020-01-01', 'ns') + np.arange(5) * np.timedelta64(24, 'h')
def ds(t, n):
  # 'area_mean' has no spatial dimension, 'field' has.
  return dict(area_mean=(t, np.zeros(n)), field=(t + ['x'], np.arange(int(np.prod(n)) * 2).reshape(tuple(n) + (2,)).astype(float)))
p = xr.Dataset(ds(['init_time', 'lead_time'], [3, 2]), coords=dict(init_time=it, lead_time=lt, x=[0, 1]))
t = xr.Dataset(ds(['valid_time'], [5]), coords=dict(valid_time=vt, x=[0, 1]))
with tempfile.TemporaryDirectory() as d:
  out = os.path.join(d, 'm.nc')
  with beam.Pipeline('DirectRunner') as root:
    beam_pipeline.define_pipeline(root, time_chunks.TimeChunks(it, lt, 1, 1),
        xarray_loaders.PredictionsFromXarray(ds=p, rename_dimensions=None), xarray_loaders.TargetsFromXarray(ds=t, rename_dimensions=None),
        {'mae': deterministic.MAE()}, aggregation.Aggregator(reduce_dims=['init_time', 'x']), out_path=out)
  r = xr.open_dataset(out).load()
print(r)
assert set(r.data_vars) == {'mae.field'}, set(r.data_vars)
''')
add('s05-targets-nearest','C07','a requested valid time that is missing in the target dataset',
 'targets of another time are returned silently instead of an error',
 [('data_loaders/xarray_loaders.py',"""      chunk = self._ds.sel(valid_time=valid_time)
    # Lead""","""      chunk = self._ds.sel(valid_time=valid_time, method='nearest')
    # Lead""")],
'''import numpy as np, xarray as xr
from weatherbenchX.data_loaders import xarray_loaders
vt = np.array(['2020-01-01', '2020-01-02', '2020-01-04'], 'datetime64[ns]')
t = xr.Dataset({'v': ('valid_time', [1., 2., 4.])}, coords={'valid_time': vt})
l = xarray_loaders.TargetsFromXarray(ds=t, rename_dimensions=None)
r = l.load_chunk(vt[:1], np.array([0, 24], 'timedelta64[h]').astype('timedelta64[ns]'))
assert r['v'].values.ravel().tolist() == [1., 2.]
try:
  r = l.load_chunk(vt[:1], np.array([48], 'timedelta64[h]').astype('timedelta64[ns]'))
except KeyError:
  print('missing time refused')
else:
  raise AssertionError(f'got {r["v"].values} for a time that is not in the data')
''')
add('s06-latency-whole-hours','C08','a latency (or issue time) that is not a whole number of hours',
 'a forecast issued up to an hour after the requested time is used (look-ahead)',
 [('data_loaders/latency_wrappers.py',"diff = (issue_time - init_time).astype(int)","diff = (issue_time - init_time).astype('timedelta64[h]').astype(int)")],
'''import numpy as np, xarray as xr
from weatherbenchX.data_loaders import latency_wrappers, xarray_loaders
it = np.array(['2020-01-01T00', '2020-01-01T12'], 'datetime64[ns]')
lt = (np.arange(30) * np.timedelta64(1, 'h')).astype('timedelta64[ns]')
p = xr.Dataset({'v': (('init_time', 'lead_time'), np.arange(60.).reshape(2, 30))}, coords=dict(init_time=it, lead_time=lt))
w = latency_wrappers.XarrayConstantLatencyWrapper(xarray_loaders.PredictionsFromXarray(ds=p, rename_dimensions=None), latency=np.timedelta64(390, 'm'))
a = w.get_available_init_time(np.datetime64('2020-01-01T18:00', 'ns'))
print(a)
assert a == it[0], a   # the 12 UTC forecast is issued at 18:30
''')
add('s07-duplicate-days','C09','remove_duplicates with candidate observations more than a day away from the requested time',
 'the time distance is taken modulo one day, so a report 24h05 away beats one 10 minutes away',
 [('data_loaders/sparse_parquet.py',"df['time_diff'] = np.abs(df[self._pick_closest_duplicate_by] - valid_time)","df['time_diff'] = np.abs(\n          df[self._pick_closest_duplicate_by] - valid_time\n      ).dt.seconds")],
'''import os, tempfile, numpy as np, pandas as pd
from weatherbenchX.data_loaders import sparse_parquet
with tempfile.TemporaryDirectory() as d:
  t = pd.to_datetime(['2020-01-03T12:10', '2020-01-04T12:05'])
  for x in pd.date_range('2020-01-01', '2020-01-07'):
    os.makedirs(os.path.join(d, f'year=2020/month=1/day={x.day}'))
    df = pd.DataFrame({'timeObs': t, 'stationName': ['A', 'A'], 'v': [1., 2.]})
    df[df.timeObs.dt.date == x.date()].to_parquet(os.path.join(d, f'year=2020/month=1/day={x.day}/2020-01-{x.day:02d}.parquet'))
  l = sparse_parquet.SparseObservationsFromParquet(path=d, partitioned_by='day', time_dim='timeObs', variables=['v'], coordinate_variables=['stationName'],
      tolerance=np.timedelta64(36, 'h'), remove_duplicates=True, pick_closest_duplicate_by='timeObs', observation_dim='stationName')
  r = l.load_chunk(np.array(['2020-01-03T12'], 'datetime64[ns]'), np.array([0], 'timedelta64[ns]'))
  print(r)
  assert r['v'].values.tolist() == [1.], r['v'].values
''')
add('s08-shared-tmp-name','C10','two writers of the same path running at the same time',
 'both writers share one temporary file, so a reader can see a mixture or one writer fails and removes the file of the other',
 [('beam_utils.py',"tmp_name = f'tmp.{uuid.uuid1()}.{name}'","tmp_name = f'tmp.{uuid.uuid5(uuid.NAMESPACE_URL, file_path)}.{name}'")],
'''import fsspec, os, tempfile
from weatherbenchX import beam_utils
# Interleave two writers deterministically: the second one starts and finishes
# while the first one is between writing and publishing.
with tempfile.TemporaryDirectory() as d:
  path = os.path.join(d, 'out.nc')
  fs = fsspec.filesystem('file')
  cls = type(fs)
  orig, state = cls.mv, []
  def mv(self, *a, **k):
    if not state:
      state.append(1)
      beam_utils.atomic_write(path, b'B' * 10)
    return orig(self, *a, **k)
  cls.mv = mv
  try:
    beam_utils.atomic_write(path, b'A' * 20)
  finally:
    cls.mv = orig
  data = open(path, 'rb').read()
  print(data, os.listdir(d))
  assert data in (b'A' * 20, b'B' * 10) and os.listdir(d) == ['out.nc']
  assert data == b'A' * 20  # the writer that publishes last wins
''')
add('s09-longitude-360','C12','a statistic with a longitude of exactly 360 (or beyond), a region touching the 0 meridian from the east',
 'longitude 360 is no longer treated as 0',
 [('binning.py',"  lon = np.mod(lon, 360)\n","  lon = xr.where(lon < 0, lon + 360, lon)\n")],
'''import numpy as np, xarray as xr
from weatherbenchX import binning
st = xr.DataArray(np.zeros((1, 4)), dims=['latitude', 'longitude'], coords={'latitude': [0.], 'longitude': [0., 5., 355., 360.]})
m = binning.Regions({'r': ((-10, 10), (0, 20))}).create_bin_mask(st).sel(region='r').transpose('latitude', 'longitude').values[0].tolist()
print(m)
assert m == [True, True, False, True]
''')
add('s10-sets-dtype','C13','BySets with a set element longer than every label of the coordinate (fixed-width strings)',
 'set elements are truncated to the coordinate dtype and then match other labels',
 [('binning.py',"      s = np.array(s)\n      mask = statistic[self.coord_name].isin(s)","      s = np.array(s).astype(statistic[self.coord_name].dtype)\n      mask = statistic[self.coord_name].isin(s)")],
'''import numpy as np, xarray as xr
from weatherbenchX import binning
st = xr.DataArray(np.zeros(3), dims=['index'], coords={'station': ('index', np.array(['EGL', 'EDD', 'LFP']))})
m = binning.BySets({'uk': ['EGLL', 'EDD']}, 'station', bin_dim_name='set').create_bin_mask(st).sel(set='uk').values.tolist()
print(m)
assert m == [False, True, False]
''')
add('s11-bin-mask-cache','C03','one Aggregator used for two statistics of equal shape whose binned coordinate differs',
 'bins of an earlier statistic are reused for a later one',
 [('aggregation.py',"      bin_mask = binning_method.create_bin_mask(stat)\n","""      # The same mask is needed for the statistic and for its weights.
      key = (id(binning_method), tuple(stat.sizes.items()))
      cache = self.__dict__.setdefault('_bin_masks', {})
      if key not in cache:
        cache[key] = binning_method.create_bin_mask(stat)
      bin_mask = cache[key]
""")],
'''import numpy as np, xarray as xr
from weatherbenchX import aggregation, binning
def st(labels):
  return xr.DataArray(np.array([1., 2., 4.]), dims=['index'], coords={'station': ('index', labels)})
a = aggregation.Aggregator(reduce_dims=['index'], bin_by=[binning.ByExactCoord('station')])
r = a.aggregate_statistics({'s': {'v': st(['a', 'a', 'b'])}}) + a.aggregate_statistics({'s': {'v': st(['b', 'a', 'a'])}})
r = r.mean_statistics()['s']['v']
print(r)
assert float(r.sel(station='a')) == 9 / 4 and float(r.sel(station='b')) == 5 / 2
''')
