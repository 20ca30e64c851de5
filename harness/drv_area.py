"""C19 driver: grid-area weights and area-weighted means."""
import random

import numpy as np
import xarray as xr

from vlib import guarded, encr
from weatherbenchX import aggregation
from weatherbenchX import weighting

Q = 4
WS = 1 << 20
AREA = 500000000


def cases(rng, tier, mc):
  out = []
  for i, c in enumerate(mc):
    a = c['axis']
    out.append(dict(kind='weights', axis=a, seed=i, normalized=True))
    out.append(dict(kind='weights', axis=a[::-1], seed=i, normalized=i % 3 > 0))
  for res in (1, 2, 4, 6, 8, 10, 20, 40, 80, 120, 180, 360):
    for poles in (True, False):
      a = list(range(-360, 361, res)) if poles else list(range(-360 + res // 2, 361, res))
      if len(a) < 2:
        continue
      for rev in (False, True):
        out.append(dict(kind='weights', axis=a[::-1] if rev else a, seed=res, normalized=rng.random() < .6))
        if len(a) <= 200:
          out.append(dict(kind='mean', axis=a[::-1] if rev else a, seed=res + 1))
  n = 250 if tier == 'quick' else 4000
  for _ in range(n):
    a = axis(rng)
    if rng.random() < .5:
      out.append(dict(kind='mean', axis=a, seed=rng.randrange(10**9)))
    else:
      c = dict(kind='weights', axis=a, seed=rng.randrange(10**9), normalized=rng.random() < .6)
      if rng.random() < .1 and len(a) > 2:
        b = list(a)
        if rng.random() < .5:
          rng.shuffle(b)
        else:
          b[-1], b[-2] = b[-2], b[-1]
        c['axis'] = b
      if rng.random() < .1:
        c['nolat'] = True
        c['axis'] = a
      out.append(c)
  return out


def axis(rng):
  n = rng.choice([2, 2, 3, 3, 4, 5, 8, 13, 30])
  step = rng.choice([1, 1, 2, 10, 20])
  dom = range(-360, 361, step)
  a = sorted(rng.sample(dom, min(n, len(dom))))
  k = rng.random()
  if k < .25:
    a[0] = -360
  if .15 < k < .4:
    a[-1] = 360
  if k > .8:  # regional, evenly spaced
    s = rng.choice([1, 2, 4, 10, 20])
    a0 = rng.randrange(-360, 300)
    a = [a0 + i * s for i in range(n) if a0 + i * s <= 360]
  a = sorted(set(a))
  if len(a) < 2:
    a = [-360, 360]
  return a[::-1] if rng.random() < .5 else a


def execute(c):
  r = random.Random(c['seed'])
  name = r.choice(['latitude', 'latitude', 'latitude', 'lat'])
  dt = r.choice(['float64', 'float64', 'float32', 'int']) if len(c['axis']) > 1 else 'float64'
  if dt == 'int' and any(x % Q for x in c['axis']):
    dt = 'float64'
  lat = np.array([x / Q for x in c['axis']]).astype(dt)
  nlon = r.randint(1, 4)
  extra = r.choice([[], ['time'], ['time', 'lead']])
  dims = [name, 'longitude'] + extra
  r.shuffle(dims)
  sizes = {name: len(lat), 'longitude': nlon, 'time': 2, 'lead': 2}
  coords = {name: lat, 'longitude': np.arange(nlon) * 90.0}
  if r.random() < .5:
    coords['time'] = ('time', np.arange(2)) if 'time' in extra else 7
  data = np.random.RandomState(c['seed'] % 1000).randn(*[sizes[d] for d in dims])
  kw = {} if name == 'latitude' and r.random() < .7 else dict(latitude_name=name)
  ev = dict(op=c['kind'], axis=c['axis'], single=dt == 'float32')
  if c['kind'] == 'weights':
    if r.random() < .3:
      data[r.randrange(data.shape[0])] = np.nan
    st = xr.DataArray(data, dims=dims, coords=coords)
    if c.get('nolat'):
      st = st.isel({name: 0}, drop=r.random() < .5)
    if c.get('nolat') and r.random() < .4:  # stations: latitude is no dimension
      st = xr.DataArray(np.zeros(len(lat)), dims='index', coords={name: ('index', lat)})
    ev.update(normalized=c['normalized'], haslat=not c.get('nolat'))
    if not c['normalized'] or r.random() < .4:
      kw['return_normalized'] = c['normalized']

    def run():
      before = st.copy(deep=True)
      w = weighting.GridAreaWeighting(**kw)
      w.weights(st) if r.random() < .3 else None
      res = w.weights(st)
      scale = WS if (c['normalized'] or c.get('nolat')) else AREA
      labels = [[int(round(float(v) * Q)) if abs(float(v) * Q - round(float(v) * Q)) < 1e-9 else 99999 for v in res[d].values] if d in res.coords else list(range(res.sizes[d])) for d in res.dims]
      return dict(res=dict(dims=['lat' if d == name else str(d) for d in res.dims], labels=labels,
                           data=[encr(v, scale) for v in np.asarray(res.values, dtype=float).ravel()]),
                  unchanged=bool(st.identical(before)))
    return [guarded(run, ev)]
  # area-weighted mean
  band = [x for x in c['axis'] if r.random() < .5]
  lons = [x for x in range(nlon) if r.random() < .6]
  if r.random() < .2:
    band, lons = list(c['axis']), list(range(nlon))
  val = r.randint(0, 5)
  f = xr.DataArray(np.isin(np.array(c['axis']), band).astype(float), dims=[name], coords={name: lat}) * xr.DataArray(np.isin(np.arange(nlon), lons) * float(val), dims=['longitude'], coords={'longitude': coords['longitude']})
  st = f.broadcast_like(xr.DataArray(data, dims=dims, coords=coords)).transpose(*dims)
  if dt == 'float32' and r.random() < .3:
    st = st.astype('float32')
  reduce_extra = [d for d in extra if r.random() < .5]
  keep = [d for d in extra if d not in reduce_extra]
  norm = r.random() < .6
  ev.update(band=band, nlon=nlon, nin=len(lons), c=val, nmeans=2 ** len(keep))
  if st.dtype == 'float32':
    ev['single'] = True

  def run():
    agg = aggregation.Aggregator(reduce_dims=[name, 'longitude'] + reduce_extra, weigh_by=[weighting.GridAreaWeighting(latitude_name=name, return_normalized=norm)])
    state = agg.aggregate_statistics({'s': {'v': st}})
    m = state.mean_statistics()['s']['v']
    return dict(means=[encr(v, WS) for v in np.asarray(m.values, dtype=float).ravel()])
  return [guarded(run, ev)]
