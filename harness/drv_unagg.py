"""C14 driver: the unaggregated pipeline under controlled schedules."""
import os
import random
import shutil
import tempfile
import warnings

import numpy as np
import xarray as xr
import apache_beam as beam

import minibeam
from drv_pipeline import AtReference, BASE, Loader, show_h
from vlib import guarded
from weatherbenchX import beam_pipeline, time_chunks
from weatherbenchX.data_loaders import xarray_loaders
from weatherbenchX.metrics import base as mb
from weatherbenchX.metrics import deterministic as det

CASE_TIMEOUT = 300
KINDS = {'err': det.Bias, 'abs': det.MAE, 'sq': det.MSE, 'pred': det.PredictionAverage}
SUMMED = {'sumx': 'x', 'suml': 'lead_time', 'sumi': 'init_time'}
H = lambda h: np.timedelta64(int(h), 'h').astype('timedelta64[ns]')


class SumStat(mb.PerVariableStatistic):
  """Errors summed over one dimension."""

  def __init__(self, dim):
    self.dim = dim

  @property
  def unique_name(self):
    return f'sum_{self.dim}'

  def _compute_per_variable(self, predictions, targets):
    return (predictions - targets).sum(self.dim, skipna=False)


class Anomaly(mb.PerVariableStatisticWithClimatology):

  def _compute_per_variable_with_aligned_climatology(self, predictions, targets, aligned_climatology):
    return predictions - aligned_climatology


class Single(mb.PerVariableMetric):

  def __init__(self, stat):
    self.stat = stat

  @property
  def statistics(self):
    return {'s': self.stat}

  def _values_from_mean_statistics_per_variable(self, statistic_values):
    return statistic_values['s']


def cases(rng, tier, mc):
  out = []
  for c in rng.sample(mc, min(len(mc), 90 if tier == 'quick' else 3000)):
    r = rnd_cfg(rng, c)
    order = [(a[1] - 1) * (-(-c['nl'] // c['cl'])) + a[2] - 1 for a in c['hist'] if a[0] == 'process']
    lose = [(a[1] - 1) * (-(-c['nl'] // c['cl'])) + a[2] - 1 for a in c['hist'] if a[0] == 'lose']
    r['sched'] = dict(kind='tlc', order=order, lose=lose)
    out.append(r)
  for _ in range(110 if tier == 'quick' else 3000):
    r = rnd_cfg(rng)
    r['sched'] = dict(kind='random', seed=rng.randrange(10**9))
    out.append(r)
  for _ in range(10 if tier == 'quick' else 100):
    r = rnd_cfg(rng)
    r['sched'] = dict(kind='direct')
    out.append(r)
  return out


def rnd_cfg(rng, c=None):
  r = dict(src=rng.choice(['mem', 'mem', 'xr']))
  if c is None:
    ni, nl = rng.randint(1, 7), rng.randint(1, 6)
    ci = rng.choice([None, rng.randint(1, ni), rng.randint(1, ni + 2), 1])
    cl = rng.choice([None, rng.randint(1, nl), rng.randint(1, nl + 2), 1])
    zarr = {}
    for d, n in (('init_time', ni), ('lead_time', nl)):
      if rng.random() < 0.6:
        zarr[d] = rng.choice([-1, 1, rng.randint(1, n), rng.randint(1, n)])
  else:
    ni, nl, ci, cl = c['ni'], c['nl'], c['ci'], c['cl']
    zarr = dict(init_time=c['zi'], lead_time=c['zl'])
  r.update(ni=ni, nl=nl, ci=ci, cl=cl)
  src_i = sorted(rng.sample(range(0, 14), ni + rng.randint(0, 3)))
  src_l = sorted(rng.sample(range(0, 10), min(10, nl + rng.randint(0, 3))))
  inits, leads = sorted(rng.sample(src_i, ni)), sorted(rng.sample(src_l, nl))
  if rng.random() < 0.2:
    rng.shuffle(inits)
  if rng.random() < 0.2:
    rng.shuffle(leads)
  r['interval'] = []
  if c is None and r['src'] == 'mem' and rng.random() < 0.15:
    a, b = min(leads), max(leads)
    leads = [h for h in src_l if a <= h <= b]
    r['nl'] = nl = len(leads)
    r['interval'] = [a * 6, b * 6]
    r['cl'] = cl = None
    if zarr.get('lead_time', 0) > nl:
      del zarr['lead_time']
  r['srci'], r['srcl'] = [h * 6 for h in src_i], [h * 6 for h in src_l]
  r['inits'], r['leads'] = [h * 6 for h in inits], [h * 6 for h in leads]
  r['extra'] = rng.choice([[], ['x'], ['x'], ['x', 'y']])
  r['size'] = {d: rng.randint(1, 3) for d in r['extra']}
  for d in r['extra']:
    if rng.random() < 0.25:
      zarr[d] = rng.choice([-1, 1, r['size'][d]])
  r['zarr'] = zarr if (zarr or rng.random() < 0.5) else None
  dims = ['init_time', 'lead_time'] + r['extra']
  if rng.random() < 0.4:
    rng.shuffle(dims)
  r['dims'] = dims
  kinds = list(KINDS) + ['anom']
  if 'x' in r['extra']:
    kinds.append('sumx')
  if cl is None or cl >= nl:
    kinds.append('suml')
  if ci is None or ci >= ni:
    kinds.append('sumi')
  r['stats'] = rng.sample(kinds, rng.randint(1, min(4, len(kinds))))
  # rechunking is only defined along dimensions some stored statistic has
  kept = {d for k in r['stats'] for d in dims if SUMMED.get(k) != d}
  r['zarr'] = {d: z for d, z in zarr.items() if d in kept} if r['zarr'] is not None else None
  r['aux'] = [a for a in ('elev', 'season', 'both', 'range') if rng.random() < 0.3 and (a in ('season', 'range') or 'x' in r['extra'])]
  r['dtype'] = rng.choice(['float64', 'float32', 'int64'])
  nanp = 0 if r['dtype'] == 'int64' else rng.choice([0, 0, 0.15])
  n = len(src_i) * len(src_l) * int(np.prod([r['size'][d] for d in r['extra']] or [1]))
  times = sorted({a + b for a in r['srci'] for b in r['srcl']})
  nt = len(times) * int(np.prod([r['size'][d] for d in r['extra']] or [1]))
  # values that need more than single precision keep every unit
  big = r['dtype'] != 'float32' and 'sq' not in r['stats'] and rng.random() < 0.4
  top = 3 * 10**7 if big else 30
  num = lambda: 2000000001 if rng.random() < nanp else rng.randint(-top, top)
  r['byref'] = rng.sample(range(r['size']['x']), rng.randint(1, r['size']['x'])) if 'x' in r['extra'] and rng.random() < 0.35 else None
  if r['byref'] and r['zarr'] and 'x' in r['zarr']:
    r['zarr']['x'] = rng.choice([-1, 1, len(r['byref'])])
  r['times'] = times
  r['vars'] = [dict(key=k, p=[num() for _ in range(n)], t=[num() for _ in range(nt if r['src'] == 'xr' else n)])
               for k in rng.sample(['u', 'v', '2m_t'], rng.randint(1, 2))]
  r['clim'] = [rng.randint(-20, 20) for _ in times]
  r['climform'] = rng.choice(['time', 'doy'])
  if r['climform'] == 'doy' and (max(times) >= 24 * 300):
    r['climform'] = 'time'
  return r


def execute(c):
  size = dict(c['size'], init_time=len(c['srci']), lead_time=len(c['srcl']), time=len(c['times']))
  lab = {'init_time': np.array([BASE + H(h) for h in c['srci']]), 'lead_time': np.array([H(h) for h in c['srcl']]),
         'time': np.array([BASE + H(h) for h in c['times']])}
  for d in c['extra']:
    lab[d] = np.arange(1, c['size'][d] + 1)

  def arr(data, dims):
    a = np.array([np.nan if v == 2000000001 else v for v in data], float).reshape([size[d] for d in dims])
    return xr.DataArray(a.astype(c['dtype']), dims=dims, coords={d: lab[d] for d in dims})

  tdims = c['dims'] if c['src'] == 'mem' else ['time'] + c['extra']
  P = {v['key']: arr(v['p'], c['dims']) for v in c['vars']}
  T = {v['key']: arr(v['t'], tdims) for v in c['vars']}
  aux = []
  for a in c['aux']:
    ds = dict(elev=['x'], season=['init_time'], range=['lead_time'], both=['init_time', 'x'])[a]
    co = xr.DataArray(np.arange(1, 1 + int(np.prod([size[d] for d in ds]))).reshape([size[d] for d in ds]) * 3, dims=ds,
                      coords={d: lab[d] for d in ds})
    aux.append(dict(name=a, a=show_h(co)))
    P = {k: v.assign_coords({a: co}) for k, v in P.items()}
  tvals = lab['time']
  if c['climform'] == 'time':
    clim = xr.Dataset({k: ('time', np.array(c['clim'], float)) for k in P}, coords={'time': tvals})
  else:
    doy, hrs = xr.DataArray(tvals, dims='t').dt.dayofyear.values, xr.DataArray(tvals, dims='t').dt.hour.values
    table = np.full((366, 4), 1000.)
    for d_, h_, v_ in zip(doy, hrs, c['clim']):
      table[d_ - 1, h_ // 6] = v_
    clim = xr.Dataset({k: (('dayofyear', 'hour'), table) for k in P}, coords={'dayofyear': np.arange(1, 367), 'hour': [0, 6, 12, 18]})
  PF = P
  if c['byref']:
    # the forecasts cover every x, the targets some of them in an order of their own
    pick = lab['x'][np.array(c['byref'])]
    P = {k: v.sel(x=pick) for k, v in P.items()}
    T = {k: v.sel(x=pick) for k, v in T.items()}
  metrics, stats = {}, []
  for k in c['stats']:
    if k in KINDS:
      m = KINDS[k]()
    elif k == 'anom':
      m = Single(Anomaly(clim))
    else:
      m = Single(SumStat(SUMMED[k]))
    metrics[f'm_{k}'] = m
    stats.append(dict(kind=k, name=list(m.statistics.values())[0].unique_name))
  ev = dict(op='run', kind=c['sched']['kind'], src=c['src'], inits=c['inits'], leads=c['leads'], srcleads=c['srcl'],
            interval=c['interval'], stats=stats, aux=aux, chunks=[c['ci'] or 0, c['cl'] or 0],
            zarr=[dict(dim=k, n=n) for k, n in (c['zarr'] or {}).items()],
            clim=[dict(dims=['time'], labels=[c['times']], data=c['clim'])],
            vars=[dict(key=k, p=show_h(P[k]), t=show_h(T[k])) for k in P])
  inits = np.array([BASE + H(h) for h in c['inits']])
  leads = slice(*[H(h) for h in c['interval']]) if c['interval'] else np.array([H(h) for h in c['leads']])
  d = tempfile.mkdtemp(prefix='unagg_')

  def run():
    if c['src'] == 'mem':
      pl, tl = Loader(PF, 'p', 'grid', None, interpolation=AtReference() if c['byref'] else None), Loader(T, 't', 'grid', None)
    else:
      pl = xarray_loaders.PredictionsFromXarray(ds=xr.Dataset(PF), rename_dimensions=None,
                                                interpolation=AtReference() if c['byref'] else None)
      tl = xarray_loaders.TargetsFromXarray(ds=xr.Dataset(T).rename(time='valid_time'), rename_dimensions=None)
    times = time_chunks.TimeChunks(inits, leads, c['ci'], c['cl'])
    path = os.path.join(d, 'out.zarr')

    def build(p):
      shutil.rmtree(path, ignore_errors=True)
      beam_pipeline.define_unaggregated_pipeline(p, times, pl, tl, metrics, path, zarr_chunks=c['zarr'])

    def mini(**k):
      p = beam.Pipeline()
      build(p)
      minibeam.run(p, minibeam.Schedule(**k))

    def direct():
      with beam.Pipeline(runner='DirectRunner') as p:
        build(p)
    s = c['sched']
    try:
      if s['kind'] == 'tlc':
        mini(rng=random.Random(5), order=list(s['order']), lose=s['lose'], chaos=True)
      elif s['kind'] == 'random':
        mini(rng=random.Random(s['seed']))
      else:
        direct()
    except minibeam.Unsupported:
      direct()
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      ds = xr.open_zarr(path).load()
    coords = []
    for n, co in ds.coords.items():
      if n in co.dims:
        continue
      if n == 'valid_time':
        co = ((co - BASE) / np.timedelta64(1, 'h'))
      coords.append(dict(name=str(n), a=show_h(co)))
    return dict(out=[dict(name=str(k), a=show_h(v), chunks=[int(n) for n in v.encoding['chunks']]) for k, v in ds.data_vars.items()],
                coords=coords)
  try:
    return [guarded(run, ev)]
  finally:
    shutil.rmtree(d, ignore_errors=True)
