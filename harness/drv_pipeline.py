"""C01 driver: whole pipelines under controlled schedules."""
import os
import pickle
import random
import shutil
import tempfile

import numpy as np
import xarray as xr
import apache_beam as beam

import minibeam
from larr import show
from vlib import guarded, NAN
from weatherbenchX import aggregation, beam_pipeline, binning, interpolations, time_chunks, weighting
from weatherbenchX.data_loaders import base as dl
from weatherbenchX.metrics import deterministic as det

BASE = np.datetime64('2020-02-28T00', 'ns')
CASE_TIMEOUT = 300
METS = {'bias': (det.Bias, 'err'), 'mae': (det.MAE, 'abs'), 'mse': (det.MSE, 'sq'), 'rmse': (det.RMSE, 'sq'),
        'pred': (det.PredictionAverage, 'pred')}


class XWeights(weighting.Weighting):
  def __init__(self, tab):
    self.tab = tab

  def weights(self, statistic):
    if 'x' not in statistic.dims:
      return xr.DataArray(1)
    x = statistic.x
    return x.copy(data=np.array([self.tab[int(v)] for v in x.values], dtype=float))


class AtReference(interpolations.Interpolation):
  """Forecasts at the places of the reference, variable by variable."""

  def interpolate_data_array(self, da, reference):
    return da.sel(x=reference.x) if 'x' in da.dims else da


class Loader(dl.DataLoader):
  """Serves chunks of in-memory arrays, like a loader over a big archive."""

  def __init__(self, arrays, which, mode, presence, **kw):
    super().__init__(**kw)
    self.arrays, self.which, self.mode, self.presence = arrays, which, mode, presence

  def _load_chunk_from_source(self, init_times, lead_times=None):
    out = {}
    for k, a in self.arrays.items():
      if self.mode == 'sparse':
        m = np.isin(a.init_time.values, init_times)
        if isinstance(lead_times, slice):
          m &= (a.lead_time.values >= lead_times.start) & (a.lead_time.values <= lead_times.stop)
        else:
          m &= np.isin(a.lead_time.values, lead_times)
        a = a.isel(index=np.flatnonzero(m))
      else:
        sel = {}
        if 'init_time' in a.dims:
          sel['init_time'] = init_times
        if 'lead_time' in a.dims:
          sel['lead_time'] = lead_times
        a = a.sel(sel)
        if self.mode == 'station' and 'x' in a.dims and self._interpolation is None:
          pres = self.presence.sel(init_time=init_times).any('init_time')
          a = a.isel(x=np.flatnonzero(pres.values))
      out[k] = a.copy(deep=True)
    return out


def cases(rng, tier, mc):
  out = []
  for c in mc:
    r = rnd_cfg(rng, nci=c['ni'], ncl=c['nl'])
    r['keep'] = [d for d, k in (('init_time', c['keepI']), ('lead_time', c['keepL'])) if k]
    r['mode'] = rng.choice(['grid', 'station'])
    r['bins'] = [b for b in r['bins'] if b['over'] != 'init_time' or r['mode'] != 'sparse']
    r['sched'] = tlc_schedule(c)
    out.append(finish(rng, r))
  n = 200 if tier == 'quick' else 4000
  for _ in range(n):
    r = rnd_cfg(rng)
    r['sched'] = dict(kind='random', seed=rng.randrange(10**9))
    out.append(finish(rng, r))
  for i in range(8 if tier == 'quick' else 64):
    r = rnd_cfg(rng)
    r['sched'] = dict(kind='direct', runner=True)
    out.append(finish(rng, r))
  for i in range(16 if tier == 'quick' else 200):
    r = rnd_cfg(rng)
    r['sched'] = dict(kind='single')
    out.append(finish(rng, r))
  return out


def tlc_schedule(c):
  order, lose, progs = [], [], {}
  idx = lambda ch: (ch[0] - 1) * c['nl'] + ch[1] - 1
  for s in c['hist']:
    a = s['a']
    if a == 'process':
      order.append(idx(s['c']))
    elif a == 'lose':
      lose.append(idx(s['c']))
    elif a in ('new', 'add', 'merge'):
      st = [a] + ([s['i'], s['n']] if a == 'add' else [s['i'], s['j']] if a == 'merge' else [])
      progs.setdefault(str(s['k']), []).append(st)
  programs = [dict(n=sum(1 for x in p if x[0] == 'add'), steps=p) for p in progs.values()]
  return dict(kind='tlc', order=order, lose=lose, programs=programs)


def rnd_cfg(rng, nci=None, ncl=None):
  r = dict(mode=rng.choice(['grid', 'grid', 'station', 'sparse'] if nci is None else ['grid', 'station']))
  if nci is None:
    ni, nl = rng.randint(1, 6), rng.randint(1, 5)
    ci = rng.choice([None, rng.randint(1, ni), rng.randint(1, ni + 1), 1])
    cl = rng.choice([None, rng.randint(1, nl), rng.randint(1, nl + 1), 1])
  else:
    ci, cl = rng.randint(1, 2), rng.randint(1, 2)
    ni, nl = ci * (nci - 1) + rng.randint(1, ci), cl * (ncl - 1) + rng.randint(1, cl)
  r.update(ni=ni, nl=nl, ci=ci, cl=cl)
  ih = sorted(rng.sample(range(0, 16), ni))
  lh = sorted(rng.sample(range(0, 10), nl))
  r['inits'] = [h * 6 for h in ih]
  r['leads'] = [h * 6 for h in lh]
  if rng.random() < 0.12:
    rng.shuffle(r['leads'])
  r['nx'] = rng.randint(1, 4)
  r['keep'] = [d for d in ('init_time', 'lead_time', 'x') if rng.random() < 0.35]
  bins = []
  for over, kind in (('init_time', 'day'), ('init_time', 'hour'), ('lead_time', 'day')):
    if rng.random() < 0.2:
      bins.append(dict(over=over, kind=kind, dim=f'{over}_{kind}'))
  r['bins'] = bins[:2]
  r['mets'] = rng.sample(sorted(METS), rng.randint(1, 3))
  r['masked'] = rng.random() < 0.4
  r['nan'] = rng.choice([0, 0, 0.1])
  r['wt'] = rng.random() < 0.5
  r['nvar'] = rng.choice([1, 1, 2, 2, 3])
  r['out'] = rng.choice(['both', 'both', 'both'])
  return r


def finish(rng, r):
  if 'lead_time' in r['keep'] or any(b['over'] == 'lead_time' for b in r['bins']):
    # kept coordinates of different chunks must be orderable for concatenation
    r['leads'] = sorted(r['leads'])
  if r['mode'] == 'sparse':
    r['interval'] = rng.random() < 0.6
    if r['interval']:
      r['cl'] = None
    r['keep'] = []
    r['bins'] = [b for b in r['bins']]
    if rng.random() < 0.4:
      r['bins'] = [dict(over='lead_time', kind='exact', dim='lead_time')]
    n = rng.randint(1, 20)
    r['obs'] = [dict(i=rng.choice(r['inits']), l=rng.choice(r['leads'])) for _ in range(n)]
    dims, size = ['index'], n
  else:
    dims = ['init_time', 'lead_time', 'x']
    rng.shuffle(dims)
    size = r['ni'] * r['nl'] * r['nx']
  r['dims'] = dims
  if r['mode'] == 'station':
    pres = [[int(rng.random() < 0.6) for _ in range(r['nx'])] for _ in range(r['ni'])]
    for row in pres:
      if not any(row):
        row[rng.randrange(r['nx'])] = 1
    for j in range(r['nx']):
      if not any(row[j] for row in pres):
        pres[rng.randrange(r['ni'])][j] = 1
    r['presence'] = pres
  r['byref'] = r['mode'] == 'station' and rng.random() < 0.6
  if r['mode'] == 'station':
    r['masked'] = True
  # values that need double precision: sums and means keep every unit
  r['big'] = size <= 10 and rng.random() < 0.5
  if r['big']:
    r['mets'] = [m for m in r['mets'] if m not in ('mse', 'rmse')] or [rng.choice(['bias', 'mae', 'pred'])]
    r['wt'] = False
  top = 5 * 10**7 if r['big'] else 12
  r['aux'] = r['mode'] == 'grid' and rng.random() < 0.4
  vs = []
  less = rng.choice('uv') if r['mode'] == 'grid' and r['nvar'] > 1 and rng.random() < 0.35 else None
  for k in ['u', 'v', 'w'][:r['nvar']]:
    vs.append(dict(key=k, p=[rng.randint(-top, top) for _ in range(size)], t=[rng.randint(-top, top) for _ in range(size)],
                   nanp=[i for i in range(size) if rng.random() < r['nan'] * 0.3],
                   nant=[i for i in range(size) if rng.random() < r['nan']],
                   nox=(k == less)))
  r['vars'] = vs
  r['wtab'] = {str(x): rng.randint(0, 3) for x in range(1, r['nx'] + 1)}
  return r


KINDS = {'init_time': 'hr', 'lead_time': 'td', 'x': 'raw', 'init_time_day': 'raw', 'init_time_hour': 'raw', 'lead_time_day': 'raw'}


def show_h(da, scale=1, tol=1e-3):
  """Abstract form with hour labels for init_time/lead_time and integers otherwise."""
  labels = []
  for d in da.dims:
    if d not in da.coords:
      labels.append(list(range(1, da.sizes[d] + 1)))
      continue
    v = da[d].values
    if v.dtype.kind == 'M':
      labels.append([int((x - BASE) / np.timedelta64(1, 'h')) for x in v])
    elif v.dtype.kind == 'm':
      labels.append([int(x / np.timedelta64(1, 'h')) for x in v])
    elif d.endswith('_day') and not d.startswith('lead'):
      # day of month -> days since base (28 Feb 2020, leap year)
      labels.append([int(x) - 28 if x >= 28 else int(x) + 1 for x in v])
    else:
      labels.append([int(x) for x in v])
  a = show(da, {}, scale, tol)
  return dict(dims=a['dims'], labels=labels, data=a['data'])


def aux_of(a):
  out = []
  for n in ('elev', 'run', 'valid_time'):
    if n in a.coords:
      v = a.coords[n]
      if v.dtype.kind == 'M':
        v = v.copy(data=(v.values - BASE) / np.timedelta64(1, 'h'))
      out.append(dict(name=n, a=show_h(v.astype(float))))
  return out


def execute(c):
  H = lambda h: np.timedelta64(int(h), 'h').astype('timedelta64[ns]')
  inits = np.array([BASE + H(h) for h in c['inits']])
  leads = np.array([H(h) for h in c['leads']])
  sparse = c['mode'] == 'sparse'

  def full(v, which):
    a = np.array(v[which], dtype=float)
    for i in v['nan' + which]:
      a[i] = np.nan
    if sparse:
      return xr.DataArray(a, dims=['index'], coords={
          'init_time': ('index', np.array([BASE + H(o['i']) for o in c['obs']])),
          'lead_time': ('index', np.array([H(o['l']) for o in c['obs']]))})
    size = {'init_time': c['ni'], 'lead_time': c['nl'], 'x': c['nx']}
    da = xr.DataArray(a.reshape([size[d] for d in c['dims']]), dims=c['dims'],
                      coords={'init_time': inits, 'lead_time': leads, 'x': np.arange(1, c['nx'] + 1)})
    if c['aux']:
      # further coordinates travelling with the dimensions they describe
      da = da.assign_coords(elev=10 * da.x, run=1000 + xr.DataArray(np.array(c['inits']), dims=['init_time']),
                            valid_time=da.init_time + da.lead_time)
    if v['nox']:
      da = da.isel(x=0, drop=True)
    return da

  P = {v['key']: full(v, 'p') for v in c['vars']}
  T = {v['key']: full(v, 't') for v in c['vars']}
  pres = None
  if c['mode'] == 'station':
    pres = xr.DataArray(np.array(c['presence'], bool), dims=['init_time', 'x'], coords={'init_time': inits})
    for k in T:
      if 'x' in T[k].dims:
        p2 = pres.assign_coords(x=T[k].x)
        T[k] = T[k].where(p2).transpose(*T[k].dims)
  reduce = [d for d in c['dims'] if d not in c['keep']]
  kw = dict(reduce_dims=reduce, masked=c['masked'])
  bin_objs = []
  for b in c['bins']:
    bin_objs.append(binning.ByExactCoord(b['over']) if b['kind'] == 'exact' else binning.ByTimeUnit(b['kind'], b['over']))
  if bin_objs:
    kw['bin_by'] = bin_objs
  if c['wt']:
    kw['weigh_by'] = [XWeights({int(k): v for k, v in c['wtab'].items()})]
  metrics = {f'my_{m}': METS[m][0]() for m in c['mets']}
  stats, mets = {}, []
  for m in c['mets']:
    st = list(metrics[f'my_{m}'].statistics.values())[0].unique_name
    stats[st] = METS[m][1]
    mets.append(dict(name=f'my_{m}', stat=st))
  ev = dict(op='run', mode=c['mode'], kind=c['sched']['kind'], reduce=reduce, masked=c['masked'], bins=c['bins'], mets=mets,
            stats=[dict(name=k, kind=v) for k, v in stats.items()], vars=[],
            aux=int(c['aux']), mscale=1 if c['big'] else 256, chunks=[c['ci'] or 0, c['cl'] or 0])
  if sparse:
    ev['obsinit'] = [o['i'] for o in c['obs']]
    ev['obslead'] = [o['l'] for o in c['obs']]
  for v in c['vars']:
    t = T[v['key']]
    mask = []
    if c['masked']:
      mask = [show_h((~t.isnull()).astype(int))]
    wts = []
    if c['wt'] and 'x' in t.dims:
      wts = [dict(dims=['x'], labels=[list(range(1, c['nx'] + 1))], data=[c['wtab'][str(x)] for x in range(1, c['nx'] + 1)])]
    ev['vars'].append(dict(key=v['key'], p=show_h(P[v['key']]), t=show_h(t), mask=mask, weights=wts))

  lt = slice(H(min(c['leads'])), H(max(c['leads']))) if c.get('interval') else leads
  s = c['sched']
  d = tempfile.mkdtemp(prefix='pipe_')

  def run():
    mk = lambda arrs, w, **k: Loader(arrs, w, c['mode'], pres, **k)
    pl, tl = mk(P, 'p', interpolation=AtReference() if c['byref'] else None), mk(T, 't', add_nan_mask=c['masked'])
    agg = aggregation.Aggregator(**kw)
    if s['kind'] == 'single':
      if c.get('interval'):
        ch = time_chunks.TimeChunks(inits, lt)[0]
      else:
        ch = (inits, leads)
      tc = tl.load_chunk(*ch)
      pc = pl.load_chunk(*ch, tc)
      from weatherbenchX.metrics import base as mb
      state = agg.aggregate_statistics(mb.compute_unique_statistics_for_all_metrics(metrics, pc, tc))
      values = aggregation.compute_metric_values_for_single_chunk(metrics, agg, pc, tc)
    else:
      times = time_chunks.TimeChunks(inits, lt, c['ci'], c['cl'])
      mp, sp = os.path.join(d, 'a', 'metrics.nc'), os.path.join(d, 'state.nc')
      def build(p):
        beam_pipeline.define_pipeline(p, times, pl, tl, metrics, agg, out_path=mp, aggregation_state_out_path=sp)
      def mini(**k):
        p = beam.Pipeline()
        build(p)
        minibeam.run(p, minibeam.Schedule(**k))
      def direct():
        with beam.Pipeline(runner='DirectRunner') as p:
          build(p)
      try:
        if s['kind'] == 'tlc':
          mini(rng=random.Random(7), order=s['order'], lose=s['lose'], programs=s['programs'], chaos=False)
        elif s['kind'] == 'random':
          mini(rng=random.Random(s['seed']))
        else:
          direct()
      except minibeam.Unsupported:
        direct()
      values = xr.load_dataset(mp)
      state = aggregation.AggregationState.from_dataset(xr.load_dataset(sp))
    st = []
    for name, dd in state.sum_weighted_statistics.items():
      for var, a in dd.items():
        st.append(dict(stat=name, var=str(var), s=show_h(a), w=show_h(state.sum_weights[name][var]), aux=aux_of(a)))
    ms = []
    for name, a in values.items():
      m, var = name.rsplit('.', 1)
      if m == 'my_rmse':
        a = a * a
      ms.append(dict(metric=m, var=var, a=show_h(a, 1 if c['big'] else 256, None), aux=aux_of(a)))
    return dict(state=st, metrics=ms)
  try:
    return [guarded(run, ev)]
  finally:
    shutil.rmtree(d, ignore_errors=True)
