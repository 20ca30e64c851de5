"""C05 driver: metrics evaluated together vs alone."""
import random
import copy

import numpy as np
import xarray as xr

import catalogue
from larr import show
from vlib import guarded, encr
from weatherbenchX import aggregation
from weatherbenchX.metrics import base

FAM = catalogue.families()


def cases(rng, tier, mc):
  out = []
  for c in mc:
    out.append(dict(kind='synthetic', uses=c['uses'], p=[rng.randint(-5, 5) for _ in range(4)], t=[rng.randint(-5, 5) for _ in range(4)],
                    per_variable=rng.random() < 0.5, route=rng.choice(['state', 'direct'])))
  for fam, lst in FAM.items():
    for i in range(len(lst)):
      for j in range(i + 1, len(lst)):
        if lst[i][0] == lst[j][0]:
          for nan in (0, 0.03):
            out.append(mk(rng, fam, [i, j] if rng.random() < 0.5 else [j, i], nan))
  n = 120 if tier == 'quick' else 3000
  for _ in range(n):
    fam = rng.choice(list(FAM))
    k = rng.randint(2, min(7, len(FAM[fam])))
    idx = rng.sample(range(len(FAM[fam])), k)
    # no two variants known to share a statistic name (see known findings)
    seen = set()
    keep = []
    for i in idx:
      a = clim(*FAM[fam][i][:2])
      if any(x[0] == y[0] and x[1] != y[1] for x in a for y in seen):
        continue
      seen |= a
      keep.append(i)
    out.append(mk(rng, fam, keep))
  return out

# metrics with a climatology, which is not part of the statistic name (known
# findings): {(statistic group, climatology)}
def clim(c, v):
  if c == 'ACC':
    return {('anom', v)}
  if c == 'PredictionActivity':
    return {('anom', v)}
  if c == 'SEEPS':
    return {('seeps', 'clim' in v)}
  if c == 'Confident':
    return {('conf', v == 'clim')}
  if c == 'Jaccard':
    return {('jac', v == 'clim')}
  if c == 'Opportunism':
    return {('conf', False), ('jac', False)}
  return set()


def mk(rng, fam, idx, nan=None):
  return dict(kind='joint', fam=fam, idx=idx, names=['-'.join(FAM[fam][i][:2]) for i in idx], seed=rng.randrange(10**9), nan=rng.choice([0, 0, 0.02, 0.06]) if nan is None else nan,
              mask=rng.random() < 0.3, skipna=rng.random() < 0.5, route=rng.choice(['state', 'direct']), container=rng.choice(['dict', 'dict', 'dataset']),
              reduce=rng.choice([['init_time', 'latitude', 'longitude'], ['init_time', 'lead_time'], ['init_time', 'lead_time', 'latitude', 'longitude']]))


def execute(c):
  return [synthetic(c) if c['kind'] == 'synthetic' else joint(c)]


def values(metrics, agg, P, T, route):
  """[(metric, var, DataArray)] and the names in the result dataset."""
  if route == 'state':
    stats = base.compute_unique_statistics_for_all_metrics(metrics, P, T)
    st = agg.aggregate_statistics(stats)
    mean = st.mean_statistics()
    vals = base.compute_metrics_from_statistics(metrics, mean)
    return [(m, str(v), a) for m, d in vals.items() for v, a in d.items()], None
  ds = aggregation.compute_metric_values_for_single_chunk(metrics, agg, P, T)
  out = []
  for k in ds.data_vars:
    m, _, v = k.rpartition('.')
    out.append((m, v, ds[k]))
  return out, sorted(str(k) for k in ds.data_vars)


def frame(a):
  """Arrays with arbitrary labels, abstracted to positions of sorted labels."""
  labels = []
  for d in a.dims:
    if d in a.coords:
      labels.append([int(x) for x in rank(a[d].values)])
    else:
      labels.append(list(range(1, a.sizes[d] + 1)))
  v = np.asarray(a.values, dtype=float).ravel()
  return dict(dims=[str(d) for d in a.dims], labels=labels, data=[encr(x, 10000) for x in v])


def rank(v):
  import zlib
  v = [float(x) if np.asarray(x).dtype.kind in 'iufb' else x for x in np.asarray(v).tolist()] if np.asarray(v).dtype.kind not in 'mM' else v
  return [zlib.crc32(str(x).encode()) % 1000000007 % 2000000000 for x in v]


def joint(c):
  lst = [FAM[c['fam']][i] for i in c['idx']]
  ev = dict(op='joint', family=c['fam'], pair='|'.join(sorted(c['names'])))

  def run():
    rng = random.Random(c['seed'])
    P, T = catalogue.data(c['fam'], rng, nan=c['nan'], mask=c['mask'])
    if c['container'] == 'dataset' and not c['mask']:
      P, T = xr.Dataset(P), xr.Dataset(T)
    P0, T0 = copy.deepcopy(P), copy.deepcopy(T)
    agg = aggregation.Aggregator(reduce_dims=c['reduce'], masked=c['mask'], skipna=c['skipna'])
    mets = {f'm{i}': f() for i, (_, _, f) in enumerate(lst)}
    fresh = lambda x: copy.deepcopy(x)
    alone = []
    for i, (_, _, f) in enumerate(lst):
      try:
        r, _ = values({f'm{i}': f()}, agg, fresh(P0), fresh(T0), 'direct')
      except Exception as e:  # not evaluable on its own: nothing to compare
        return dict(alone=[], joint=[], unchanged=True, dsnames=[], wantnames=[], skipped=f'{type(e).__name__}: {e}'[:200])
      alone += r
    got, names = values(mets, agg, P, T, c['route'])
    want = sorted(f'{m}.{v}' for m, v, _ in alone)
    same = all(P[k].identical(P0[k]) and T[k].identical(T0[k]) for k in P0)
    sh = lambda s: [dict(metric=m, var=v, a=frame(a)) for m, v, a in s]
    return dict(alone=sh(alone), joint=sh(got), unchanged=bool(same), dsnames=names if names is not None else want, wantnames=want, skipped='')
  return guarded(run, ev)


class Stat(base.Statistic):
  def __init__(self, k, calls):
    self.k, self.calls = k, calls

  @property
  def unique_name(self):
    return f'stat{self.k}'

  def compute(self, predictions, targets):
    return {v: self.k * predictions[v] + targets[v] for v in predictions}


class PVStat(base.PerVariableStatistic):
  def __init__(self, k, calls):
    self.k = k

  @property
  def unique_name(self):
    return f'stat{self.k}'

  def _compute_per_variable(self, p, t):
    return self.k * p + t


class Met(base.Metric):
  def __init__(self, uses, cls, calls):
    self.uses, self.cls, self.calls = uses, cls, calls

  @property
  def statistics(self):
    return {f's{i}': self.cls(k, self.calls) for i, k in enumerate(self.uses)}

  def values_from_mean_statistics(self, sv):
    return {v: sum(10**i * sv[f's{i}'][v] for i in range(len(self.uses))) for v in sv['s0']}


class PVMet(base.PerVariableMetric):
  def __init__(self, uses, cls, calls):
    self.uses, self.cls, self.calls = uses, cls, calls

  @property
  def statistics(self):
    return {f's{i}': self.cls(k, self.calls) for i, k in enumerate(self.uses)}

  def _values_from_mean_statistics_per_variable(self, sv):
    return sum(10**i * sv[f's{i}'] for i in range(len(self.uses)))


def synthetic(c):
  ev = dict(op='synthetic', uses=c['uses'], p=c['p'], t=c['t'])

  def run():
    P = {'z': xr.DataArray(np.array(c['p'], float), dims=['x'])}
    T = {'z': xr.DataArray(np.array(c['t'], float), dims=['x'])}
    calls = {}
    cls, mc = (PVStat, PVMet) if c['per_variable'] else (Stat, Met)
    mets = {f'm{i + 1}': mc(u, cls, calls) for i, u in enumerate(c['uses'])}
    got, _ = values(mets, aggregation.Aggregator(reduce_dims=['x']), P, T, c['route'])
    return dict(got=[dict(m=int(m[1:]), v=encr(float(a), 4096)) for m, v, a in got])
  return guarded(run, ev)
