"""Shared by the metric drivers: labelled inputs, chunked evaluation, logging."""
import numpy as np
import xarray as xr

from larr import make, show
from vlib import NAN
from weatherbenchX import aggregation
from weatherbenchX import weighting
from weatherbenchX.metrics import base

KINDS = {'init_time': 'dt', 'lead_time': 'td', 'latitude': 'float', 'longitude': 'float', 'level': 'int', 'station': 'str',
         'series': 'int', 'step': 'int', 'number': 'int', 'thr': 'float', 'error_exceedance_thresholds': 'float'}
DIMS = ['init_time', 'lead_time', 'latitude', 'longitude', 'level', 'station']


def rand_arr(rng, dims, lab, val, shuffle=.4):
  ds = list(dims)
  if rng.random() < shuffle:
    rng.shuffle(ds)
  labels = []
  for d in ds:
    ls = list(lab[d])
    labels.append(ls)
  n = int(np.prod([len(x) for x in labels])) if ds else 1
  return dict(dims=ds, labels=labels, data=[val() for _ in range(n)])


def build(a, dtype='float64', name=None, kinds=KINDS):
  return make(a['dims'], a['labels'], a['data'], kinds, dtype=dtype, name=name)


class FixedWeights(weighting.Weighting):
  """Given labelled weights, restricted to the labels of the statistic."""

  def __init__(self, da):
    self.da = da

  def weights(self, statistic):
    return self.da.sel({d: statistic[d].values for d in self.da.dims if d in statistic.dims})


def pieces(das, cut):
  """Splits inputs along a dimension into consecutive (or interleaved) groups of labels."""
  if not cut:
    return [das]
  dim, groups = cut
  out = []
  for g in groups:
    part = []
    for m in das:
      q = {}
      for k, v in m.items():
        if dim in v.dims:
          idx = [i for i in range(v.sizes[dim]) if i in g]
          q[k] = v.isel({dim: idx})
        else:
          q[k] = v
      part.append(q)
    out.append(tuple(part))
  return out


def evaluate(metrics, P, T, reduce, weights=(), skipna=False, cut=None, order=None, form='dict', masked=False, bin_by=None):
  """Metric values: statistics per piece, aggregated, added up."""
  agg = aggregation.Aggregator(reduce_dims=list(reduce), weigh_by=[FixedWeights(w) for w in weights] or None, skipna=skipna, masked=masked, bin_by=bin_by)
  states = []
  for p, t in pieces((P, T), cut):
    if form == 'dataset':
      p, t = xr.Dataset(p), xr.Dataset(t)
    stats = base.compute_unique_statistics_for_all_metrics(metrics, p, t)
    states.append(agg.aggregate_statistics(stats))
  if order:
    states = [states[i] for i in order if i < len(states)]
  total = aggregation.AggregationState.sum(states)
  return total.metric_values(metrics)


def random_cut(rng, dims, labels, p=.7):
  cand = [d for d in dims if len(labels[d]) > 1]
  if not cand or rng.random() > p:
    return None
  d = rng.choice(cand)
  n = len(labels[d])
  ng = rng.randint(2, min(3, n))
  if rng.random() < .7:
    cuts = sorted(rng.sample(range(1, n), ng - 1))
    groups = [list(range(a, b)) for a, b in zip([0] + cuts, cuts + [n])]
  else:
    who = [rng.randrange(ng) for _ in range(n)]
    groups = [[i for i in range(n) if who[i] == k] for k in range(ng)]
    groups = [g for g in groups if g]
  return [d, groups]


def same(before, after):
  return all(b.identical(a) for b, a in zip(before, after))
