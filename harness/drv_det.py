"""C24 driver: deterministic statistics and metrics."""
import random

import numpy as np
import xarray as xr

from larr import show
from mlib import DIMS, KINDS, build, evaluate, rand_arr, random_cut
from vlib import NAN, guarded, encr
from weatherbenchX.metrics import deterministic as det

SIMPLE = ['Error', 'AbsoluteError', 'SquaredError', 'Prediction', 'Target', 'PredictionWithTargetNans', 'TargetWithPredictionNans']
MEANS = SIMPLE + ['RMSE', 'RMSE', 'ErrorExceedance', 'WindSquaredError', 'WindVectorRMSE', 'WindVectorRMSE']


def metric_obj(m, c):
  if m == 'Error':
    return [det.Error, det.Bias][c['alias']]()
  if m == 'AbsoluteError':
    return [det.AbsoluteError, det.MAE][c['alias']]()
  if m == 'SquaredError':
    return [det.SquaredError, det.MSE][c['alias']]()
  if m == 'Prediction':
    return [det.PredictionPassthrough, det.PredictionAverage][c['alias']]()
  if m == 'Target':
    return [det.TargetPassthrough, det.TargetAverage][c['alias']]()
  if m == 'PredictionWithTargetNans':
    return det.PredictionPassthrough(copy_nans_from_targets=True)
  if m == 'TargetWithPredictionNans':
    return det.TargetPassthrough(copy_nans_from_predictions=True)
  if m == 'RMSE':
    return det.RMSE()
  raise ValueError(m)


def cases(rng, tier, mc):
  out = []
  groups = {}
  for c in mc:
    if 'chunks' in c:
      groups.setdefault(tuple(len(x) for x in c['chunks']), []).append([p for ch in c['chunks'] for p in ch])
  for lens, seqs in sorted(groups.items()):
    for i in range(0, len(seqs), 32):
      part = seqs[i:i + 32]
      n = len(part[0])
      lab = [list(range(len(part))), list(range(n))]
      arr = lambda j: dict(dims=['series', 'step'], labels=lab, data=[s[k][j] for s in part for k in range(n)])
      edges = [0]
      for x in lens:
        edges.append(edges[-1] + x)
      cut = ['step', [list(range(a, b)) for a, b in zip(edges, edges[1:])]]
      w = dict(dims=['step'], labels=[list(range(n))], data=[1 + (k + 1) % 3 for k in range(n)])
      for m in ['Error', 'AbsoluteError', 'SquaredError', 'RMSE']:
        out.append(dict(kind='metric', metric=m, names=['v'], ins=[[arr(0), arr(1)]], r=['step'], w=[w], skipna=rng.random() < .5, cut=cut, order=None, form='dict', dtype='float64', alias=rng.randint(0, 1)))
  n = 500 if tier == 'quick' else 8000
  for _ in range(n):
    out.append(stat_case(rng))
  for _ in range(n * 2 // 3):
    out.append(metric_case(rng))
  for _ in range(n // 2):
    out.append(intensity_case(rng))
  return out


def frame(rng, lo=0, hi=3):
  dims = rng.sample(DIMS, rng.randint(lo, hi))
  lab = {d: sorted(rng.sample(range(0, 9), rng.choice([1, 2, 2, 3]))) for d in dims}
  if rng.random() < .25:
    for d in dims:
      rng.shuffle(lab[d])
  return dims, lab


def second(rng, dims, lab, partial):
  """Dims and labels of the other input."""
  ds = [d for d in dims if rng.random() < .85]
  l2 = {d: list(lab[d]) for d in ds}
  if rng.random() < .3:
    for d in ds:
      rng.shuffle(l2[d])
  if partial:
    for d in ds:
      if rng.random() < .5:
        l2[d] = [x for x in l2[d] if rng.random() < .8 or len(l2[d]) == 1] or l2[d][:1]
        if rng.random() < .5:
          l2[d].append(20)
  if rng.random() < .15:
    x = [d for d in DIMS if d not in dims]
    d = rng.choice(x)
    ds.append(d)
    l2[d] = [1, 2]
  return ds, l2


def thresholds(rng, dims, lab):
  k = rng.choice(['list', 'list', 'list', 'array', 'dataset'])
  vals = sorted(rng.sample(range(0, 8), rng.randint(1, 3)))
  if rng.random() < .3:
    rng.shuffle(vals)
  if k == 'list':
    return dict(form=k, arr=dict(dims=['error_exceedance_thresholds'], labels=[[4 * v for v in vals]], data=vals))
  ds = [d for d in dims if rng.random() < .3]
  td = rng.choice([['thr'], ['thr'], []])
  l2 = {d: list(lab[d]) for d in ds}
  l2['thr'] = list(range(1, rng.randint(2, 4)))
  return dict(form=k, arr=rand_arr(rng, ds + td, l2, lambda: NAN if rng.random() < .1 else rng.randint(0, 7)))


def values(rng, pn, lo=-9, hi=9):
  return lambda: NAN if rng.random() < pn else rng.randint(lo, hi)


def inputs(rng, partial, names, wind, thr):
  dims, lab = frame(rng, 1 if partial else 0)
  d2, l2 = second(rng, dims, lab, partial)
  pn = rng.choice([0, 0, .15])
  ins = []
  th = None
  for _ in names:
    p = [rand_arr(rng, dims, lab, values(rng, pn)) for _ in range(2 if wind else 1)]
    t = [rand_arr(rng, d2, l2, values(rng, pn)) for _ in range(2 if wind else 1)]
    if thr:
      if th is None or th['form'] == 'dataset':
        new = thresholds(rng, dims, lab)
        if th:
          new = dict(form='dataset', arr=rand_arr(rng, th['arr']['dims'], dict(zip(th['arr']['dims'], th['arr']['labels'])), lambda: rng.randint(0, 7)))
        th = new
      ins.append(p + t + [th['arr']])
    else:
      ins.append(p + t)
  return dims, lab, d2, l2, ins, (th or {}).get('form')


def stat_case(rng):
  s = rng.choice(SIMPLE + ['SquaredError', 'ErrorExceedance', 'ErrorExceedance', 'WindSquaredError', 'WindSquaredError'])
  names = rng.sample(['t2m', 'v', 'precip', 7], rng.randint(1, 3))
  names = [str(x) for x in names] if rng.random() < .9 else names
  wind = s == 'WindSquaredError'
  dims, lab, d2, l2, ins, tform = inputs(rng, rng.random() < .35, names, wind, s == 'ErrorExceedance')
  return dict(kind='stat', stat=s, names=names, ins=ins, tform=tform, alias=rng.randint(0, 1),
              only_p=rng.random() < .3, only_t=rng.random() < .3, form=rng.choice(['dict', 'dict', 'dataset']),
              dtype=rng.choice(['float64', 'float64', 'float32']))


def metric_case(rng):
  m = rng.choice(MEANS)
  names = rng.sample(['t2m', 'v', 'precip'], rng.randint(1, 2))
  wind = m in ('WindSquaredError', 'WindVectorRMSE')
  dims, lab, d2, l2, ins, tform = inputs(rng, False, names, wind, m == 'ErrorExceedance')
  both = [d for d in dims if d in d2]
  r = [d for d in sorted(set(dims) | set(d2)) if rng.random() < .7]
  w = []
  for _ in range(rng.choice([0, 0, 1, 2])):
    ds = [d for d in both if rng.random() < .6]
    w.append(rand_arr(rng, ds, lab, lambda: rng.randint(0, 3)))
  # Chunks along a dimension that both inputs have in the same order.
  cand = [d for d in both if lab[d] == l2[d]]
  cut = random_cut(rng, cand, lab)
  c = dict(kind='metric', metric=m, names=names, ins=ins, r=r, w=w, skipna=rng.random() < .4, cut=cut, tform=tform,
           order=None, form=rng.choice(['dict', 'dict', 'dataset']), dtype=rng.choice(['float64', 'float64', 'float32']), alias=rng.randint(0, 1))
  if cut:
    c['order'] = rng.sample(range(len(cut[1])), len(cut[1]))
  return c


def intensity_case(rng):
  dims, lab = frame(rng, 1, 3)
  r = rng.sample(dims, rng.randint(1, len(dims)))
  pn = rng.choice([0, .1, .25])
  hi = rng.choice([1, 3, 9])
  ins = [rand_arr(rng, dims, lab, values(rng, pn, 0, hi)) for _ in range(2)]
  if rng.random() < .5:
    md = [d for d in ins[1]['dims'] if d in r or rng.random() < .6]
    ins.append(rand_arr(rng, md, lab, lambda: int(rng.random() < .8), shuffle=0))
  return dict(kind='intensity', ins=ins, r=r, mode=rng.randint(0, 2))


def prepare(c):
  """Input mappings of a case."""
  P, T, extra = {}, {}, {}
  wind = c.get('stat', c.get('metric')) in ('WindSquaredError', 'WindVectorRMSE')
  for name, ins in zip(c['names'], c['ins']):
    if wind:
      for k, comp in enumerate('uv'):
        P[f'{name}_{comp}'] = build(ins[k], c['dtype'], f'{name}_{comp}')
        T[f'{name}_{comp}'] = build(ins[2 + k], c['dtype'], f'{name}_{comp}')
    else:
      P[name] = build(ins[0], c['dtype'], name)
      T[name] = build(ins[1], c['dtype'], name)
      if len(ins) == 3:
        extra[name] = build(ins[2], 'float64', name)
  return P, T, extra, wind


def make_metric(c, m, extra, wind):
  if m == 'ErrorExceedance':
    if c['tform'] == 'list':
      th = [float(x) if c['alias'] else x for x in c['ins'][0][2]['data']]
      th = tuple(th) if len(c['names']) == 1 else th
    elif c['tform'] == 'dataset':
      th = xr.Dataset(extra)
    else:
      th = extra[c['names'][0]]
    return det.ErrorExceedance(th)
  if wind:
    u, v = [f'{n}_u' for n in c['names']], [f'{n}_v' for n in c['names']]
    if m == 'WindVectorRMSE':
      if len(u) == 1 and c['alias']:
        return det.WindVectorRMSE(u[0], v[0], c['names'][0])
      return det.WindVectorRMSE(u, v, list(c['names']))
    return det.WindVectorSquaredError(u, v, list(c['names']))
  return metric_obj(m, c)


def execute(c):
  if c['kind'] == 'intensity':
    return intensity(c)
  P, T, extra, wind = prepare(c)
  before = {k: v.copy(deep=True) for k, v in P.items()}, {k: v.copy(deep=True) for k, v in T.items()}
  intact = lambda: all(P[k].identical(before[0][k]) for k in before[0]) and all(T[k].identical(before[1][k]) for k in before[1])
  res = {}
  evs = []
  if c['kind'] == 'stat':
    x = xr.DataArray([1.], dims=['q'])
    if c['only_p'] and not wind:
      P['only_p'] = x
    if c['only_t'] and not wind:
      T['only_t'] = x
    m = make_metric(c, c['stat'], extra, wind)

    def run():
      # A Dataset needs one set of labels per dimension.
      p, t = (xr.Dataset(P), xr.Dataset(T)) if c['form'] == 'dataset' else (P, T)
      res.update(m.compute(p, t))
      return dict(names_out=[str(k) for k in res])
    nm = guarded(run, dict(op='names', names_p=c['names'] if wind else [str(k) for k in P], names_t=c['names'] if wind else [str(k) for k in T]))
    nm['names_p'] = [str(x) for x in nm['names_p']]
    nm['names_t'] = [str(x) for x in nm['names_t']]
    nm['unchanged'] = bool(intact())
    evs.append(nm)
    for name, ins in zip(c['names'], c['ins']):
      ev = dict(op='stat', stat=c['stat'], bin='', ins=ins)
      evs.append(guarded(lambda: dict(out=show(res[name], KINDS)), ev))
    return evs
  m = make_metric(c, c['metric'], extra, wind)
  S = 1000 if c['metric'] in ('RMSE', 'WindVectorRMSE') else 1 << 16

  def run():
    ws = [build(w) for w in c['w']]
    v = evaluate({'m': m}, P, T, c['r'], ws, c['skipna'], c['cut'], c['order'], c['form'])
    res.update({str(k)[2:]: v[k] for k in v.data_vars})
    return dict(names_out=list(res))
  evs.append(guarded(run, dict(op='names', names_p=c['names'], names_t=c['names'])))
  evs[0]['unchanged'] = bool(intact())
  for name, ins in zip(c['names'], c['ins']):
    ev = dict(op='metric', metric=c['metric'], bin='', ins=ins, r=c['r'], w=c['w'], skipna=c['skipna'], S=S, tol=2)
    evs.append(guarded(lambda: dict(out=show(res[name], KINDS, scale=S, tol=None)), ev))
  return evs


def intensity(c):
  P, T = build(c['ins'][0], name='v'), build(c['ins'][1], name='v')
  if len(c['ins']) == 3:
    m = build(c['ins'][2], 'bool' if c['mode'] else 'int')
    T = T.assign_coords(mask=m)
    if c['mode'] == 1:
      P = P.assign_coords(mask=m)
  ev = dict(op='intensity', ins=c['ins'], r=c['r'], S=100, tol=1)

  def run():
    r = c['r'][0] if len(c['r']) == 1 and c['mode'] else c['r']
    st = det.RelativeIntensity(spatial_dims=r) if list(r) != ['latitude', 'longitude'] else det.RelativeIntensity()
    out = st.compute({'v': P}, {'v': T})['v']
    d = dict(out=show(out, KINDS, scale=100, tol=None))
    if len(c['ins']) == 3:
      d['mask'] = show(out['mask'], KINDS)
    return d
  return [guarded(run, ev)]
