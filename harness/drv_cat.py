"""C16 driver: contingency tables and categorical scores."""
import numpy as np
import xarray as xr

from drv_det import frame, second
from larr import show
from mlib import KINDS, build, evaluate, rand_arr, random_cut
from vlib import NAN, guarded, enc
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import wrappers

STATS = {'TP': cat.TruePositives, 'TN': cat.TrueNegatives, 'FP': cat.FalsePositives, 'FN': cat.FalseNegatives}
SCORES = ['CSI', 'Accuracy', 'Recall', 'FalseAlarmRate', 'Precision', 'F1Score', 'FrequencyBias', 'HSS', 'ETS', 'SEDI']
INF = 1000000


def cases(rng, tier, mc):
  out = []
  groups = {}
  for c in mc:
    if 'chunks' in c:
      groups.setdefault(tuple(len(x) for x in c['chunks']), []).append([p for ch in c['chunks'] for p in ch])
  for lens, seqs in sorted(groups.items()):
    for i in range(0, len(seqs), 32):
      part = seqs[i:i + 32]
      n = len(part[0])
      lab = [list(range(len(part))), list(range(n))]
      arr = lambda j: dict(dims=['series', 'step'], labels=lab, data=[s[k][j] for s in part for k in range(n)])
      edges = [0]
      for x in lens:
        edges.append(edges[-1] + x)
      cut = ['step', [list(range(a, b)) for a, b in zip(edges, edges[1:])]]
      w = dict(dims=['step'], labels=[list(range(n))], data=[1 + (k + 1) % 3 for k in range(n)])
      for m in SCORES:
        out.append(dict(kind='metric', metric=m, bin='', names=['v'], ins=[[arr(0), arr(1)]], r=['step'], w=[w], skipna=rng.random() < .7, cut=cut, order=None, form='dict', dtype='float64', tform=''))
  n = 300 if tier == 'quick' else 5000
  for _ in range(n):
    out.append(case(rng, 'stat'))
  for _ in range(n * 2):
    out.append(case(rng, 'metric'))
  for _ in range(n // 2):
    out.append(reliability(rng))
  return out


def vals(rng, pn, lo, hi):
  return lambda: NAN if rng.random() < pn else rng.randint(lo, hi)


def case(rng, kind):
  bin_ = rng.choice(['', '', '', 'both', 'both', 'both', 'predictions', 'targets', 'bins-both', 'bins-both', 'bins-predictions', 'bins-targets'])
  names = rng.sample(['t2m', 'v', 'precip'], rng.choice([1, 1, 2]))
  dims, lab = frame(rng, 1, 3)
  d2, l2 = second(rng, dims, lab, kind == 'stat' and rng.random() < .25)
  pn = rng.choice([0, 0, 0, .15])
  rare = rng.random() < .3
  tf = rng.choice(['list', 'list', 'array', 'dataset'])
  if tf == 'list' and rng.random() < .3 and not bin_.startswith('bins'):
    tf = 'scalar'
  nthr = 1 if tf == 'scalar' else rng.randint(1, 3)
  tdims = [d for d in dims if d in d2 and lab[d] == l2[d] and rng.random() < .3] if tf in ('array', 'dataset') else []
  tlab = {d: lab[d] for d in tdims}
  ins = []
  for i, _ in enumerate(names):
    binary = lambda: (lambda: NAN if rng.random() < pn else int(rng.random() < (.1 if rare else .5)))
    p = rand_arr(rng, dims, lab, binary() if bin_.replace('bins-', '') not in ('both', 'predictions') else vals(rng, pn, -3, 3))
    t = rand_arr(rng, d2, l2, binary() if bin_.replace('bins-', '') not in ('both', 'targets') else vals(rng, pn, -3, 3))
    if not bin_:
      ins.append([p, t])
      continue
    size = int(np.prod([len(tlab[d]) for d in tdims])) if tdims else 1
    if bin_.startswith('bins'):
      if i and tf != 'dataset':
        ins.append([p, t, ins[0][2], ins[0][3]])
        continue
      nb = len(ins[0][2]['labels'][-1]) if i else rng.randint(1, 3)
      rows = []
      for _ in range(size):
        e = sorted(rng.sample(range(-4, 5), nb + 1))
        if tf == 'list' and rng.random() < .3:
          e[0] = -INF
        if tf == 'list' and rng.random() < .3:
          e[-1] = INF
        rows.append(e)
      mk = lambda k: dict(dims=tdims + ['bin'], labels=[list(lab[d]) for d in tdims] + [list(range(1, nb + 1))], data=[x for e in rows for x in (e[:-1] if k == 0 else e[1:])])
      ins.append([p, t, mk(0), mk(1)])
    else:
      if i and tf != 'dataset':
        ins.append([p, t, ins[0][2]])
        continue
      if tf in ('list', 'scalar'):
        th = rng.sample(range(-3, 4), nthr)
        a = dict(dims=['thr'], labels=[[4 * x for x in th]], data=th)
      else:
        k = len(ins[0][2]['labels'][-1]) if i else nthr
        a = dict(dims=tdims + ['thr'], labels=[list(lab[d]) for d in tdims] + [list(range(1, k + 1))], data=[rng.randint(-3, 3) for _ in range(size * k)])
      ins.append([p, t, a])
  both = [d for d in dims if d in d2]
  c = dict(kind=kind, bin=bin_, names=names, ins=ins, tform=tf, form=rng.choice(['dict', 'dict', 'dataset']), dtype=rng.choice(['float64', 'float32']))
  if not bin_ and not any(NAN in a['data'] for x in ins for a in x):
    c['dtype'] = rng.choice(['bool', 'int', 'float64', 'float32'])
  if kind == 'stat':
    c['stat'] = rng.choice(sorted(STATS))
    return c
  c['metric'] = rng.choice(SCORES + ['TP', 'FP'])
  c['r'] = [d for d in sorted(set(dims) | set(d2)) if rng.random() < .8]
  c['w'] = [rand_arr(rng, [d for d in both if rng.random() < .6], lab, lambda: rng.randint(0, 3)) for _ in range(rng.choice([0, 0, 1]))]
  c['skipna'] = rng.random() < .5
  c['cut'] = random_cut(rng, [d for d in both if lab[d] == l2[d]], lab)
  c['order'] = rng.sample(range(len(c['cut'][1])), len(c['cut'][1])) if c['cut'] else None
  return c


def reliability(rng):
  dims, lab = frame(rng, 1, 3)
  d2, l2 = second(rng, dims, lab, False)
  pn = rng.choice([0, 0, .15])
  default = rng.random() < .5
  p = rand_arr(rng, dims, lab, vals(rng, pn, 0, 20))
  t = rand_arr(rng, d2, l2, vals(rng, pn, 0, 1))
  edges = [-INF] + list(range(2, 21, 2))
  if not default:
    edges = sorted(rng.sample(range(-1, 21), rng.randint(2, 5)))
    if rng.random() < .3:
      edges[-1] = INF
  both = [d for d in dims if d in d2]
  cut = random_cut(rng, [d for d in both if lab[d] == l2[d]], lab)
  return dict(kind='reliability', default=default, ins=[p, t], edges=edges, r=[d for d in sorted(set(dims) | set(d2)) if rng.random() < .85],
              w=[rand_arr(rng, [d for d in both if rng.random() < .6], lab, lambda: rng.randint(0, 3)) for _ in range(rng.choice([0, 0, 1]))],
              skipna=rng.random() < .6, cut=cut, dim=rng.choice(['reliability_bin', 'rb']), suffix=rng.choice([None, 'x']))


def edge(x, unit=1):
  return -np.inf if x == -INF else np.inf if x == INF else x / unit if unit != 1 else float(x)


def transform(c):
  b = c['bin'].replace('bins-', '')
  if not c['bin']:
    return None
  if c['bin'].startswith('bins'):
    das = {}
    for name, ins in zip(c['names'], c['ins']):
      lo, hi = build(ins[2]), build(ins[3])
      e = xr.concat([lo.isel(bin=[0]), hi], dim='bin')
      e = e.where(e > -INF, -np.inf).where(e < INF, np.inf)
      das[name] = e.assign_coords(bin=np.arange(e.sizes['bin']) / 2)
    if c['tform'] in ('list', 'scalar'):
      v, suf = [float(x) for x in das[c['names'][0]].values], None
    elif c['tform'] == 'array':
      v, suf = das[c['names'][0]], 's'
    else:
      v, suf = xr.Dataset(das), 's'
    return wrappers.ContinuousToBins(b, v, 'bin', unique_name_suffix=suf)
  das = {n: build(i[2], name=n) for n, i in zip(c['names'], c['ins'])}
  first = das[c['names'][0]]
  if c['tform'] == 'scalar':
    v, suf = float(first.values[0]), None
  elif c['tform'] == 'list':
    v, suf = [float(x) for x in first.values], None
  elif c['tform'] == 'array':
    v, suf = first, 's'
  else:
    v, suf = xr.Dataset(das), 's'
  return wrappers.ContinuousToBinary(b, v, 'thr', unique_name_suffix=suf)


def execute(c):
  if c['kind'] == 'reliability':
    return run_reliability(c)
  P = {n: build(i[0], c['dtype'], n) for n, i in zip(c['names'], c['ins'])}
  T = {n: build(i[1], c['dtype'], n) for n, i in zip(c['names'], c['ins'])}
  before = {k: v.copy(deep=True) for k, v in P.items()}, {k: v.copy(deep=True) for k, v in T.items()}
  intact = lambda: all(P[k].identical(before[0][k]) for k in before[0]) and all(T[k].identical(before[1][k]) for k in before[1])
  res, evs = {}, []
  if c['kind'] == 'stat':
    def run():
      st = STATS[c['stat']]()
      tr = transform(c)
      if tr is not None:
        st = wrappers.WrappedStatistic(st, tr)
      p, t = (xr.Dataset(P), xr.Dataset(T)) if c['form'] == 'dataset' else (P, T)
      res.update(st.compute(p, t))
      return dict(names_out=[str(k) for k in res])
    evs.append(guarded(run, dict(op='names', names_p=c['names'], names_t=c['names'])))
    evs[0]['unchanged'] = bool(intact())
    for name, ins in zip(c['names'], c['ins']):
      evs.append(guarded(lambda: dict(out=show(res[name], KINDS)), dict(op='stat', stat=c['stat'], bin=c['bin'], ins=ins)))
    return evs
  S = 10000

  def run2():
    m = STATS[c['metric']]() if c['metric'] in STATS else getattr(cat, c['metric'])()
    tr = transform(c)
    if tr is not None:
      m = wrappers.WrappedMetric(m, [tr])
    v = evaluate({'m': m}, P, T, c['r'], [build(w) for w in c['w']], c['skipna'], c['cut'], c['order'], c['form'])
    res.update({str(k)[2:]: v[k] for k in v.data_vars})
    return dict(names_out=list(res))
  evs.append(guarded(run2, dict(op='names', names_p=c['names'], names_t=c['names'])))
  evs[0]['unchanged'] = bool(intact())
  sc = 1000 if c['metric'] == 'SEDI' else S
  for name, ins in zip(c['names'], c['ins']):
    ev = dict(op='metric', metric=c['metric'], bin=c['bin'], ins=ins, r=c['r'], w=c['w'], skipna=c['skipna'], S=sc, tol=2)
    evs.append(guarded(lambda: dict(out=show(res[name], KINDS, scale=sc, tol=None)), ev))
  return evs


def run_reliability(c):
  unit = 20
  P = {'v': build(c['ins'][0], name='v') / unit}
  T = {'v': build(c['ins'][1], name='v')}
  ev = dict(op='reliability', ins=c['ins'], edges=c['edges'], r=c['r'], w=c['w'], skipna=c['skipna'], S=10000, tol=2)
  back = lambda x: -INF if x == -np.inf else INF if x == np.inf else enc(x, unit)

  def run():
    kw = {} if c['default'] else dict(bin_values=[edge(x, unit) for x in c['edges']])
    dim = c['dim']
    if dim != 'reliability_bin':
      kw['bin_dim'] = dim
    if c['suffix']:
      kw['statistic_suffix'] = c['suffix']
    v = evaluate({'m': cat.Reliability(**kw)}, P, T, c['r'], [build(w) for w in c['w']], c['skipna'], c['cut'])['m.v']
    return dict(lefts=[back(x) for x in v[dim + '_left'].values], rights=[back(x) for x in v[dim + '_right'].values],
                out=show(v.rename({dim: 'bin'}), KINDS, scale=10000, tol=None))
  return [guarded(run, ev)]
