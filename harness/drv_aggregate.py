"""C03/C04 driver: Aggregator on labelled statistics."""
import copy
import numpy as np
import xarray as xr
from larr import make, show, label
from vlib import guarded, NAN, PINF, NINF
from weatherbenchX import aggregation, binning, weighting


def chosen(arr, statistic):
  """Several arrays: the one the statistic's own coordinate asks for."""
  return arr[int(statistic.coords['part'])] if isinstance(arr, list) else arr


class GivenWeights(weighting.Weighting):
  def __init__(self, arr):
    self.arr = arr

  def weights(self, statistic):
    return chosen(self.arr, statistic)


class GivenBins(binning.Binning):
  def __init__(self, dim, arr):
    super().__init__(dim)
    self.arr = arr

  def create_bin_mask(self, statistic):
    return chosen(self.arr, statistic)


def mc_cases(mc):
  out = []
  for c in mc:
    ls = [1, 2, 3]
    arr = lambda data: dict(dims=['x'], labels=[ls], data=data)
    bins = [dict(dim='b', arr=dict(dims=['x', 'b'], labels=[ls, list(range(1, len(c['memb'][0]) + 1))],
                                   data=[int(v) for m in c['memb'] for v in m]))]
    out.append(dict(op='agg', kinds={'x': 'int', 'b': 'str'}, reduce=['x'], masked=c['masked'], skipna=c['skipna'],
                    dtype='float64', mean=True,
                    vars=[dict(key='S/v', has=True, stat=arr(c['val']), mask=[arr([int(v) for v in c['ok']])])],
                    weights=[arr(c['wt'])], bins=bins))
  return out


def cases(rng, tier, mc):
  out = mc_cases(mc)[::4]
  n = 700 if tier == 'quick' else 12000
  for _ in range(n):
    out.append(random_case(rng, nan=False))
  for _ in range(n // 7):
    out.append(session(rng, random_case(rng, nan=False)))
  for _ in range(40):
    out.append(dict(op='dupbins', dims=rng.sample(['x', 'y'], 1), n=rng.randint(1, 3)))
  return out


def session(rng, c):
  """The same aggregator used for statistics whose coordinates (hence weights and bins) differ."""
  c['mean'] = False
  parts = []
  for k in range(rng.randint(2, 3)):
    d = copy.deepcopy(c)
    arrs = [v['stat'] for v in d['vars']] + [m for v in d['vars'] for m in v['mask']] + d['weights'] + [b['arr'] for b in d['bins']]
    binlabels = [b['dim'] for b in d['bins']]
    for a in arrs:
      if k:
        rng.shuffle(a['data'])
      a['labels'] = [ls if a['dims'][i] in binlabels else [x + k for x in ls] if c['kinds'][a['dims'][i]] is not None else ls for i, ls in enumerate(a['labels'])]
    parts.append(d)
  return dict(op='session', parts=parts)


def rand_arr(rng, dims, lab, vals, shuffle=True):
  ds = list(dims)
  if shuffle and rng.random() < 0.4:
    rng.shuffle(ds)
  n = int(np.prod([len(lab[d]) for d in ds])) if ds else 1
  return dict(dims=ds, labels=[list(lab[d]) for d in ds], data=[vals() for _ in range(n)])


def random_case(rng, nan):
  dims = rng.sample(['init', 'lead', 'lat', 'lon'], rng.randint(1, 3 if rng.random() < 0.8 else 4))
  kinds = {d: {'init': 'dt', 'lead': 'td', 'lat': 'float', 'lon': 'float'}[d] if rng.random() < 0.85 else None for d in ['init', 'lead', 'lat', 'lon']}
  lab = {}
  for d in ['init', 'lead', 'lat', 'lon']:
    k = rng.randint(1, 3) if rng.random() > .02 else 0   # no observations at all
    lab[d] = list(range(1, k + 1)) if kinds[d] is None else rng.sample(range(1, 9), k)
    if rng.random() < 0.7:
      lab[d] = sorted(lab[d])
  reduce = rng.sample(dims, rng.randint(0 if rng.random() < 0.15 else 1, len(dims)))
  dtype = rng.choice(['float64', 'float32', 'float64', 'int64', 'bool', 'int32']) if not nan else rng.choice(['float64', 'float32'])
  masked, skipna = (rng.random() < 0.6, rng.random() < 0.4) if nan else (rng.random() < 0.2, rng.random() < 0.2)
  # Values that need more than single precision.
  big = not nan and dtype in ('float64', 'int64') and rng.random() < .2
  inf = rng.choice([[], [], [PINF], [NINF], [PINF, NINF]]) if nan else []
  def val():
    if nan and rng.random() < 0.2:
      return NAN
    if inf and rng.random() < 0.1:
      return rng.choice(inf)
    if big:
      return rng.choice([-1, 1]) * (2 ** 24 + rng.randint(0, 2000))
    return rng.randint(0, 1) if dtype == 'bool' else rng.randint(-20, 20)
  # Weights and bins may list the labels in another order than the statistic.
  lab2 = {d: rng.sample(ls, len(ls)) if kinds[d] and rng.random() < .15 else ls for d, ls in lab.items()}
  vs = []
  for k in ['S/u', 'S/v', 'T.x/u'][:rng.randint(1, 3)]:
    ds = list(dims)
    if rng.random() < 0.25 and len(ds) > 1:
      ds.remove(rng.choice(ds))
    stat = rand_arr(rng, ds, lab, val)
    mask = []
    if rng.random() < (0.75 if nan else 0.3):
      md = [d for d in stat['dims'] if rng.random() < 0.75]
      mask = [rand_arr(rng, md, lab, lambda: int(rng.random() < 0.65), shuffle=False)]
      if masked and nan and dtype.startswith('float'):
        # bury infinities under the mask
        stat['hidden_inf'] = rng.random() < 0.3
    vs.append(dict(key=k, has=rng.random() > 0.05, stat=stat, mask=mask))
  weights = []
  for _ in range(0 if big else rng.choice([0, 1, 1, 2, 3])):
    wd = rng.sample(dims, rng.randint(0, len(dims))) if rng.random() < 0.8 else [rng.choice(dims)]
    # weight dims must exist on every variable (a weighting depends on the statistic)
    wd = [d for d in wd if all(d in v['stat']['dims'] for v in vs)]
    weights.append(rand_arr(rng, wd, lab2, lambda: rng.randint(0, 3)))
  bins = []
  for i in range(rng.choice([0, 1, 1, 2, 2])):
    bd = rng.sample(dims, rng.randint(0, min(2, len(dims))))
    name = f'bin{i}'
    lb = dict(lab2)
    lb[name] = list(range(1, rng.randint(1, 3) + 1))
    kinds[name] = rng.choice(['str', 'int'])
    bins.append(dict(dim=name, arr=rand_arr(rng, bd + [name], lb, lambda: int(rng.random() < 0.6))))
  return dict(op='agg', kinds=kinds, reduce=reduce, masked=masked, skipna=skipna, dtype=dtype,
              vars=vs, weights=weights, bins=bins, wden=rng.choice([1, 1, 4, 2 ** 14]), mean=not big and rng.random() < 0.6)


def build_stat(v, c, hidden=None):
  st = v['stat']
  da = make(st['dims'], st['labels'], st['data'], c['kinds'], c['dtype'], name=v['key'].split('/')[1])
  if v['mask']:
    m = v['mask'][0]
    da.coords['mask'] = make(m['dims'], m['labels'], m['data'], c['kinds'], 'bool')
    if hidden is not None:
      da = da.where(da.mask, hidden).assign_coords(mask=da.mask)
  return da


def aggregate(c, hidden=None, agg=None, part=0):
  stats = {}
  for v in c['vars']:
    s, n = v['key'].split('/')
    stats.setdefault(s, {})[n] = build_stat(v, c, hidden if hidden is not None else (np.inf if v['stat'].get('hidden_inf') else None)) if v['has'] else None
  kw = dict(reduce_dims=c['reduce'], masked=c['masked'], skipna=c['skipna'])
  if c['weights'] or c.get('always'):
    kw['weigh_by'] = [GivenWeights(make(w['dims'], w['labels'], w['data'], c['kinds']) / c.get('wden', 1)) for w in c['weights']]
  if c['bins'] or c.get('always'):
    kw['bin_by'] = [GivenBins(b['dim'], make(b['arr']['dims'], b['arr']['labels'], b['arr']['data'], c['kinds'], 'bool')) for b in c['bins']]
  if agg is not None:
    for d in stats.values():
      for n, a in d.items():
        if a is not None:
          d[n] = a.assign_coords(part=part)
  before = {s: {n: (None if a is None else a.copy(deep=True)) for n, a in d.items()} for s, d in stats.items()}
  state = (agg or aggregation.Aggregator(**kw)).aggregate_statistics(stats)
  unchanged = all((a is None and stats[s][n] is None) or a.identical(stats[s][n]) for s, d in before.items() for n, a in d.items())
  return state, unchanged


def execute(c):
  if c['op'] == 'dupbins':
    d = c['dims'][0]
    a = make([d], [[1, 2]], [1, 2], {d: 'int'})
    m = make(['b', d], [[1], [1, 2]], [1, 1], {d: 'int', 'b': 'str'}, 'bool')
    ag = aggregation.Aggregator(reduce_dims=[d], bin_by=[GivenBins('b', m)] * (c['n'] + 1))
    return [guarded(lambda: dict(got=str(ag.aggregate_statistics({'s': {'v': a}}))), dict(op='dupbins'))]
  if c['op'] == 'session':
    parts = c['parts']
    mk = lambda a, t='float64': make(a['dims'], a['labels'], a['data'], parts[0]['kinds'], t)
    agg = aggregation.Aggregator(
        reduce_dims=parts[0]['reduce'], masked=parts[0]['masked'], skipna=parts[0]['skipna'],
        weigh_by=[GivenWeights([mk(p['weights'][i]) / p.get('wden', 1) for p in parts]) for i in range(len(parts[0]['weights']))],
        bin_by=[GivenBins(parts[0]['bins'][i]['dim'], [mk(p['bins'][i]['arr'], 'bool') for p in parts]) for i in range(len(parts[0]['bins']))])
    return [e for k, p in enumerate(parts) for e in one(p, agg, k)]
  return one(c)


def one(c, agg=None, part=0):
  ev = {k: c[k] for k in ('reduce', 'masked', 'skipna', 'weights', 'bins')}
  ev['op'] = 'agg'
  ev['vars'] = []
  for v in c['vars']:
    v2 = {k: v[k] for k in ('key', 'has', 'mask')}
    v2['stat'] = {k: v['stat'][k] for k in ('dims', 'labels', 'data')}
    ev['vars'].append(v2)

  def run():
    state, unchanged = aggregate(c, agg=agg, part=part)
    s, w = state.sum_weighted_statistics, state.sum_weights
    flat = lambda t: {f'{a}/{b}': x for a, d in t.items() for b, x in d.items()}
    fs, fw = flat(s), flat(w)
    k = c['kinds']
    # Fractional weights: the sums are those of the numerators over the product of the denominators.
    den = c.get('wden', 1) ** len(c['weights'])
    out = [dict(key=n, s=show(fs[n], k, den), w=show(fw[n], k, den)) for n in fs if n in fw]
    mean = []
    if c['mean']:
      mean = [dict(key=n, s=show(x, k, 1024, None)) for n, x in flat(state.mean_statistics()).items()]
    return dict(samenames=set(fs) == set(fw), unchanged=unchanged, out=out, mean=mean)
  evs = [guarded(run, ev)]
  if c.get('pair'):
    def run2():
      res = []
      for h in (np.nan, 12345.0):
        st, _ = aggregate(c, hidden=h)
        res.append([show(x, c['kinds'])['data'] for d in (st.sum_weighted_statistics, st.sum_weights)
                    for t in d.values() for x in t.values()])
      return dict(out1=res[0], out2=res[1])
    evs.append(guarded(run2, dict(op='pair', masked=c['masked'])))
  return evs
