"""C22 driver: neighbourhood fractions, fractions skill score, neighbourhood probabilities."""
import numpy as np
import xarray as xr

from larr import show
from mlib import KINDS, build, evaluate, rand_arr, random_cut
from vlib import NAN, guarded
from weatherbenchX import interpolations
from weatherbenchX.metrics import spatial

STATS = ['SquaredFractionsError', 'SquaredPredictionFraction', 'SquaredTargetFraction']
OTHER = ['init_time', 'lead_time', 'level', 'number', 'station']


def cases(rng, tier, mc):
  out = []
  mc = list(mc)
  rng.shuffle(mc)
  if tier == 'quick':
    mc = mc[:1600]
  for i in range(0, len(mc), 32):
    part = mc[i:i + 32]
    ni, nj = part[0]['ni'], part[0]['nj']
    mk = lambda key: dict(dims=['series', 'latitude', 'longitude'], labels=[list(range(len(part))), list(range(ni)), list(range(nj))],
                          data=[v for c in part for v in c[key]])
    for w in (False, True):
      sizes = [3, 1] if rng.random() < .3 else [3]
      out.append(dict(kind='frac', stat=rng.choice(STATS), p=mk('p'), t=mk('t'), sizes=sizes, multi=len(sizes) > 1, wrap=w, mask=[], where='', dtype='float64'))
      out.append(dict(kind='fss', p=mk('p'), t=mk('t'), sizes=[3], multi=False, wrap=w, mask=[], where='', masked=False, dtype='float64',
                      r=['latitude', 'longitude'], w=[], cut=None))
  k = 350 if tier == 'quick' else 6000
  for _ in range(k):
    out.append(case(rng, False))
  for _ in range(k):
    out.append(case(rng, True))
  for _ in range(k // 2):
    out.append(prob_case(rng))
  for _ in range(10):
    out.append(dict(kind='rejected', size=rng.choice([2, 4, 6]), multi=rng.random() < .5))
  return out


def grid(rng, extra=2):
  dims = ['latitude', 'longitude'] + rng.sample(OTHER, rng.randint(0, extra))
  big = rng.random() < .25
  lab = {d: sorted(rng.sample(range(9), rng.choice([1, 2, 2]))) for d in dims}
  lab['latitude'] = list(range(rng.randint(1, 8 if big else 5)))
  lab['longitude'] = list(range(rng.randint(3, 9 if big else 5)))
  rng.shuffle(dims)
  return dims, lab


def sizes_for(rng, lab):
  ok = [n for n in (1, 3, 5, 7) if n <= len(lab['longitude'])]
  multi = rng.random() < .4
  s = rng.sample(ok, rng.randint(1, min(3, len(ok)))) if multi else [rng.choice(ok)]
  return s, multi


def case(rng, metric):
  dims, lab = grid(rng, 1 if rng.random() < .6 else 2)
  for d in ('latitude',):
    if rng.random() < .3:
      lab[d] = lab[d][::-1]
  sizes, multi = sizes_for(rng, lab)
  hi = rng.choice([1, 1, 1, 2])
  mask, where, pn = [], '', 0
  if rng.random() < .45:
    md = [d for d in dims if d in ('latitude', 'longitude') or rng.random() < .5]
    rng.shuffle(md)
    q = rng.choice([.05, .2])
    mask = [rand_arr(rng, md, lab, lambda: 0 if rng.random() < q else 1)]
    where = rng.choice(['p', 't', 't', 'both'])
  elif rng.random() < .3:
    pn = .06
  dens = rng.choice([.2, .5, .9])
  val = lambda: NAN if rng.random() < pn else (rng.randint(1, hi) if rng.random() < dens else 0)
  holder = set(mask[0]['dims']) if mask else {'latitude', 'longitude'}   # a mask sits on arrays with its dimensions
  def some():
    return [d for d in dims if d in holder or rng.random() < .7]
  pd = dims if where in ('', 'p', 'both') else some()
  td = dims if where in ('t', 'both') else some()
  if set(pd) | set(td) != set(dims):
    td = list(dims)
  p = rand_arr(rng, pd, lab, val)
  lt = {d: list(v) for d, v in lab.items()}
  for d in td:
    if d not in ('latitude', 'longitude') and rng.random() < .3:
      rng.shuffle(lt[d])
  if rng.random() < .2 and not mask:
    lt['latitude'] = lt['latitude'][::-1]
  t = rand_arr(rng, td, lt, val)
  if rng.random() < .15 and set(p['dims']) == set(t['dims']):
    t = dict(p)
  if mask and rng.random() < .5:   # missing where masked
    for a in ([p] if where == 'p' else [t] if where == 't' else [p, t]):
      if set(a['dims']) == set(mask[0]['dims']):
        m = build(mask[0]).transpose(*a['dims'])
        m = m.sel({d: build(a)[d] for d in a['dims']}).values.ravel()
        a['data'] = [NAN if not k else v for v, k in zip(a['data'], m)]
  hasnan = NAN in p['data'] or NAN in t['data']
  dtype = rng.choice(['float64', 'float32']) if hasnan or hi > 1 else rng.choice(['float64', 'float32', 'bool', 'int64'])
  c = dict(kind='frac', stat=rng.choice(STATS), p=p, t=t, sizes=sizes, multi=multi, wrap=rng.random() < .5, mask=mask, where=where, dtype=dtype)
  if not metric:
    return c
  w = [rand_arr(rng, [d for d in dims if rng.random() < .5], lab, lambda: rng.randint(0, 3)) for _ in range(rng.choice([0, 0, 1]))]
  cut = random_cut(rng, [d for d in dims if d not in ('latitude', 'longitude') and d in pd and d in td and not mask
                         and p['labels'][p['dims'].index(d)] == t['labels'][t['dims'].index(d)]], lab)
  masked = bool(mask) and rng.random() < .8
  c.update(kind='fss', r=[d for d in dims if rng.random() < .8], w=w, cut=cut, masked=masked)
  return c


def prob_case(rng):
  dims, lab = grid(rng, 1)
  sizes, _ = sizes_for(rng, lab)
  pn = rng.choice([0, 0, .06])
  p = rand_arr(rng, dims, lab, lambda: NAN if rng.random() < pn else rng.randint(0, 4))
  return dict(kind='prob', p=p, sizes=sizes, ths=rng.sample(range(5), rng.randint(1, 3)), wrap=rng.random() < .5, dtype=rng.choice(['float64', 'float32']),
              ds=rng.random() < .5)


def with_mask(da, mask):
  return da.assign_coords(mask=build(mask).astype(bool).sel({d: da[d] for d in mask['dims']}))


def pack(da, S, sizes=None):
  kinds = dict(KINDS, neighborhood_size=None, smoothing_neighborhood=None, thr=None)
  o = show(da, kinds, scale=S, tol=None)
  for d in ('neighborhood_size', 'smoothing_neighborhood', 'thr'):
    if d in da.dims:
      o['labels'][o['dims'].index(d)] = [int(v) for v in da[d].values] if d in da.coords else [-1 - i for i in range(da.sizes[d])]
  return o


def execute(c):
  if c['kind'] == 'rejected':
    x = xr.DataArray(np.ones((6, 8)), dims=['latitude', 'longitude'])
    n = [1, c['size']] if c['multi'] else c['size']

    def bad():
      m = spatial.FSS(n)
      evaluate({'m': m}, {'v': x}, {'v': x}, ['latitude', 'longitude'])
      return {}
    return [guarded(bad, dict(op='rejected', size=c['size']))]
  P = build(c['p'], c['dtype'], 'v')
  if c['kind'] == 'prob':
    p0 = P.copy(deep=True)

    def run():
      it = interpolations.NeighborhoodThresholdProbabilities(c['sizes'], [float(x) for x in c['ths']], threshold_dim='thr', wrap_longitude=c['wrap'])
      r = it.interpolate({'v': P})['v']
      return dict(out=pack(r, 65536), unchanged=bool(P.identical(p0)))
    return [guarded(run, dict(op='prob', p=c['p'], sizes=c['sizes'], ths=c['ths'], wrap=c['wrap'], S=65536, tol=2))]
  T = build(c['t'], c['dtype'], 'v')
  if c['where'] in ('p', 'both'):
    P = with_mask(P, c['mask'][0])
  if c['where'] in ('t', 'both'):
    T = with_mask(T, c['mask'][0])
  p0, t0 = P.copy(deep=True), T.copy(deep=True)
  n = c['sizes'] if c['multi'] else c['sizes'][0]
  S = 65536
  ev = {k: c[k] for k in ('p', 't', 'sizes', 'multi', 'wrap', 'mask')}
  if c['kind'] == 'frac':
    def run2():
      r = getattr(spatial, c['stat'])(n, c['wrap']).compute({'v': P}, {'v': T})['v']
      m = [pack(r['mask'].astype(float), 1)] if 'mask' in r.coords else []
      return dict(out=pack(r.drop_vars('mask', errors='ignore'), S), outmask=m, unchanged=bool(P.identical(p0) and T.identical(t0)))
    return [guarded(run2, dict(ev, op='frac', stat=c['stat'], S=S, tol=3))]

  def run3():
    m = spatial.FSS(n, c['wrap'])
    r = evaluate({'m': m}, {'v': P}, {'v': T}, c['r'], [build(w) for w in c['w']], False, c['cut'], masked=c['masked'])['m.v']
    return dict(out=pack(r.drop_vars('mask', errors='ignore'), S), unchanged=bool(P.identical(p0) and T.identical(t0)))
  return [guarded(run3, dict(ev, op='fss', r=c['r'], w=c['w'], masked=c['masked'], S=S, tol=4))]
