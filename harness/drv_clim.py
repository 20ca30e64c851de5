"""C23 driver: anomalies, interval scores and SEEPS relative to a climatology."""
import numpy as np
import xarray as xr

from larr import show
from mlib import KINDS, build, evaluate, rand_arr, random_cut
from vlib import NAN, guarded
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import deterministic as det

MK = dict(KINDS, init_time='dtm', lead_time='tdm', valid_time='dtm', time='dtm', dayofyear='raw', hour='raw', quantile='float', index=None)
SPACE = ['latitude', 'longitude', 'level']
ANOM = ['SquaredPredictionAnomaly', 'SquaredTargetAnomaly', 'AnomalyCovariance']
LEADS = [0, 0, 60, 180, 360, 360, 720, 1080, 1440, 1800, 2880, 7200, 20160, 525600]


def cases(rng, tier, mc):
  out = []
  nows = [c['now'] for c in mc]
  for m in nows:   # every instant of the calendar walk
    out.append(anom_case(rng, [m], rng.random() < .5))
  k = 160 if tier == 'quick' else 2500
  for _ in range(2 * k):
    out.append(anom_case(rng, instants(rng, nows), rng.random() < .5))
  for _ in range(2 * k):
    out.append(interval_case(rng, instants(rng, nows), rng.random() < .4))
  for _ in range(k):
    out.append(seeps_case(rng, instants(rng, nows)))
  for _ in range(6):
    out.append(dict(kind='rejected', what=rng.choice(['no-time', 'two-masks'])))
  return out


def instants(rng, nows):
  return [rng.choice(nows) for _ in range(rng.randint(1, 2))]


def doy_hour(m):   # only to choose entries a climatology should hold
  t = np.datetime64(int(m), 'm')
  return int((t.astype('datetime64[D]') - t.astype('datetime64[Y]').astype('datetime64[D]')).astype(int)) + 1, int(m % 1440) // 60


def time_layout(rng, nows, seeps=False):
  """(dims, labels, times, extra coordinates) of the forecast's times; nows are valid times to reach."""
  kind = rng.choice(['grid', 'grid', 'grid', 'scalar-init', 'scalar-lead', 'sparse'] + ([] if seeps else ['valid', 'valid', 'valid-2d', 'sparse-valid']))
  odd = rng.choice([0, 0, 0, 30])
  leads = sorted(set(rng.choice(LEADS) for _ in range(rng.randint(1, 3))))
  inits = sorted(set(m - rng.choice(leads) + odd for m in nows) | ({nows[0] - 1440} if rng.random() < .3 else set()))
  if rng.random() < .3:
    rng.shuffle(inits)
  if rng.random() < .2:
    rng.shuffle(leads)
  A = lambda dims, labels, data: dict(dims=dims, labels=labels, data=data)
  I, L = A(['init_time'], [inits], inits), A(['lead_time'], [leads], leads)
  lab, coords = {}, {}
  if kind == 'grid':
    lab = dict(init_time=inits, lead_time=leads)
    times = [I, L]
  elif kind == 'scalar-init':
    lab = dict(lead_time=leads)
    times = [A([], [], inits[:1]), L]
    coords['init_time'] = times[0]
  elif kind == 'scalar-lead':
    lab = dict(init_time=inits)
    times = [I, A([], [], leads[:1])]
    coords['lead_time'] = times[1]
  elif kind == 'valid':
    v = [i + leads[0] for i in inits]
    lab = dict(valid_time=v)
    times = [A(['valid_time'], [v], v)]
  elif kind == 'valid-2d':   # forecast labelled by initial and lead time, with valid times attached
    lab = dict(init_time=inits, lead_time=leads)
    times = [A(['init_time', 'lead_time'], [inits, leads], [i + x for i in inits for x in leads])]
    coords['valid_time'] = times[0]
  elif kind == 'sparse':
    n = rng.randint(1, 5)
    ix = list(range(1, n + 1))
    lab = dict(index=ix)
    times = [A(['index'], [ix], [rng.choice(inits) for _ in ix]), A(['index'], [ix], [rng.choice(leads) for _ in ix])]
    coords = dict(init_time=times[0], lead_time=times[1])
  else:
    n = rng.randint(1, 5)
    ix = list(range(1, n + 1))
    lab = dict(index=ix)
    times = [A(['index'], [ix], [rng.choice(inits) + rng.choice(leads) for _ in ix])]
    coords = dict(valid_time=times[0])
  return lab, times, coords


def valid_of(times):
  return sorted({int(v) for v in np.ravel(sum([build(t, kinds=MK, dtype='int64') for t in times]).values)})


def clim_labels(rng, times, layout, full=.08, drop=.06):
  v = valid_of(times)
  lab = {}
  if layout == 'time':
    lab['time'] = sorted(set(v) | {v[0] + 1440, v[0] + 60, v[0] - 1440})
    if rng.random() < drop:
      lab['time'].remove(rng.choice(v))
    return lab
  dh = [doy_hour(m) for m in v]
  if rng.random() < full:
    ds = list(range(1, rng.choice([366, 366, 365]) + 1))
  else:
    ds = {d for d, _ in dh} | {365, 366, 1}
    for d, _ in dh:
      ds |= {x for x in (d - 1, d + 1, rng.randint(1, 366)) if 1 <= x <= 366}
    ds = sorted(ds)
    if len(dh) and rng.random() < drop:
      ds.remove(rng.choice(dh)[0])
  if rng.random() < .2:
    rng.shuffle(ds)
  lab['dayofyear'] = ds
  if layout == 'doyhour':
    hs = {h for _, h in dh} | {0, rng.randint(0, 23)} | ({rng.choice(dh)[1] + 1} if rng.random() < .3 else set())
    hs = sorted(h for h in hs if h < 24)
    if rng.random() < drop / 2:
      hs.remove(rng.choice(dh)[1])
    lab['hour'] = hs
  return lab


def base_case(rng, nows, seeps=False, extra=()):
  tl, times, coords = time_layout(rng, nows, seeps)
  space = rng.sample(SPACE, rng.choice([0, 1, 1, 2]))
  lab = dict(tl)
  for d in space:
    lab[d] = sorted(rng.sample(range(9), rng.randint(1, 2)))
  layout = 'doyhour' if seeps else rng.choice(['time', 'doy', 'doy', 'doyhour', 'doyhour', 'doyhour'])
  cl = clim_labels(rng, times, layout, 0 if seeps else .05)
  cs = [d for d in space if rng.random() < .75]
  for d in cs:
    cl[d] = list(lab[d])
    if rng.random() < .3 and not seeps:
      cl[d] = cl[d] + [20]
    if rng.random() < .3 and not seeps:
      rng.shuffle(cl[d])
  if not space and rng.random() < .15 and not seeps:
    cl['level'] = [1, 2]
  return lab, times, coords, cl


def anom_case(rng, nows, metric):
  lab, times, coords, cl = base_case(rng, nows)
  pn = 0 if metric and rng.random() < .6 else rng.choice([0, .1])
  big = len(cl.get('dayofyear', [])) > 300
  val = lambda: NAN if rng.random() < pn else rng.randint(-4, 5)
  cval = lambda: NAN if rng.random() < pn / 3 else rng.randint(-2, 3)
  dims = list(lab)
  rng.shuffle(dims)
  p = rand_arr(rng, dims, lab, val)
  lt = {d: list(v) for d, v in lab.items()}
  for d in lt:
    if d != 'index' and rng.random() < .25:
      rng.shuffle(lt[d])
  td = [d for d in dims if d in ('init_time', 'lead_time', 'valid_time', 'index') or rng.random() < .85]
  t = rand_arr(rng, td, lt, val)
  cd = list(cl)
  rng.shuffle(cd)
  c = rand_arr(rng, cd, cl, cval)
  r = dict(kind='anom', p=p, t=t, c=c, times=times, coords=coords, stat=rng.choice(ANOM), form=rng.choice(['dict', 'dict', 'dataset']),
           dtype=rng.choice(['float64', 'float64', 'float32']), tcoords=rng.random() < .7)
  if metric:
    m = rng.choice(['ACC', 'ACC', 'PredictionActivity'])
    w = [rand_arr(rng, [d for d in dims if rng.random() < .5 and d != 'index'], lab, lambda: rng.randint(0, 3)) for _ in range(rng.choice([0, 0, 1]))]
    red = [d for d in dims if rng.random() < .75 and (m == 'PredictionActivity' or d in td)]
    if m == 'ACC':   # every statistic averages over the same elements
      r['t'] = rand_arr(rng, dims, dict(lt, **{d: lab[d] for d in dims if d not in td}), val)
      red = [d for d in dims if rng.random() < .75]
    cut = random_cut(rng, [d for d in dims if d != 'index' and (m == 'PredictionActivity' or lab[d] == lt[d]) and lab[d] == sorted(lab[d])], lab)
    if m == 'PredictionActivity':
      r['t'] = r['p']
    r.update(kind='acc', metric=m, w=w, r=red, cut=cut, dtype='float64', order=rng.sample(range(len(cut[1])), len(cut[1])) if cut else None)
  return r


def interval_case(rng, nows, opp):
  lab, times, coords, cl = base_case(rng, nows)
  for d in list(cl):   # keep arrays small
    if d == 'dayofyear' and len(cl[d]) > 40:
      v = {doy_hour(m)[0] for m in valid_of(times)}
      cl[d] = sorted(v | set(rng.sample(range(1, 367), 5)))
  default = rng.random() < .25
  n = 11 if default else rng.randint(1, 5)
  qs = lambda: sorted(rng.sample(range(5), 2))
  pn = 0 if rng.random() < .5 else .08
  dims = list(lab)
  rng.shuffle(dims)
  hi = rng.choice([3, 9])
  p = rand_arr(rng, dims + ['number'], dict(lab, number=list(range(n))), lambda: NAN if rng.random() < (0 if opp else pn / 4) else rng.randint(0, hi))
  if pn and not opp:   # points without any member
    da = build(p, kinds=MK)
    gone = np.array([[rng.random() < .1] for _ in range(da.size // n)]).reshape([da.sizes[d] for d in da.dims if d != 'number'] or [])
    da = da.where(~xr.DataArray(gone, dims=[d for d in da.dims if d != 'number']))
    p['data'] = [NAN if np.isnan(v) else int(v) for v in da.transpose(*p['dims']).values.ravel()]
  lt = {d: list(v) for d, v in lab.items()}
  td = [d for d in dims if rng.random() < .9 or opp]
  t = rand_arr(rng, td, lt, lambda: NAN if rng.random() < pn else rng.randint(0, hi))
  # climatological quantiles increase
  cq = dict(cl, quantile=[0, 1, 2, 3, 4])
  cd = [d for d in cl]
  rng.shuffle(cd)
  c = rand_arr(rng, cd + ['quantile'], cq, lambda: 0, shuffle=0)
  rows = []
  for _ in range(len(c['data']) // 5):
    row = sorted(rng.randint(0, hi) for _ in range(5)) if rng.random() < .85 else [rng.randint(0, hi)] * 5
    rows += [NAN] * 5 if rng.random() < pn / 2 else row
  c['data'] = rows
  q = {s: qs() for s in ('Confident', 'Covered', 'JaccardDistant')}
  th = dict(Confident=[rng.choice([1, 2, 4, 6, 8, 12]), 8], JaccardDistant=[rng.randint(0, 7), 8], Covered=[0, 1])
  if default:   # quantiles .1 and .9 of 11 members: the second smallest and the second largest
    q, th = {}, dict(Confident=[7, 10], JaccardDistant=[3, 4], Covered=[0, 1])
  r = dict(kind='interval', stat=rng.choice(['Confident', 'Confident', 'Covered', 'JaccardDistant', 'JaccardDistant']), p=p, t=t, c=c, times=times, coords=coords,
           q=q, th=th, default=default, edim=rng.choice(['number', 'realization']))
  if opp:
    use = dict(Confident=rng.randint(0, 1), Covered=rng.randint(0, 2), JaccardDistant=rng.randint(0, 2))
    w = [rand_arr(rng, [d for d in dims if rng.random() < .5 and d != 'index'], lab, lambda: rng.randint(0, 2)) for _ in range(rng.choice([0, 0, 1]))]
    cut = random_cut(rng, [d for d in dims if d != 'index' and lab[d] == sorted(lab[d])], lab)
    r.update(kind='opportunism', use=use, w=w, r=[d for d in dims if rng.random() < .75 and (use['Covered'] != 2 or d in dims)], cut=cut)
  return r


def seeps_case(rng, nows):
  lab, times, coords, cl = base_case(rng, nows, True)
  dims = list(lab)
  rng.shuffle(dims)
  pn = rng.choice([0, 0, .1])
  default = rng.random() < .3
  dry = 1 if default else rng.randint(0, 3)
  val = lambda: NAN if rng.random() < pn else rng.randint(0, 8)
  p = rand_arr(rng, dims, lab, val)
  lt = {d: list(v) for d, v in lab.items()}
  for d in lt:
    if d != 'index' and rng.random() < .2:
      rng.shuffle(lt[d])
  t = rand_arr(rng, dims, lt, val)
  cd = list(cl)
  rng.shuffle(cd)
  c = rand_arr(rng, cd, cl, lambda: NAN if rng.random() < pn / 3 else rng.randint(dry + 1, 7))
  fd = list(cl)
  rng.shuffle(fd)
  lo = rng.choice([0, 1, 4, 8])
  dryfrac = rand_arr(rng, fd, cl, lambda: NAN if rng.random() < pn / 3 else rng.randint(lo, min(16, lo + 9)))
  if rng.random() < .4:   # the same on every day: the mean is exact
    s = [1 if d in ('hour', 'dayofyear') else len(x) for d, x in zip(fd, dryfrac['labels'])]
    b = np.array([rng.randint(max(lo, 1), min(15, lo + 9)) for _ in range(int(np.prod(s)))]).reshape(s)
    dryfrac['data'] = np.broadcast_to(b, [len(x) for x in dryfrac['labels']]).ravel().tolist()
  # bounds that the mean dry fraction of some cell meets exactly
  lim = {'minp': [rng.randint(0, 6), 16], 'maxp': [rng.randint(9, 16), 16]}
  axis = tuple(i for i, d in enumerate(fd) if d in ('hour', 'dayofyear'))
  a = np.array([np.nan if v == NAN else v for v in dryfrac['data']]).reshape([len(x) for x in dryfrac['labels']])
  cnt = np.isfinite(a).sum(axis).ravel().tolist()
  tot = np.nansum(a, axis).ravel().tolist()
  means = sorted((t / n, [int(t), 16 * n]) for t, n in zip(tot, cnt) if 0 < t < 16 * n and (n in (1, 2, 4, 8, 16) or t % n == 0))
  if means:
    k = rng.choice([['minp'], ['maxp'], ['minp', 'maxp'], []])
    for x in k:
      lim[x] = rng.choice(means[:(len(means) + 1) // 2] if x == 'minp' else means[len(means) // 2:])[1]
  maskin, where = [], ''
  if rng.random() < .35:
    maskin = [rand_arr(rng, [d for d in dims if rng.random() < .7 and d != 'index'], lab, lambda: 0 if rng.random() < .3 else 1)]
    where = rng.choice(['p', 't'])
  return dict(kind='seeps', p=p, t=t, c=c, dryfrac=dryfrac, times=times, coords=coords, dry=dry, default=default,
              minp=[1, 10] if default else lim['minp'], maxp=[17, 20] if default else lim['maxp'],
              maskin=maskin, where=where, several=rng.random() < .4)


def with_coords(da, coords):
  out = da
  for k, a in coords.items():
    x = build(a, dtype='int64', kinds={})
    v = x.astype('datetime64[m]').astype('datetime64[ns]') if k != 'lead_time' else x.astype('timedelta64[m]').astype('timedelta64[ns]')
    if set(v.dims) <= set(da.dims):
      out = out.assign_coords({k: v.transpose(*[d for d in da.dims if d in v.dims])}) if not any(d in da.coords for d in v.dims) else out.assign_coords(
          {k: v.assign_coords({d: build(a, kinds=MK)[d] for d in v.dims}).reindex({d: da[d] for d in v.dims})})
  return out


def quant(c):
  da = build(c, kinds=MK)
  return da.assign_coords(quantile=np.array([0, .25, .5, .75, 1.])[np.array(c['labels'][c['dims'].index('quantile')])])


def execute(c):
  if c['kind'] == 'rejected':
    return rejected(c)
  P = with_coords(build(c['p'], c.get('dtype', 'float64'), 'v', MK), c['coords'])
  T = build(c['t'], c.get('dtype', 'float64'), 'v', MK)
  if c.get('tcoords', True):
    T = with_coords(T, c['coords'])
  p0, t0 = P.copy(deep=True), T.copy(deep=True)
  same = lambda: bool(P.identical(p0) and T.identical(t0))
  ev = {k: c[k] for k in ('p', 't', 'c', 'times')}
  log = lambda da, S, tol=None: show(da, MK, scale=S, tol=tol)
  if c['kind'] in ('anom', 'acc'):
    C = build(c['c'], c['dtype'], 'v', MK)
    clim = xr.Dataset({'a': C + 1, 'v': C})
    wrap = (lambda x: xr.Dataset({'v': x})) if c['form'] == 'dataset' else (lambda x: {'v': x})
    if c['kind'] == 'anom':
      ev.update(op='anom', stat=c['stat'])
      return [guarded(lambda: dict(out=log(getattr(det, c['stat'])(climatology=clim).compute(wrap(P), wrap(T))['v'], 1, 1e-3), unchanged=same()), ev)]
    S = 10000 if c['metric'] == 'ACC' else 1000
    ev.update(op='acc', metric=c['metric'], w=c['w'], r=c['r'], S=S, tol=2)

    def run():
      v = evaluate({'m': getattr(det, c['metric'])(clim)}, {'v': P}, {'v': T}, c['r'], [build(w, kinds=MK) for w in c['w']], False, c['cut'], c['order'])
      return dict(out=log(v['m.v'], S), unchanged=same())
    return [guarded(run, ev)]
  if c['kind'] == 'seeps':
    return seeps(c, ev, P, T, same, log)
  e = c['edim']
  P = P.rename(number=e)
  p0 = P.copy(deep=True)
  C = quant(c['c']) if not c['default'] else None
  q = dict(c['q'])
  if c['default']:
    # entries .1 and .9; as abstract labels 0 and 4 of the event they keep their place
    C = quant(c['c']).isel(quantile=[0, 4]).assign_coords(quantile=[.1, .9])
    q = dict(Confident=[0, 4], Covered=[0, 4], JaccardDistant=[0, 4])
  clim = xr.Dataset({'a': C + 1, 'v': C})
  b = lambda s: tuple(x / 4 for x in q[s])
  f = lambda s: c['th'][s][0] / c['th'][s][1]
  ev.update(q=q, th=c['th'], tiesopen=c['default'])
  if c['default']:   # the event's members are the second smallest and second largest of 11
    pa = build(c['p'], kinds=MK)
    two = np.sort(pa.transpose(..., 'number').values, axis=-1)
    has = np.isnan(two).any(-1)
    x = np.stack([two[..., 1], two[..., -2]], -1)
    x[has] = np.nan
    gone = np.isnan(two).all(-1)
    x[has & ~gone, 0] = 0   # some members missing: left open
    od = [d for d in c['p']['dims'] if d != 'number']
    ev['p'] = dict(dims=od + ['number'], labels=[c['p']['labels'][c['p']['dims'].index(d)] for d in od] + [[0, 1]],
                   data=[NAN if np.isnan(v) else int(v) for v in x.ravel()])
  if c['kind'] == 'interval':
    kw = dict(Confident={} if c['default'] else dict(spread_quantile_boundaries=b('Confident'), confidence_threshold=f('Confident')),
              Covered={} if c['default'] else dict(interval_quantile_boundaries=b('Covered')),
              JaccardDistant={} if c['default'] else dict(interval_quantile_boundaries=b('JaccardDistant'), threshold=f('JaccardDistant')))[c['stat']]
    s = getattr(cat, c['stat'])(e, **kw) if c['stat'] == 'Covered' else getattr(cat, c['stat'])(e, clim, **kw)
    ev.update(op='interval', stat=c['stat'])
    return [guarded(lambda: dict(out=log(s.compute({'v': P}, {'v': T})['v'].astype(float), 1, 1e-3), unchanged=same()), ev)]
  ob = lambda s: None if c['use'][s] == 2 else bool(c['use'][s])
  kw = {} if c['default'] else dict(confidence_quantile_boundaries=b('Confident'), coverage_quantile_boundaries=b('Covered'),
                                    jaccard_distance_quantile_boundaries=b('JaccardDistant'), confidence_threshold=f('Confident'),
                                    jaccard_distance_threshold=f('JaccardDistant'))
  ev.update(op='opportunism', use=c['use'], w=c['w'], r=c['r'], S=65536, tol=3)

  def run2():
    m = cat.Opportunism(e, clim, ob('Confident'), ob('Covered'), ob('JaccardDistant'), **kw)
    v = evaluate({'m': m}, {'v': P}, {'v': T}, c['r'], [build(w, kinds=MK) for w in c['w']], False, c['cut'])
    return dict(out=log(v['m.v'], 65536), unchanged=same())
  return [guarded(run2, ev)]


def seeps(c, ev, P, T, same, log):
  if c['maskin']:
    m = build(c['maskin'][0], kinds=MK).astype(bool)
    if c['where'] == 'p':
      P = P.assign_coords(mask=m.reindex({d: P[d] for d in m.dims}) if m.dims else m)
    else:
      T = T.assign_coords(mask=m.reindex({d: T[d] for d in m.dims}) if m.dims else m)
  u = 2.**-12
  C = build(c['c'], kinds=MK) * u
  D = build(c['dryfrac'], kinds=MK) / 16
  clim = xr.Dataset({'v_seeps_threshold': C, 'v_seeps_dry_fraction': D, 'a_seeps_threshold': C * 2, 'a_seeps_dry_fraction': D / 2})
  dmm = .25 if c['default'] else 125 * c['dry'] / 512
  kw = dict(dry_threshold_mm=dmm, min_p1=c['minp'][0] / c['minp'][1], max_p1=c['maxp'][0] / c['maxp'][1])
  names = ['v']
  if c['default']:
    kw = {}
  if c['several']:
    names = ['a', 'v']
    kw = {k: [0., v] for k, v in kw.items()}
  ev.update(op='seeps', dryfrac=c['dryfrac'], unit=16, dry=c['dry'], minp=c['minp'], maxp=c['maxp'], maskin=c['maskin'], S=65536, tol=3)
  t0 = T.copy(deep=True)

  def run():
    Pu, Tu = P * u, T * u
    for a, b in ((P, Pu), (T, Tu)):
      if 'mask' in a.coords:
        b.coords['mask'] = a.coords['mask']
    o = cat.SEEPS(names, clim, **kw).compute({n: Pu for n in names}, {n: Tu for n in names})['v']
    return dict(out=log(o.drop_vars('mask'), 65536), mask=log(o['mask'].drop_vars('mask', errors='ignore').astype(float), 1, 1e-3), unchanged=bool(T.identical(t0)))
  return [guarded(run, ev)]


def rejected(c):
  x = xr.DataArray(np.ones(2), dims=['latitude'], coords=dict(latitude=[0., 1.]))
  clim = xr.Dataset({'v': xr.DataArray(np.ones((366, 2)), dims=['dayofyear', 'latitude'], coords=dict(dayofyear=np.arange(1, 367), latitude=[0., 1.]))})

  def bad():
    if c['what'] == 'no-time':
      det.SquaredPredictionAnomaly(climatology=clim).compute({'v': x}, {'v': x})
    else:
      y = x.expand_dims(init_time=np.array(['2020-01-01'], 'datetime64[ns]'), lead_time=np.array([0], 'timedelta64[ns]'))
      y = y.assign_coords(mask=xr.ones_like(x, dtype=bool))
      k = xr.ones_like(clim['v']).expand_dims(hour=[0])
      cat.SEEPS(['v'], xr.Dataset({'v_seeps_threshold': k, 'v_seeps_dry_fraction': k / 2})).compute({'v': y}, {'v': y})
    return {}
  return [guarded(bad, dict(op='rejected', what=c['what']))]
