"""C21 driver: analytic inference, linearisation, slice-wise application."""
import numpy as np
import xarray as xr

import drv_boot
from drv_boot import METRICS, KINDS, outputs, relative, rnd_state
from larr import coord, show
from vlib import NAN, encr, guarded
from weatherbenchX import aggregation
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.statistical_inference import autodiff, t_test, utils

ALPHAS = [900, 800, 700, 600, 500, 400, 300, 200, 100, 50, 20, 10, 5, 2, 1]
SIZES = [3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20]
METHODS = dict(iid=t_test.IID, ar2=t_test.GeerAR2Corrected, ewc=t_test.LazarusHACEWC)


def series(rng, n, positive):
  """Independent, drifting, alternating or constant values."""
  k = rng.choice(['iid', 'iid', 'walk', 'walk', 'alt', 'const', 'trend'])
  lo = 1 if positive else -12
  if k == 'const':
    return [rng.randint(lo, 12)] * n
  if k == 'alt':
    a, b = rng.randint(lo, 12), rng.randint(lo, 12)
    return [min(12, max(lo, (a if i % 2 else b) + rng.randint(-1, 1))) for i in range(n)]
  if k == 'trend':
    return [min(12, max(lo, lo + (i * (12 - lo)) // n + rng.randint(-1, 1))) for i in range(n)]
  if k == 'walk':
    v, out = rng.randint(lo, 12), []
    for _ in range(n):
      v = min(12, max(lo, v + rng.randint(-3, 3)))
      out.append(v)
    return out
  return [rng.randint(lo, 12) for _ in range(n)]


def state(rng, n, stats, variables, nanp=0):
  rows = rnd_state(rng, n, stats, variables, 0, 0, wmax=rng.choice([1, 2, 3]) if n <= 10 else 1)
  for r in rows:
    ws, w = r['ws'], r['w']
    pos = r['stat'].split('_')[-1] in drv_boot.POSITIVE
    shape = [len(x) for x in ws['labels']]
    k = ws['dims'].index('unit')
    a = np.zeros(shape, int)
    b = np.moveaxis(a, k, -1)
    for ix in np.ndindex(*b.shape[:-1]):
      b[ix] = series(rng, n, pos)
    if n > 10:
      w['data'] = [1] * len(w['data'])
    ws['data'] = [int(x) * y for x, y in zip(a.ravel(), w['data'])]
    if nanp and rng.random() < .5:
      ws['data'][rng.randrange(len(ws['data']))] = NAN
  return rows


def cases(rng, tier, mc):
  out = []
  q = tier == 'quick'

  def setup(c, n):
    variables = rng.sample(['u', 'v', '2m_t'], rng.randint(1, 2))
    ms = rng.sample(list(METRICS), rng.randint(1, 3))
    base = rng.random() < .45
    cross = {}
    if base:
      ms = [m for m in ms if m != 'ratio'] or ['bias']
      if rng.random() < .3:
        cross = {m: rng.choice([k for k in ('bias', 'mae')]) for m in ms if m != 'rmse'}
      if rng.random() < .15 and len(ms) > 1:
        cross[ms[0]] = None     # the baseline lacks this metric
    stats = {s for m in ms for s in METRICS[m][2]} | {s for m in cross.values() if m for s in METRICS[m][2]}
    stats = sorted(stats) + (['Unused'] if rng.random() < .2 else [])
    if base:
      stats = ['main_' + s for s in stats] + ['baseline_' + s for s in stats]
    c.update(N=n, metrics=ms, base=base, cross=cross, rel=base and ms == ['mae'] and not cross and rng.random() < .7,
             stats=state(rng, n, stats, variables, rng.random() < .12), unitkind=rng.choice(['dt', 'td', 'int', 'float', 'str']),
             named=rng.random() < .4, dtype=rng.choice(['float64', 'float64', 'float32', 'int64']), seed=0, kind='iid')
    if any(v == NAN for s in c['stats'] for v in s['ws']['data']):
      c['dtype'] = 'float64'
    if base and rng.random() < .2:
      for s in c['stats']:
        if s['stat'].startswith('baseline_'):
          m = next(t for t in c['stats'] if t['var'] == s['var'] and t['stat'] == 'main_' + s['stat'][9:])
          s.update(ws=m['ws'], w=m['w'])
    return c

  for _ in range(150 if q else 1500):
    method = rng.choice(['iid', 'ar2', 'ewc'])
    n = rng.choice(SIZES + ([2, 7] if method == 'iid' else []))
    c = setup(dict(op='test', method=method), n)
    c.update(alpha=rng.choice(ALPHAS), v0=rng.choice([4, 4, 4, 10, 2, 20, 1, 60]), null=rng.choice([0, 0, rng.randint(-12000, 12000)]), uneven=method == 'iid' and rng.random() < .3)
    out.append(c)
  for _ in range(60 if q else 600):
    c = setup(dict(op='linear'), rng.randint(2, 10))
    c['uneven'] = rng.random() < .5
    out.append(c)
  for _ in range(10 if q else 60):
    c = setup(dict(op='uneven', method=rng.choice(['ar2', 'ewc'])), rng.choice([4, 5, 8, 12]))
    c.update(v0=4, uneven=True, unitkind=rng.choice(['dt', 'td', 'int', 'float']))
    out.append(c)
  for _ in range(12 if q else 80):
    while True:
      c = setup(dict(op='unpaired', method=rng.choice(['iid', 'ar2', 'ewc'])), rng.choice([4, 5, 8, 12]))
      if c['base']:
        break
    c.update(v0=4, how=rng.choice(['shifted', 'reversed', 'longer']))
    out.append(c)
  for _ in range(60 if q else 600):
    out.append(slices(rng))
  return out


def slices(rng):
  fun = rng.choice(['sum', 'mul', 'same', 'new'])
  size = {d: rng.randint(1, 3) for d in 'xyt'}
  ck = {d: rng.choice(['int', 'str', 'float', 'none', 'dt']) for d in 'xyt'}
  labs = {d: list(range(size[d])) if ck[d] == 'none' else rng.sample(range(6), size[d]) for d in 'xyt'}
  over = rng.sample('xyt', rng.randint(1, 3))
  leaves = []
  n = rng.randint(1, 3)
  for _ in range(n):
    ins = []
    for j in range(2 if fun == 'mul' else 1):
      ds = rng.sample('xyt', rng.randint(1, 3))
      if j == 0 and (fun == 'same' or len(leaves) == 0):
        ds = sorted(set(ds) | set(over))
        rng.shuffle(ds)
      # outputs must be distinct slices: each leaf has all sliced dimensions
      if j == 0 and not set(over) <= set(ds):
        ds = ds + [d for d in over if d not in ds]
      for d in list(ds):     # dimensions that are not sliced have labels
        if d not in over and ck[d] == 'none':
          ds.remove(d)
      if fun == 'sum':
        ds.insert(rng.randint(0, len(ds)), 'z')
      lab = [labs[d] if d != 'z' else [1, 2] for d in ds]
      ins.append(dict(dims=ds, labels=lab, data=[rng.randint(-20, 20) for _ in range(int(np.prod([len(x) for x in lab])))]))
    leaves.append(ins)
  c = dict(op='slices', fun=fun, size=size, ck=ck, over=over, leaves=leaves, named=rng.random() < .4, valid=True, tree=rng.random() < .7 or n > 1,
           string=len(over) == 1 and rng.random() < .5)
  if rng.random() < .15:
    c['valid'] = False
    c['how'] = rng.choice(['nodim', 'sizes'])
    if c['how'] == 'sizes' and not (fun == 'mul'):
      c['how'] = 'nodim'
  return c


def ucoord(c, n):
  labels = list(range(1, n + 1))
  if c.get('uneven'):
    labels = labels[:-1] + [n + 3] if n > 2 else labels
  return coord({'dt': 'dt', 'td': 'td', 'int': 'int', 'float': 'float', 'str': 'str'}[c['unitkind']], labels)


def build_state(c, prefix=''):
  ws, w = {}, {}
  u = ucoord(c, c['N'])
  if c['op'] == 'unpaired' and prefix == 'baseline_':
    if c['how'] == 'longer':
      u = ucoord(c, c['N'] + 1)
    elif c['how'] == 'reversed':
      u = u[::-1]
    else:
      u = ucoord(c, c['N'] + 1)[1:]
  for s in c['stats']:
    if not s['stat'].startswith(prefix):
      continue

    def mk(a):
      d = np.array([np.nan if v == NAN else v for v in a['data']], float).reshape([len(x) for x in a['labels']]).astype(c['dtype'])
      if c['op'] == 'unpaired' and len(u) > c['N']:
        d = np.concatenate([d, d.take([0], a['dims'].index('unit'))], a['dims'].index('unit'))
      cs = {k: coord(KINDS[k], ls) if k != 'unit' else u for k, ls in zip(a['dims'], a['labels'])}
      return xr.DataArray(d, dims=a['dims'], coords=cs, name=s['var'] if c['named'] else None)
    ws.setdefault(s['stat'][len(prefix):], {})[s['var']] = mk(s['ws'])
    w.setdefault(s['stat'][len(prefix):], {})[s['var']] = mk(s['w'])
  return aggregation.AggregationState(ws, w)


def metric_rows(c):
  rows = []
  for m in c['metrics']:
    if m in c['cross'] and c['cross'][m] is None:
      continue
    other = c['cross'].get(m) or m
    if c['base']:
      rows.append(dict(name=m, kind='rel' if c['rel'] else 'd' + METRICS[m][1],
                       parts=['main_' + METRICS[m][2][0], 'baseline_' + METRICS[other][2][0]]))
    else:
      rows.append(dict(name=m, kind=METRICS[m][1], parts=METRICS[m][2]))
  return rows


def execute(c):
  if c['op'] == 'slices':
    return [run_slices(c)]
  ev = dict(op=c['op'], N=c['N'], unit='unit', stats=c['stats'], metrics=metric_rows(c), base=c['base'], named=c['named'], unitkind=c['unitkind'])
  metrics = {m: METRICS[m][0]() for m in c['metrics']}
  bm = {m: METRICS[c['cross'].get(m) or m][0]() for m in c['metrics'] if not (m in c['cross'] and c['cross'][m] is None)}

  if c['op'] == 'linear':
    from weatherbenchX.statistical_inference import baseline_comparison as bc

    def run():
      if c['base']:
        ms = bc.for_metrics(metrics, bm, *([relative] if c['rel'] else []))
        st = bc.combine_aggregation_states(build_state(c, 'main_'), build_state(c, 'baseline_'))
      else:
        ms, st = metrics, build_state(c)
      v, t = autodiff.per_unit_values_linearized_around_mean_statistics(ms, st, 'unit')
      want = ucoord(c, c['N'])

      def units(a):
        got = a['unit'].values
        pos = [next((i + 1 for i, x in enumerate(want) if x == y), -5 - k) for k, y in enumerate(got)]
        return a.assign_coords(unit=('unit', np.array(pos)))
      inf = []
      for m, vs in t.items():
        for k, a in vs.items():
          inf.append(dict(metric=m, var=str(k), a=show(units(a), dict(KINDS, unit='raw'), 100, None)))
      return dict(point=outputs(v, lambda m: 1000), inf=inf)
    return [guarded(run, ev)]

  kw = dict(experimental_unit_dim='unit')
  if c['method'] == 'ewc':
    kw['v_0'] = c['v0'] / 10
    if c['v0'] == 4 and c['N'] % 2:
      del kw['v_0']
  ev.update(method=c['method'], v0=c['v0'])
  cls = METHODS[c['method']]

  def make():
    if c['base']:
      ck = dict(comparison=relative) if c['rel'] else {}
      if c['cross']:
        ck['baseline_metrics'] = bm
      return cls.for_baseline_comparison(metrics, build_state(c, 'main_'), build_state(c, 'baseline_'), **ck, **kw)
    return cls(metrics, build_state(c), **kw)

  if c['op'] in ('uneven', 'unpaired'):
    return [guarded(lambda: make() and {}, ev)]
  ev.update(alpha=c['alpha'], null=c['null'])

  def run():
    b = make()
    point, se = b.point_estimates(), b.standard_error_estimates()
    alpha, null = c['alpha'] / 1000, c['null'] / 1000
    lo, hi = b.confidence_intervals(alpha)
    # p-value of each lower interval end, position by position
    plo = {}
    for m, vs in lo.items():
      plo[m] = {}
      for v, a in vs.items():
        flat = []
        for ix in np.ndindex(*a.shape):
          p = b.p_values(float(a.values[ix]))[m][v]
          flat.append(float(p.transpose(*a.dims).values[ix]))
        plo[m][v] = a.copy(data=np.array(flat, float).reshape(a.shape))
    k = lambda m: 1000
    return dict(point=outputs(point, k), se=outputs(se, k), se1=outputs(se, lambda m: 100), lo=outputs(lo, k), hi=outputs(hi, k),
                p=outputs(b.p_values(null), lambda m: 10000), sig=outputs(b.significance_tests(null, alpha), lambda m: 1), plo=outputs(plo, lambda m: 10000))
  with np.errstate(all='ignore'):
    return [guarded(run, ev)]


def run_slices(c):
  cks = {d: ('raw' if k == 'none' else k) for d, k in c['ck'].items()}
  cks.update(z='raw', w='raw')

  def mk(a, i):
    cs = {d: coord(cks[d], ls) for d, ls in zip(a['dims'], a['labels']) if d == 'z' or c['ck'][d] != 'none'}
    d = np.array(a['data'], float).reshape([len(x) for x in a['labels']])
    return xr.DataArray(d, dims=a['dims'], coords=cs, name=f'n{i}' if c['named'] else None)
  args = []
  for j in range(len(c['leaves'][0])):
    t = {f'k{i}': {'v': mk(leaf[j], i)} for i, leaf in enumerate(c['leaves'])}
    args.append(t if c['tree'] else t['k0']['v'])
  over = list(c['over'])
  slices = int(np.prod([c['size'][d] for d in over]))
  if not c['valid']:
    if c['how'] == 'nodim':
      over.append('absent')
    else:
      d = over[0]
      bad = xr.DataArray(np.zeros(c['size'][d] + 1), dims=[d])
      args[1] = bad if not c['tree'] else {k: {'v': bad} for k in args[1]}
  ev = dict(op='slices', fun=c['fun'], valid=c['valid'], slices=slices)
  seen = []

  def fn(*xs):
    def leaf(*das):
      seen.extend(all(a.sizes.get(d, 1) == 1 for d in c['over']) for a in das)
      a = das[0]
      if c['fun'] == 'sum':
        return a.sum('z')
      if c['fun'] == 'mul':
        return a * das[1]
      if c['fun'] == 'new':
        return a * xr.DataArray([1, 2], dims='w', coords={'w': [1, 2]})
      return a
    calls[0] += 1
    if c['tree']:
      return {k: {'v': leaf(*[x[k]['v'] for x in xs])} for k in xs[0]}
    return leaf(*xs)
  calls = [0]

  def run():
    r = utils.apply_to_slices(fn, *args, dim=over[0] if c['string'] and len(over) == 1 else over)
    leaves = []
    for i, ins in enumerate(c['leaves']):
      o = r[f'k{i}']['v'] if c['tree'] else r
      if not isinstance(o, xr.DataArray):
        raise TypeError(f'not an array: {type(o).__name__}')
      leaves.append(dict(ins=ins, out=show(o, cks)))
    return dict(leaves=leaves, calls=calls[0], single=all(seen))
  return guarded(run, ev)
