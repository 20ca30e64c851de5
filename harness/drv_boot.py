"""C20 driver: bootstrap replicates and their summaries."""
import numpy as np
import pandas as pd
import xarray as xr
import arch.bootstrap

from larr import coord, show
from vlib import NAN, enc, encr, guarded
from weatherbenchX import aggregation
from weatherbenchX.metrics import base as mb
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.statistical_inference import bootstrap

REP = 'bootstrap_replicate'
KINDS = {'x': 'int', 'lead_time': 'td'}
LONG = 1e12


class Named(mb.Statistic):
  """A statistic known by its name only (states are given)."""

  def __init__(self, name):
    self._name = name

  @property
  def unique_name(self):
    return self._name

  def compute(self, predictions, targets):
    raise NotImplementedError


class Ratio(mb.PerVariableMetric):

  @property
  def statistics(self):
    return {'a': Named('A'), 'b': Named('B')}

  def _values_from_mean_statistics_per_variable(self, s):
    return s['a'] / s['b']


class Code(mb.PerVariableMetric):
  """Spells the multiplicities of the units, given as one-hot statistics."""

  def __init__(self, n):
    self.n = n

  @property
  def statistics(self):
    return {'id': Named('Id')}

  def _values_from_mean_statistics_per_variable(self, s):
    p = xr.DataArray([float((self.n + 1)**k) for k in range(self.n)], dims='k')
    return (s['id'] * self.n * p).sum('k')


METRICS = {'bias': (det.Bias, 'mean', ['Error']), 'mae': (det.MAE, 'mean', ['AbsoluteError']), 'rmse': (det.RMSE, 'rmse', ['SquaredError']),
           'ratio': (Ratio, 'ratio', ['A', 'B'])}
POSITIVE = {'SquaredError', 'B', 'AbsoluteError'}


def rnd_state(rng, units, stats, variables, zero=.0, nanp=0., wmax=3):
  """Abstract sums for each statistic and variable; sometimes without weight."""
  out = []
  x = sorted(rng.sample(range(5), rng.randint(1, 2)))
  dims = {v: rng.choice([[], [], ['x'], ['lead_time']]) for v in variables}
  lab = {'x': x, 'lead_time': rng.sample(range(6), rng.randint(1, 2))}
  for v in variables:
    ds = dims[v]
    shape = [len(lab[d]) for d in ds]
    m = units * int(np.prod(shape or [1]))
    order = ['unit'] + ds
    if rng.random() < .5:
      rng.shuffle(order)
    flat = rng.random() < .4
    w = [1 if flat else rng.randint(1, wmax) for _ in range(m)]
    for i in range(m):
      if rng.random() < zero:
        w[i] = 0
    for s in stats:
      sv = [(rng.randint(1, 12) if s.split('_')[-1] in POSITIVE else rng.randint(-12, 12)) for _ in range(m)]
      ws = [a * b for a, b in zip(sv, w)]
      if nanp and rng.random() < .5:
        ws[rng.randrange(m)] = NAN
      labels = [list(range(1, units + 1)) if d == 'unit' else lab[d] for d in order]
      out.append(dict(stat=s, var=v, ws=dict(dims=order, labels=labels, data=ws), w=dict(dims=order, labels=labels, data=w)))
  return out


def cases(rng, tier, mc):
  out = []
  q = tier == 'quick'

  def common(n):
    return dict(R=rng.randint(2, 14), alpha=rng.choice([100, 200, 20, 400, 1000]), alphasig=rng.choice([100, 400, 1000, 1600]),
                null=rng.choice([0, 0, rng.randint(-8000, 8000)]), unitname=rng.choice(['init_time', 'case']), named=rng.random() < .4,
                seed=rng.randrange(2**31), dtype=rng.choice(['float64', 'float64', 'float32']))

  def boot(kind, group):
    n = len(group)
    c = common(n)
    variables = rng.sample(['u', 'v', '2m_t'], rng.randint(1, 2))
    ms = rng.sample(list(METRICS), rng.randint(1, 3))
    base = rng.random() < .35
    nanp = 0 if rng.random() < .8 else 1
    zero = 0 if kind == 'stationary' or rng.random() < .6 else .35
    stats = sorted({s for m in ms for s in METRICS[m][2]})
    if base:
      ms = [m for m in ms if m != 'ratio'] or ['bias']
      stats = sorted({s for m in ms for s in METRICS[m][2]})
      stats = ['main_' + s for s in stats] + ['baseline_' + s for s in stats]
    c.update(op='boot', kind=kind, group=group, metrics=ms, base=base, rel=base and 'rmse' not in ms and 'bias' not in ms and rng.random() < .7,
             stats=rnd_state(rng, n, stats, variables, zero, nanp))
    if not base and rng.random() < .15:   # no variation, null value met exactly
      k = rng.randint(1, 8)
      for s in c['stats']:
        s['ws']['data'] = [k * a for a in s['w']['data']]
      c['null'] = k * 1000 if ms[0] in ('bias', 'mae') else 0
    if base and rng.random() < .35:   # equal systems
      c['null'] = 0
      for s in c['stats']:
        if s['stat'].startswith('baseline_'):
          m = next(t for t in c['stats'] if t['var'] == s['var'] and t['stat'] == 'main_' + s['stat'][9:])
          s.update(ws=m['ws'], w=m['w'])
    if kind == 'stationary':
      c['len'] = rng.choice([1, 1.5, 2, 4, LONG, LONG])
      c['round'] = rng.choice([None, 30.0])
    return c

  groups = sorted(mc, key=lambda c: (c['n'], c['group']))
  groups = [c['group'] for c in groups if len(set(c['group'])) <= 5]
  for g in rng.sample(groups, min(len(groups), 45 if q else 250)):
    out.append(boot('cluster', g))
  for _ in range(45 if q else 500):
    out.append(boot('iid', list(range(1, rng.randint(1, 5) + 1))))
  for _ in range(45 if q else 500):
    out.append(boot('stationary', list(range(1, rng.randint(2, 5) + 1))))
  for i in range(21 if q else 63):
    kind = ['iid', 'cluster', 'stationary'][i % 3]
    n = rng.randint(3, 8)
    g = list(range(1, n + 1))
    if kind == 'cluster':
      G, k = rng.choice([(2, 2), (3, 2), (2, 3), (4, 2), (5, 1)])
      g = [x + 1 for x in range(G)] * k
      if rng.random() < .5:
        g.sort()
    c = common(n)
    length = [1, 2, 20, n, 50, LONG, 3][i // 3 % 7]
    c.update(op='code', kind=kind, group=g, R=3000 if kind == 'stationary' and length in (20, 50) else 400, len=length)
    out.append(c)
  for _ in range(10 if q else 100):
    n = rng.randint(8, 9)
    c = common(n)
    c.update(op='auto', kind='stationary', group=list(range(1, n + 1)), metrics=['bias', 'mae'][:rng.randint(1, 2)], R=20, seed2=rng.randrange(10**6),
             round=rng.choice([None, 30.0, 1.0]), base=False, rel=False)
    c['stats'] = rnd_state(rng, n, sorted({s for m in c['metrics'] for s in METRICS[m][2]}), ['u', 'v'][:rng.randint(1, 2)])
    for s in c['stats']:
      s['ws']['data'] = [rng.randint(-12, 12) for _ in s['w']['data']]
      s['w']['data'] = [1] * len(s['w']['data'])
    out.append(c)
  for _ in range(8 if q else 40):
    n = rng.randint(3, 5)
    kind = rng.choice(['iid', 'cluster', 'stationary'])
    c = common(n)
    c.update(op='mismatch', kind=kind, group=[1 + i % 3 for i in range(n)] if kind == 'cluster' else list(range(1, n + 1)), metrics=['bias'], base=False,
             rel=False, len=2, round=None, stats=rnd_state(rng, n, ['Error'], ['u', 'v']), how='reversed' if kind == 'cluster' else rng.choice(['reversed', 'other', 'none']))
    out.append(c)
  return out


def build_state(c, prefix=''):
  n = len(c['group'])
  unit = c['unitname']
  ucoord = coord('dt' if unit == 'init_time' else 'int', list(range(1, n + 1)))
  ws, w = {}, {}
  for i, s in enumerate(c['stats']):
    if not s['stat'].startswith(prefix):
      continue
    name = s['stat'][len(prefix):]

    def mk(a):
      d = np.array([np.nan if v == NAN else v for v in a['data']], float).reshape([len(x) for x in a['labels']]).astype(c['dtype'])
      cs = {k: coord(KINDS[k], ls) for k, ls in zip(a['dims'], a['labels']) if k != 'unit'}
      u = ucoord
      if c['op'] == 'mismatch' and i == 1:
        u = {'reversed': ucoord[::-1], 'other': coord('dt' if unit == 'init_time' else 'int', list(range(2, n + 2))), 'none': None}[c['how']]
      da = xr.DataArray(d, dims=[unit if k == 'unit' else k for k in a['dims']], coords=cs, name=s['var'] if c['named'] else None)
      if u is not None:
        da = da.assign_coords({unit: u})
        if c['kind'] == 'cluster':
          lab = np.array([f'm{g * 7 % 11:02d}' for g in c['group']], dtype=object) if c['seed'] % 2 else np.array(c['group']) * 3 - 7
          da = da.assign_coords(season=(unit, lab[::-1] if c['op'] == 'mismatch' and i == 1 and c['how'] == 'reversed' else lab))
      return da
    ws.setdefault(name, {})[s['var']] = mk(s['ws'])
    w.setdefault(name, {})[s['var']] = mk(s['w'])
  return aggregation.AggregationState(ws, w)


def relative(main, baseline):
  return {k: (main[k] - baseline[k]) / baseline[k] for k in main}


def outputs(values, scales):
  kinds = dict(KINDS, **{REP: 'raw'})
  out = []
  for m, vs in values.items():
    for v, a in vs.items():
      if REP in a.dims:
        a = a.assign_coords({REP: np.arange(1, a.sizes[REP] + 1)})
      out.append(dict(metric=m, var=str(v), a=show(a, kinds, scales(m), None)))
  return out


def execute(c):
  n = len(c['group'])
  rows = [dict(stat=s['stat'], var=s['var'], ws=s['ws'], w=s['w']) for s in c.get('stats', [])]
  ev = dict(op=c['op'], kind=c['kind'], group=c['group'], unit='unit', stats=rows, R=c['R'])
  ev['len'] = int(min(c['len'], 1e6) * 100) if 'len' in c else 0
  ev['auto'] = c['op'] == 'auto'
  np.random.seed(c['seed'])
  kw = dict(n_replicates=c['R'])
  if c['kind'] == 'cluster':
    cls = bootstrap.ClusterBootstrap
    kw['experimental_unit_coord'] = 'season'
  else:
    cls = bootstrap.IIDBootstrap if c['kind'] == 'iid' else bootstrap.StationaryBootstrap
    kw['experimental_unit_dim'] = c['unitname']
  if c['kind'] == 'stationary':
    if c['op'] != 'auto':
      kw['mean_block_length'] = c['len']
    if c['op'] != 'code':
      kw['block_length_rounding_resolution'] = c['round']

  if c['op'] == 'code':
    unit = c['unitname']
    ident = np.eye(n)
    da = xr.DataArray(ident, dims=[unit, 'k'], coords={unit: coord('dt' if unit == 'init_time' else 'int', list(range(1, n + 1)))})
    if c['kind'] == 'cluster':
      da = da.assign_coords(season=(unit, np.array(c['group']) * 5))
    state = aggregation.AggregationState({'Id': {'u': da}}, {'Id': {'u': xr.ones_like(da)}})

    def run():
      b = cls(metrics={'code': Code(n)}, aggregated_statistics=state, **kw)
      v = b.resampled_values['code']['u']
      return dict(codes=[enc(x, 1, 1e-6) for x in np.asarray(v.transpose(REP).values, float)])
    return [guarded(run, ev)]

  metrics = {m: METRICS[m][0]() for m in c['metrics']}
  kind = lambda m: (('rel' if c['rel'] else 'd' + METRICS[m][1]) if c['base'] else METRICS[m][1])
  ev['metrics'] = [dict(name=m, kind=kind(m), parts=[p + s for p in (['main_', 'baseline_'] if c['base'] else ['']) for s in METRICS[m][2]]) for m in metrics]
  scale = {m: 100 if kind(m) in ('rmse', 'drmse') else 1000 for m in metrics}
  ev.update(alpha=c['alpha'], alphasig=c['alphasig'], null=c['null'])
  calls = []

  def run():
    if c['base']:
      ck = dict(comparison=relative) if c['rel'] else {}
      b = cls.for_baseline_comparison(metrics, build_state(c, 'main_'), build_state(c, 'baseline_'), **ck, **kw)
    else:
      b = cls(metrics=metrics, aggregated_statistics=build_state(c), **kw)
    # the null value is given at the scale of the first metric; all kinds of a
    # case are compared at their own scale
    null = {s: c['null'] / s for s in set(scale.values())}
    pick = lambda f: {m: f(null[scale[m]])[m] for m in metrics}
    lo, hi = b.confidence_intervals(c['alpha'] / 1000)
    sc = lambda m: scale[m]
    count = lambda f: outputs({m: {v: f(a, null[scale[m]]).where(~a.isnull()).sum(REP) for v, a in vs.items()} for m, vs in b.resampled_values.items()}, lambda m: 1)
    return dict(below=count(lambda a, x: a < x), tied=count(lambda a, x: a == x), reps=outputs(b.resampled_values, sc), point=outputs(b.point_estimates(), sc), se=outputs(b.standard_error_estimates(), sc),
                lo=outputs(lo, sc), hi=outputs(hi, sc), p=outputs(pick(b.p_values), lambda m: 10000),
                sig=outputs(pick(lambda v: b.significance_tests(v, c['alphasig'] / 2000)), lambda m: 1), calls=calls)

  if c['op'] == 'auto':
    old = arch.bootstrap.optimal_block_length

    def standin(x):
      x = np.asarray(x, float)
      long = bool(int(abs(float(np.sum(x * np.arange(1, len(x.ravel()) + 1)))) * 7 + c['seed2']) % 2)
      calls.append(dict(series=[encr(v, 1000) for v in x.ravel()], long=long))
      v = [LONG if long else 1.0]
      return pd.DataFrame(dict(stationary=v, circular=v))
    arch.bootstrap.optimal_block_length = standin
    try:
      return [guarded(run, ev)]
    finally:
      arch.bootstrap.optimal_block_length = old
  return [guarded(run, ev)]
