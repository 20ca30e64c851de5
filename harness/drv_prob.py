"""C17 driver: ensemble scores."""
import numpy as np
import xarray as xr

from drv_det import frame
from larr import show, coord
from mlib import DIMS, KINDS, build, evaluate, rand_arr, random_cut
from vlib import NAN, guarded, enc, encr
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import probabilistic as pr

STATS = ['CRPSSkill', 'CRPSSpread', 'CRPSTargetSpread', 'EnsembleVariance', 'UnbiasedMeanSq', 'RPS', 'RPS', 'Wasserstein',
         'EnsembleErrorExceedance', 'EachError', 'EachAbsoluteError', 'EachSquaredError', 'RankHistogram']
METRICS = ['CRPSEnsemble', 'CRPSEnsemble', 'CRPSEnsembleDistance', 'UnbiasedEnsembleMeanRMSE', 'EnsembleRootMeanVariance', 'UnbiasedSpreadSkillRatio', 'EachRMSE',
           'RPS', 'RankHistogram', 'UnbiasedMeanSq', 'CRPSSkill', 'EachAbsoluteError', 'Wasserstein']
NEED_T = {'CRPSTargetSpread', 'Wasserstein', 'CRPSEnsembleDistance'}   # target ensemble needed
NO_T = {'EnsembleErrorExceedance', 'EachError', 'EachAbsoluteError', 'EachSquaredError', 'RankHistogram', 'EachRMSE'}
ROOTS = {'UnbiasedEnsembleMeanRMSE', 'EnsembleRootMeanVariance', 'UnbiasedSpreadSkillRatio', 'EachRMSE'}


def cases(rng, tier, mc):
  out = []
  groups = {}
  for c in mc:
    groups.setdefault((len(c['x']), len(c['y'])), []).append(c)
  for (n, m), cs in sorted(groups.items()):
    for i in range(0, len(cs), 40):
      part = cs[i:i + 40]
      p = dict(dims=['series', 'number'], labels=[list(range(len(part))), list(range(n))], data=[v for c in part for v in c['x']])
      tdims = ['series', 'number'] if m > 1 or rng.random() < .4 else ['series']
      t = dict(dims=tdims, labels=p['labels'][:1] + ([list(range(m))] if len(tdims) > 1 else []), data=[v for c in part for v in c['y']])
      tens = len(tdims) > 1
      for s in ['CRPSSkill', 'CRPSSpread', 'EnsembleVariance', 'UnbiasedMeanSq', 'RPS'] + (['CRPSTargetSpread', 'Wasserstein'] if tens else ['RankHistogram', 'EachError', 'EachSquaredError']):
        c = flags(rng, s)
        c.update(kind='stat', stat=s, p=p, t=t, th=[])
        if s == 'RPS':
          a = dict(dims=['thr'], labels=[[0, 1, 2]], data=[0, 1, 2])
          c['th'] = [a, a]
        out.append(c)
  k = 600 if tier == 'quick' else 9000
  for _ in range(k):
    out.append(stat_case(rng))
  for _ in range(k):
    out.append(metric_case(rng))
  for _ in range(k // 15):
    out.append(stat_case(rng, 'RPS', True))
  for _ in range(k // 3):
    out.append(rev_case(rng))
  for _ in range(k // 10):
    out.append(cdf_case(rng))
  return out


def flags(rng, s):
  fair = rng.random() < .6
  skipna = rng.random() < .5
  if s in ('Wasserstein', 'RankHistogram', 'EnsembleErrorExceedance'):
    skipna = False
  return dict(fair=fair, skipna=skipna, sort=(s.startswith('CRPS') and rng.random() < (.05 if skipna else .5)), incl=rng.random() < .6,
              dtype=rng.choice(['float64', 'float64', 'float32']), edim=rng.choice(['number', 'number', 'realization']))


def ens_inputs(rng, s, c, metric):
  dims, lab = frame(rng, 1 if metric else 0, 2)
  nmax = 4 if c['skipna'] else rng.choice([4, 4, 6])
  n = rng.randint(1 if rng.random() < .1 else 2, nmax)
  tens = s in NEED_T or (s not in NO_T and rng.random() < .35)
  m = rng.randint(1 if rng.random() < .15 else 2, 3)
  pn = rng.choice([0, 0, .15, .35])
  hi = rng.choice([1, 3, 9])
  ln = dict(lab, number=rng.sample(range(9), n))
  val = lambda: NAN if rng.random() < pn else rng.randint(0, hi)
  p = rand_arr(rng, dims + ['number'], ln, val)
  lt = {d: list(v) for d, v in lab.items()}
  td = list(dims)
  if not metric and rng.random() < .2 and td:
    td.pop()
  for d in td:
    if s not in ('Wasserstein', 'RPS') and rng.random() < .2:   # these align exactly, not by label
      rng.shuffle(lt[d])
  lt['number'] = rng.sample(range(9), m)
  t = rand_arr(rng, td + (['number'] if tens else []), lt, val)
  return dims, lab, td, p, t, tens


def thresholds(rng, dims, lab, s, gaps=False):
  if s == 'RPS':
    tl = sorted(rng.sample(range(9), rng.randint(1, 3)))
    out = []
    dd = [d for d in dims if rng.random() < .25]
    for i in range(2):
      if i and rng.random() < .6:
        out.append(out[0])
        continue
      a = rand_arr(rng, dd + ['thr'], dict(lab, thr=tl), lambda: 0, shuffle=0)
      k = len(tl)
      rows = [sorted(rng.sample(range(-1, 10), k)) for _ in range(len(a['data']) // k)]
      if gaps:   # thresholds unknown at some places: no score there
        rows = [[NAN if rng.random() < .2 else x for x in r] for r in rows]
      a['data'] = [x for r in rows for x in r]
      out.append(a)
    return out
  vals = rng.sample(range(0, 8), rng.randint(1, 2))
  return [dict(dims=['error_exceedance_thresholds'], labels=[[4 * v for v in vals]], data=vals)]


def stat_case(rng, s=None, gaps=False):
  s = s or rng.choice(STATS)
  c = flags(rng, s)
  if gaps:
    c['skipna'] = False
  dims, lab, td, p, t, tens = ens_inputs(rng, s, c, False)
  c.update(kind='stat', stat=s, p=p, t=t, th=thresholds(rng, td if s == 'RPS' else dims, lab, s, not c['skipna'] and (gaps or rng.random() < .4)) if s in ('RPS', 'EnsembleErrorExceedance') else [])
  return c


def metric_case(rng):
  m = rng.choice(METRICS)
  c = flags(rng, m)
  c['dtype'] = 'float64'
  if m in ('CRPSEnsemble', 'CRPSEnsembleDistance') and c['skipna'] and not c['fair']:
    c['fair'] = True
  if m == 'CRPSEnsembleDistance' or m == 'CRPSEnsemble':
    c['sort'] = not c['skipna'] and rng.random() < .5
  dims, lab, td, p, t, tens = ens_inputs(rng, m, c, True)
  agg_skipna = rng.random() < .4
  if m == 'UnbiasedSpreadSkillRatio' and agg_skipna:
    t['data'] = [0 if v == NAN else v for v in t['data']]
  w = [rand_arr(rng, [d for d in dims if rng.random() < .6], lab, lambda: rng.randint(0, 3)) for _ in range(rng.choice([0, 0, 1]))]
  cand = [d for d in dims if p['labels'][p['dims'].index(d)] == t['labels'][t['dims'].index(d)]]
  cut = random_cut(rng, cand, lab)
  c.update(kind='metric', metric=m, p=p, t=t, r=[d for d in dims if rng.random() < .75], w=w, agg_skipna=agg_skipna, cut=cut,
           order=rng.sample(range(len(cut[1])), len(cut[1])) if cut else None,
           th=thresholds(rng, [], lab, m) if m == 'RPS' else [])
  return c


def rev_case(rng):
  dims, lab = frame(rng, 1, 2)
  n = rng.randint(1, 5)
  pn = rng.choice([0, 0, .15])
  one = 2 * n
  p = rand_arr(rng, dims, lab, lambda: NAN if rng.random() < pn else 2 * rng.randint(0, n))
  t = rand_arr(rng, dims, lab, lambda: NAN if rng.random() < pn else rng.randint(0, 1))
  custom = rng.random() < .4
  ths = sorted(rng.sample(range(1, one), rng.randint(1, min(3, one - 1)))) if custom else [2 * i + 1 for i in range(n)]
  if custom and rng.random() < .3:
    rng.shuffle(ths)
  b = 16
  costs = [[a, b] for a in rng.sample(range(1, b), rng.randint(1, 3))]
  opt, nearest = [], False
  kept = [d for d in dims if rng.random() < .3]
  if rng.random() < .5:
    ths.sort()
    od = [d for d in kept if rng.random() < .6]
    allt = sorted({0, one} | set(ths))
    nearest = rng.random() < .5
    def pick():
      if nearest:
        while True:
          v = rng.randint(0, one)
          ds = sorted(abs(v - h) for h in allt)
          if ds[0] < ds[1]:
            return v
      return rng.choice(allt) if rng.random() < .93 else rng.randint(0, one)
    opt = [rand_arr(rng, od + ['cost'], dict(lab, cost=list(range(1, len(costs) + 1))), pick)]
  w = [rand_arr(rng, [d for d in dims if rng.random() < .6], lab, lambda: rng.randint(0, 3)) for _ in range(rng.choice([0, 0, 1]))]
  # Adding up pieces may sort the labels of the cut dimension, and optimal thresholds have to be labelled like the statistics.
  cut = random_cut(rng, [d for d in dims if p['labels'][p['dims'].index(d)] == t['labels'][t['dims'].index(d)] and (not opt or d not in opt[0]['dims'])], lab)
  return dict(kind='rev', p=p, t=t, n=n, custom=custom, thresholds=ths, costs=costs, opt=opt, nearest=nearest, mapping=rng.random() < .4,
              r=[d for d in dims if d not in kept], w=w, agg_skipna=rng.random() < .5, cut=cut)


def cdf_case(rng):
  dims, lab = frame(rng, 0, 2)
  lab = dict(lab, thr=[1, 2, 3][:rng.randint(1, 3)])
  pn = rng.choice([0, .3])
  mk = lambda: rand_arr(rng, dims + ['thr'], lab, lambda: rng.randint(0, 4))
  p, t = mk(), mk()
  if pn and rng.random() < .8:   # a point without forecast
    for a in rng.sample([p, t], 1):
      da = build(a)
      pts = [{d: 0 for d in dims}] if dims else [{}]
      da[pts[0]] = np.nan
      a['data'] = [NAN if np.isnan(v) else int(v) for v in da.values.ravel()]
  if rng.random() < .35:   # single bins missing
    for a in (p, t):
      a['data'] = [NAN if rng.random() < .2 else v for v in a['data']]
  return dict(kind='cdf', p=p, t=t)


def stat_obj(s, c):
  e = c['edim']
  kw = {} if e == 'number' else dict(ensemble_dim=e)
  sk = dict(kw, skipna_ensemble=c['skipna']) if c['skipna'] else kw
  if s == 'CRPSSkill':
    return pr.CRPSSkill(**sk)
  if s == 'CRPSSpread':
    return pr.CRPSSpread(use_sort=c['sort'], fair=c['fair'], **sk)
  if s == 'CRPSTargetSpread':
    return pr.CRPSSpread(use_sort=c['sort'], fair=c['fair'], which='targets', **sk)
  if s == 'EnsembleVariance':
    return pr.EnsembleVariance(**sk)
  if s == 'UnbiasedMeanSq':
    return pr.UnbiasedEnsembleMeanSquaredError(**sk)
  if s == 'RPS':
    a, b = [xr.Dataset({'v': build(x, name='v')}) for x in c['th']]
    return pr.EnsembleRankedProbabilityScore(a, b, 'thr', 'sfx', fair=c['fair'], right_inclusive=c['incl'],
                                             **({'enforce_monotonicity': False} if any(NAN in x['data'] for x in c['th']) else {}), **sk)
  if s == 'Wasserstein':
    return pr.WassersteinDistance(**kw)
  if s == 'EnsembleErrorExceedance':
    return pr.EnsembleErrorExceedance([float(x) for x in c['th'][0]['data']], **kw)
  if s == 'RankHistogram':
    return pr.RankHistogram(**kw)
  inner = {'EachError': det.Error, 'EachAbsoluteError': det.AbsoluteError, 'EachSquaredError': det.SquaredError}[s]()
  m = pr.EnsembleAveragedMetric(inner, **sk)
  return list(m.statistics.values())[0]


def metric_obj(m, c):
  kw = dict(ensemble_dim=c['edim']) if c['edim'] != 'number' else {}
  if m in ('CRPSEnsemble', 'CRPSEnsembleDistance'):
    return getattr(pr, m)(use_sort=c['sort'], fair=c['fair'], skipna_ensemble=c['skipna'], **kw)
  if m in ('UnbiasedEnsembleMeanRMSE', 'EnsembleRootMeanVariance', 'UnbiasedSpreadSkillRatio'):
    return getattr(pr, m)(skipna_ensemble=c['skipna'], **kw)
  if m == 'EachRMSE':
    return pr.EnsembleAveragedMetric(det.RMSE(), skipna_ensemble=c['skipna'], **kw)
  if m.startswith('Each'):
    return pr.EnsembleAveragedMetric(det.AbsoluteError(), skipna_ensemble=c['skipna'], **kw)
  return stat_obj(m, c)


def execute(c):
  if c['kind'] == 'rev':
    return rev(c)
  if c['kind'] == 'cdf':
    return cdf(c)
  e = c['edim']
  ren = lambda da: da.rename({'number': e}) if e != 'number' and 'number' in da.dims else da
  P, T = ren(build(c['p'], c['dtype'], 'v')), ren(build(c['t'], c['dtype'], 'v'))
  p0, t0 = P.copy(deep=True), T.copy(deep=True)
  ev = {k: c[k] for k in ('fair', 'skipna', 'sort', 'incl', 'p', 't', 'th')}
  kinds = dict(KINDS, rank=None)

  def log(da, S):
    o = show(da, kinds, scale=S, tol=None)
    if 'rank' in da.dims:
      o['labels'][o['dims'].index('rank')] = [int(v) for v in da['rank'].values]
    return o
  if c['kind'] == 'stat':
    S = 65536 if c['dtype'] == 'float64' else 2048
    ev.update(op='ens', stat=c['stat'], S=S, tol=2)

    def run():
      o = stat_obj(c['stat'], c).compute({'v': P}, {'v': T})['v']
      return dict(out=log(o, S), unchanged=bool(P.identical(p0) and T.identical(t0)))
    return [guarded(run, ev)]
  S = 1000 if c['metric'] in ROOTS else 65536
  ev.update(op='ensmetric', metric=c['metric'], S=S, tol=2, r=c['r'], w=c['w'], agg_skipna=c['agg_skipna'])

  def run2():
    v = evaluate({'m': metric_obj(c['metric'], c)}, {'v': P}, {'v': T}, c['r'], [build(w) for w in c['w']], c['agg_skipna'], c['cut'], c['order'])
    return dict(out=log(v['m.v'], S), unchanged=bool(P.identical(p0) and T.identical(t0)))
  return [guarded(run2, ev)]


def rev(c):
  one = 2 * c['n']
  P = build(c['p'], name='v') / one
  T = build(c['t'], name='v')
  S = 10000
  ev = dict(op='rev', p=c['p'], t=c['t'], one=one, thresholds=c['thresholds'], costs=c['costs'], opt=c['opt'], nearest=c['nearest'], r=c['r'], w=c['w'],
            agg_skipna=c['agg_skipna'], S=S, tol=2)
  costs = np.array([a / b for a, b in c['costs']])

  def run():
    kw = dict(cost_loss_ratios=costs)
    if c['custom']:
      kw.update(probability_thresholds=np.array([h / one for h in c['thresholds']]), statistic_suffix='s')
    else:
      kw.update(ensemble_size=c['n'])
    if c['opt']:
      # Thresholds as the metric itself labels them (exact matches).
      o = build(c['opt'][0], kinds=dict(KINDS, cost=None)) / one
      if not c['custom']:
        exact = {2 * i + 1: (i + .5) / c['n'] for i in range(c['n'])}
        o.values = np.vectorize(lambda v: exact.get(round(v * one), v))(o.values) if o.size else o.values
      o = o.rename(cost='cost_loss_ratio').assign_coords(cost_loss_ratio=costs)
      kw.update(optimal_thresholds={'a': xr.zeros_like(o), 'v': o} if c['mapping'] else o, optimal_thresholds_select_nearest=c['nearest'])
    m = pr.RelativeEconomicValue(**kw)
    v = evaluate({'m': m}, {'a': P, 'v': P}, {'a': T, 'v': T}, c['r'], [build(w) for w in c['w']], c['agg_skipna'], c['cut'])['m.v']
    v = v.rename(cost_loss_ratio='cost')
    o = show(v, KINDS, scale=S, tol=None)
    o['labels'][o['dims'].index('cost')] = [([i + 1 for i, x in enumerate(costs) if x == y] or [-9])[0] for y in v['cost'].values]
    if 'threshold' in v.dims:
      o['labels'][o['dims'].index('threshold')] = [enc(y, one) for y in v['threshold'].values]
    return dict(out=o)
  return [guarded(run, ev)]


def cdf(c):
  P, T = build(c['p'], name='v') / 4, build(c['t'], name='v') / 4

  def run():
    return dict(out=show(cat.RankedProbabilityScore('thr').compute({'v': P}, {'v': T})['v'], KINDS, scale=16))
  return [guarded(run, dict(op='cdfscore', p=c['p'], t=c['t']))]
