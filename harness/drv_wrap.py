"""C15 driver: inputs of statistics wrapped with chains of transforms.

A probe metric returns what its statistics are given, so what the transforms
made of the inputs is logged as it is; the specification says what it should be.
"""
import copy
import itertools

import numpy as np
import xarray as xr

from larr import coord, make, show
from mlib import rand_arr
from vlib import guarded, NAN, PINF, NINF
from weatherbenchX.metrics import base
from weatherbenchX.metrics import wrappers as W

KIND = {'number': 'int', 'member': 'int', 'x': 'float', 'y': 'str', 'level': 'int', 'height': 'int', 'init_time': 'dtm', 'lead_time': 'tdm',
        'valid_time': 'dtm', 'dayofyear': 'raw', 'thr': 'float', 'thr2': 'float', 'cat': 'float', 'quantile': 'raw', 'shift': 'float', 'xx': 'float'}
INF = 888888
DAY = 1440


class Probe(base.Statistic):
  """Its value is one of its inputs."""

  def __init__(self, side):
    self.side = side

  @property
  def unique_name(self):
    return f'Probe{self.side}'

  def compute(self, predictions, targets):
    return {k: v for k, v in (predictions if self.side == 'predictions' else targets).items()}


class ProbeMetric(base.Metric):

  @property
  def statistics(self):
    return {'predictions': Probe('predictions'), 'targets': Probe('targets')}

  def values_from_mean_statistics(self, statistic_values):
    return {(k, side): v for side, m in statistic_values.items() for k, v in m.items()}


# ---- generation -------------------------------------------------------------
class Side:
  """Dimensions of an array (dim -> labels), as far as needed to build valid chains."""

  def __init__(self, lab):
    self.lab = {d: list(v) for d, v in lab.items()}
    self.exact = True
    self.plain = set()   # dims without coordinates
    self.used = set()    # dims that may have left a scalar coordinate


def base_vars(rng):
  times = rng.choice(['', '', 'il', 'il', 'v'])
  lab = {}
  day0 = rng.choice([18260 + rng.randint(0, 800), 18320, 18627, 18626, 18625, 18625])
  if times == 'il':
    lab['init_time'] = sorted(rng.sample([(day0 + i) * DAY + h * 360 for i in range(4) for h in range(4)], rng.randint(1, 3)))
    lab['lead_time'] = sorted(rng.sample([0, 360, 720, DAY, 3 * DAY], rng.randint(1, 2)))
  elif times == 'v':
    lab['valid_time'] = sorted(rng.sample([(day0 + i) * DAY + h * 360 for i in range(4) for h in range(4)], rng.randint(1, 4)))
  for d, n in (('number', 4), ('x', 3), ('y', 3), ('level', 3)):
    if rng.random() < (.75 if d == 'number' else .45):
      lab[d] = sorted(rng.sample(range(1, 9), rng.randint(1, n)))
      if rng.random() < .25:
        rng.shuffle(lab[d])
  while np.prod([len(v) for v in lab.values()]) > 40:
    lab.pop(rng.choice([d for d in lab if d not in ('init_time', 'lead_time')] or list(lab)))
    if 'lead_time' in lab and 'init_time' not in lab or 'init_time' in lab and 'lead_time' not in lab:
      lab.pop('init_time', None), lab.pop('lead_time', None)
  return times, lab


def thr_values(rng, n, inf=0):
  v = sorted(rng.sample(range(-9, 10), n))
  if inf and rng.random() < inf:
    v[0] = NINF
  if inf and rng.random() < inf:
    v[-1] = PINF
  return v


def thr_labels(vals):
  return [-INF if v == NINF else INF if v == PINF else v for v in vals]


def thresholds(rng, st, vs, dim, timed, increasing, order_free):
  """Threshold specification: how it is given, and its arrays per variable."""
  form = rng.choice(['list', 'list', 'scalar', 'array', 'array', 'dataset', 'dataset', 'numpy', 'tuple'])
  n = rng.randint(2 if increasing else 1, 4)
  if form in ('list', 'numpy', 'scalar', 'tuple'):
    if form == 'scalar':
      n = 1
    vals = thr_values(rng, n, .3 if increasing else 0)
    if not increasing and rng.random() < .5:
      rng.shuffle(vals)
    return form, [dict(var='*', arr=dict(dims=[dim], labels=[thr_labels(vals)], data=vals))]
  lab = {}
  d0 = st.lab
  if timed:
    il = 'init_time' in d0 and 'lead_time' in d0
    how = rng.choice(['', 'valid_time', 'il', 'doy'])
    if il and how == 'valid_time':
      lab['valid_time'] = sorted({a + b for a in d0['init_time'] for b in d0['lead_time']} | {d0['init_time'][0] - 60})
    elif il and how == 'il':
      lab['init_time'] = sorted(set(d0['init_time']) | {d0['init_time'][0] - 60})
      lab['lead_time'] = sorted(set(d0['lead_time']) | {60})
    elif il and how == 'doy':
      lab['dayofyear'] = list(range(1, 367))
      lab['lead_time'] = sorted(set(d0['lead_time']) | {60})
    elif 'valid_time' in d0 and how == 'valid_time':
      lab['valid_time'] = sorted(set(d0['valid_time']) | {d0['valid_time'][0] - 60})
    elif 'valid_time' in d0 and how == 'doy':
      lab['dayofyear'] = list(range(1, 367))
    if 'dayofyear' in lab:
      # days used, and their neighbours
      used = {int((np.datetime64(m, 'm').astype('datetime64[D]') - np.datetime64(m, 'm').astype('datetime64[Y]')).astype(int)) + 1
              for m in d0.get('init_time', d0.get('valid_time'))}
      lab['dayofyear'] = sorted({min(366, max(1, u + k)) for u in used for k in (-1, 0, 1)})
  for d in d0:
    if d in ('x', 'y', 'level') and d not in st.plain and rng.random() < .3:
      lab[d] = list(d0[d])
      if order_free and rng.random() < .5:
        lab[d] = sorted(set(lab[d]) | {9})
        rng.shuffle(lab[d])
  if rng.random() < .15 and 'height' not in d0 and 'height' not in st.used:
    lab['height'] = [1, 2]
  lab[dim] = sorted(rng.sample(range(-9, 10), n))
  names = ['*'] if form == 'array' else [v for v in vs]
  out = []
  ds = list(lab)
  rng.shuffle(ds)
  for v in names:
    shape = [len(lab[d]) for d in ds]
    k = ds.index(dim)
    a = np.array([rng.randint(-9, 9) for _ in range(int(np.prod(shape)))]).reshape(shape)
    if increasing:
      rest = [s for i, s in enumerate(shape) if i != k]
      cols = [thr_values(rng, n, .1) for _ in range(int(np.prod(rest)) if rest else 1)]
      a = np.moveaxis(np.array(cols).reshape(rest + [n]), -1, k)
    out.append(dict(var=v, arr=dict(dims=ds, labels=[lab[d] for d in ds], data=a.ravel().tolist())))
  return form, out


def add_transform(rng, sides, which, vs, last):
  """A transform that is defined for the given sides (list of Side); updates them."""
  st = sides[0]
  dims = list(st.lab)
  common = [d for d in dims if all(d in s.lab for s in sides)]
  order_free = last
  ops = ['relu', 'negate', 'twiceplus1', 'binary', 'binary', 'cdf', 'cdf', 'bins', 'shift', 'select', 'select', 'rename', 'stack', 'mean', 'mean', 'mean', 'weibull']
  op = rng.choice(ops)
  t = dict(op=op, which=which)
  if op in ('mean', 'weibull'):
    cand = [d for d in common if d in ('number', 'member', 'x', 'level')]
    pref = [d for d in cand if d in ('number', 'member')]
    if op == 'weibull' and which != 'predictions':
      return None
    if not cand:
      if op == 'mean' and rng.random() < .3:
        t.update(dim='nothere', skipna=False, skipmissing=True)
        return t
      return None
    d = rng.choice(pref) if pref and rng.random() < .8 else rng.choice(cand)
    t.update(dim=d, skipna=rng.random() < .4, skipmissing=rng.random() < .3)
    if not all(s.exact for s in sides):
      return None
    for s in sides:
      n = len(s.lab[d])
      if (n + (op == 'weibull')) & (n + (op == 'weibull') - 1) or (t['skipna'] and op == 'mean' and n > 2):
        s.exact = False
      del s.lab[d]
      s.plain.discard(d)
    if op == 'weibull':
      del t['skipmissing']
    return t
  if op in ('binary', 'cdf', 'bins', 'shift'):
    dim = {'binary': 'thr', 'cdf': 'thr2', 'bins': 'cat', 'shift': 'shift'}[op]
    if any(dim in s.lab or dim in s.used for s in sides):
      return None
    if np.prod([len(x) for s in sides for x in s.lab.values()] or [1]) > 80:
      return None
    for s in sides[1:]:
      if set(s.lab) != set(st.lab) or any(sorted(s.lab[d]) != sorted(st.lab[d]) for d in s.lab):
        return None
    form, thr = thresholds(rng, st, vs, dim, op in ('cdf', 'bins'), op in ('cdf', 'bins'), order_free)
    if form == 'tuple' and op in ('binary', 'shift'):
      form = 'tuple'
    if form == 'array' and op == 'shift':
      form = 'dataset'
      thr = [dict(var=v, arr=thr[0]['arr']) for v in vs]
    if form == 'scalar' and op in ('cdf', 'bins'):
      form = 'list'
      if op == 'bins':
        return None
    t.update(thr=thr, form=form, dim=dim)
    if op in ('cdf', 'bins'):
      t.update(closed=True if op == 'bins' else rng.random() < .6, enforce=rng.random() < .6)
      if not t['enforce'] and rng.random() < .5 and form != 'list':
        for x in thr:
          x['arr']['data'] = [NAN if rng.random() < .1 else v for v in x['arr']['data']]
        if form in ('numpy', 'tuple'):
          t['form'] = 'array'
          for x in thr:
            x['arr']['labels'] = [list(range(1, len(x['arr']['labels'][0]) + 1))]
    a = thr[0]['arr']
    for s in sides:
      for d, ls in zip(a['dims'], a['labels']):
        if d == dim:
          s.lab[d] = ls[:-1] if op == 'bins' else ls
        elif d not in s.lab and d == 'height':
          s.lab[d] = ls
    return t
  if op == 'select':
    cand = [d for d in common if d not in ('init_time', 'lead_time', 'valid_time') or last]
    if not cand:
      return None
    sel, isel = [], []
    cur = [{d: list(v) for d, v in s.lab.items()} for s in sides]
    for where in (sel, isel):
      for d in rng.sample(cand, min(len(cand), rng.choice([0, 1, 1, 2]))):
        if any(d not in c for c in cur):
          continue
        both = [c[d] for c in cur]
        if where is sel:
          if d == 'cat' or any(d in s.plain for s in sides):
            continue
          inter = [v for v in both[0] if all(v in b for b in both)]
          how = rng.choice(['label', 'labels', 'between'])
          if not inter:
            continue
          if how == 'between' and any(b != sorted(b) for b in both):
            how = 'labels'
          v = [rng.choice(inter)] if how == 'label' else rng.sample(inter, rng.randint(1, len(inter))) if how == 'labels' else sorted([rng.choice(inter), rng.choice(inter)])
          where.append(dict(dim=d, how=how, v=v))
          for c in cur:
            if how == 'label':
              del c[d]
            else:
              c[d] = list(v) if how == 'labels' else [u for u in c[d] if v[0] <= u <= v[1]]
        else:
          n = min(len(b) for b in both)
          how = rng.choice(['index', 'indices', 'range'])
          if how == 'index':
            v = [rng.randint(-n, n - 1)]
          elif how == 'indices':
            v = rng.sample(range(n), rng.randint(1, n))
            if rng.random() < .3:
              v = [i - n if len(set(map(len, both))) == 1 and rng.random() < .5 else i for i in v]
          else:
            v = [rng.randint(0, n - 1), rng.randint(1, n + 1), rng.randint(1, 2)]
            if v[1] <= v[0]:
              v[1] = v[0] + 1
          where.append(dict(dim=d, how=how, v=v))
          for c in cur:
            if how == 'index':
              del c[d]
            elif how == 'indices':
              c[d] = [c[d][i] for i in v]
            else:
              c[d] = c[d][v[0]:v[1]:v[2]]
    for s, c in zip(sides, cur):
      s.used |= set(s.lab) - set(c)
      s.lab = c
      s.plain &= set(c)
    t.update(sel=sel, isel=isel)
    return t
  if op == 'rename':
    pairs = []
    for a, b in (('number', 'member'), ('level', 'height'), ('x', 'xx')):
      if a in common and not any(b in s.lab or b in s.used for s in sides) and rng.random() < .7:
        pairs.append([a, b])
    if not pairs:
      return None
    for s in sides:
      m = dict(map(tuple, pairs))
      s.plain = {m.get(d, d) for d in s.plain}
      s.lab = {m.get(d, d): v for d, v in s.lab.items()}
    t.update(pairs=pairs)
    return t
  if op == 'stack':
    cand = [d for d in common if d not in ('init_time', 'lead_time', 'valid_time') or last]
    if not cand:
      return None
    ds = rng.sample(cand, rng.randint(1, min(3, len(cand))))
    new = rng.choice(ds) if rng.random() < .5 else 'stacked'
    if any(new in s.lab and new not in ds for s in sides):
      return None
    for s in sides:
      n = int(np.prod([len(s.lab[d]) for d in ds]))
      s.lab = {d: v for d, v in s.lab.items() if d not in ds}
      s.plain -= set(ds)
      s.lab[new] = list(range(1, n + 1))
      s.plain.add(new)
    t.update(dims=ds, new=new)
    return t
  return t


def chain(rng, plab, tlab, vs, length):
  P, T = Side(plab), Side(tlab)
  out = []
  tries = 0
  while len(out) < length and tries < 20:
    tries += 1
    which = rng.choice(['predictions', 'targets', 'both', 'both'])
    sides = {'predictions': [P], 'targets': [T], 'both': [P, T]}[which]
    keep = copy.deepcopy((P, T))
    t = add_transform(rng, sides, which, vs, len(out) == length - 1)
    if t is None or np.prod([len(v) for s in (P, T) for v in s.lab.values()] or [1]) > 20000 or any(
        np.prod([len(v) for v in s.lab.values()] or [1]) > 150 for s in (P, T)):
      P, T = keep
      continue
    out.append(t)
    if tries > 15:
      break
  return out


def variables(rng, nvar=None):
  times, lab = base_vars(rng)
  tl = {d: v for d, v in lab.items() if d != 'number' or rng.random() < .4}
  names = rng.sample(['a', 'b', 'a_b', '2m_temperature'], nvar or rng.choice([1, 2, 2, 3]))
  pn = rng.choice([0, 0, .15, .4])
  out = []
  dtype = rng.choice(['float64', 'float32'] + (['int64'] if pn == 0 else []))
  pi = rng.choice([0, 0, 0, .15]) if dtype != 'int64' else 0
  val = lambda: NAN if rng.random() < pn else rng.choice([PINF, NINF]) if pi and rng.random() < pi else rng.randint(-9, 9)
  masked = rng.random() < .3
  for v in names:
    x = dict(name=v, p=rand_arr(rng, list(lab), lab, val), t=rand_arr(rng, list(tl), tl, val), pm=[], tm=[])
    if masked:
      for k, l in (('pm', lab), ('tm', tl)):
        md = [d for d in l if rng.random() < .6]
        x[k] = [dict(dims=md, labels=[l[d] for d in md], data=[rng.randint(0, 1) for _ in range(int(np.prod([len(l[d]) for d in md])) if md else 1)])]
    out.append(x)
  return lab, tl, names, out, dtype


def cases(rng, tier, mc):
  out = []
  for c in mc:
    out.append(dict(kind='wrapped', vars=c['vars'], dtype='float64', form='dict', metrics=[dict(chain=c['chain'], sub=[], subfirst=False, suffix='')]))
  n = 330 if tier == 'quick' else 6000
  for _ in range(n):
    lab, tl, names, vs, dtype = variables(rng)
    metrics = []
    first = chain(rng, lab, tl, names, rng.choice([1, 2, 2, 3, 4]))
    pool = [first]
    for _ in range(rng.choice([0, 1, 2, 3])):
      pool.append(variant(rng, pool[0]) if rng.random() < .5 else chain(rng, lab, tl, names, rng.randint(0, 3)))
    for i, ch in enumerate(pool):
      if ch is None:
        continue
      sub = [] if rng.random() < .7 else [rng.sample(names, rng.randint(1, len(names)))]
      metrics.append(dict(chain=ch, sub=sub, subfirst=bool(sub) and rng.random() < .5, suffix=f'u{i}' if rng.random() < .15 else ''))
    if len(names) > 1 and rng.random() < .3:   # the same metric for several subsets of the variables
      m = rng.choice(metrics)
      subs = [list(s) for k in (1, 2) for s in itertools.permutations(names, k)]
      for sub in rng.sample(subs, min(len(subs), rng.randint(2, 4))):
        metrics.append(dict(chain=m['chain'], sub=[sub], subfirst=rng.random() < .5, suffix=''))
    form = 'dataset' if rng.random() < .3 and not any(x['pm'] for x in vs) else 'dict'
    out.append(dict(kind='wrapped', vars=vs, dtype=dtype, form=form, metrics=metrics))
  for _ in range(n // 2):   # a chain next to the same chain with one parameter changed
    lab, tl, names, vs, dtype = variables(rng, 1)
    ch = chain(rng, lab, tl, names, rng.choice([1, 1, 2]))
    alts = [v for v in (variant(rng, ch) for _ in range(3)) if v]
    for i, t in enumerate(ch):   # reaching another side
      for w in ('predictions', 'targets', 'both'):
        if w != t['which'] and t['op'] in ('relu', 'negate', 'twiceplus1', 'binary', 'cdf') and i == len(ch) - 1 and (
            t['op'] not in ('binary', 'cdf') or all(x['arr']['dims'] == [t['dim']] for x in t['thr'])):
          alts.append(ch[:i] + [dict(t, which=w)])
    out.append(dict(kind='wrapped', vars=vs, dtype=dtype, form='dict',
                    metrics=[dict(chain=x, sub=[], subfirst=False, suffix='') for x in [ch] + alts]))
  for _ in range(n // 12):
    out.append(close_case(rng))
  for _ in range(n // 6):
    out.append(bad_case(rng))
  for i in range(6):
    out.append(dict(kind='rejected', which=i))
  return out


def close_case(rng):
  """Values and thresholds that only double precision tells apart."""
  lab, tl, names, vs, _ = variables(rng, 1)
  v0 = rng.choice([1 << 26, 1 << 28, -(1 << 27)])
  for v in vs:
    for k in ('p', 't'):
      v[k]['data'] = [NAN if x == NAN else v0 + rng.randint(-3, 3) for x in v[k]['data']]
  op = rng.choice(['binary', 'cdf', 'bins'])
  form = rng.choice(['list', 'numpy', 'tuple', 'array', 'dataset'])
  thr = [v0 + x for x in sorted(rng.sample(range(-3, 4), rng.randint(2, 4)))]
  dim = {'binary': 'thr', 'cdf': 'thr2', 'bins': 'cat'}[op]
  t = dict(op=op, which='both', form=form, dim=dim, closed=op != 'cdf' or rng.random() < .5, enforce=True,
           thr=[dict(var='*' if form != 'dataset' else names[0],
                     arr=dict(dims=[dim], labels=[thr if form in ('list', 'numpy', 'tuple') else list(range(1, len(thr) + 1))], data=thr))])
  return dict(kind='wrapped', vars=vs, dtype='float64', form='dict', metrics=[dict(chain=[t], sub=[], subfirst=False, suffix='')])


def variant(rng, ch):
  """Another chain much like this one (same defined-ness)."""
  c = copy.deepcopy(ch)
  for t in rng.sample(c, len(c)):
    if t['op'] == 'mean' and t['dim'] != 'nothere':
      t['skipna'] = not t['skipna']
      return c
    if t['op'] == 'weibull':
      t['skipna'] = not t['skipna']
      return c
    if t['op'] == 'cdf':
      t['closed'] = not t['closed']
      return c
    if t['op'] in ('binary', 'shift') and t['form'] in ('list', 'scalar') and not any(u['op'] == 'select' for u in c):
      a = t['thr'][0]['arr']
      a['data'] = [v + 1 for v in a['data']]
      a['labels'] = [list(a['data'])]
      return c
    if t['op'] == 'select' and t['isel']:
      s = t['isel'][-1]
      if s['how'] == 'indices':
        s['v'] = s['v'][::-1]
        return c
    if t['op'] == 'negate':
      t['op'] = 'twiceplus1'
      return c
  return None


def bad_case(rng):
  """A chain that is undefined for some input."""
  lab, tl, names, vs, dtype = variables(rng)
  tl0 = [x for x in lab if x not in tl]
  kind = rng.choice(['nodim', 'nolabel', 'noindex', 'order', 'norename', 'novar'])
  which = rng.choice(['predictions', 'targets', 'both'])
  d = rng.choice(list(tl)) if tl else None
  if kind == 'nodim':
    t = dict(op='mean', which='targets' if tl0 else which, dim=tl0[0] if tl0 else 'nothere', skipna=False, skipmissing=False)
  elif kind == 'nolabel' and d:
    t = dict(op='select', which=which, sel=[dict(dim=d, how=rng.choice(['label', 'labels']), v=[77])], isel=[])
  elif kind == 'noindex' and d:
    t = dict(op='select', which=which, sel=[], isel=[dict(dim=d, how='index', v=[len(tl[d])])])
  elif kind == 'norename':
    t = dict(op='rename', which=which, pairs=[['nothere', 'member']])
  elif kind == 'novar':
    t = dict(op='binary', which=which, dim='thr', form='dataset', thr=[dict(var='other', arr=dict(dims=['thr'], labels=[[1, 2]], data=[0, 1]))])
  else:
    v = thr_values(rng, 3)
    i = rng.randint(0, 1)
    v[i], v[i + 1] = rng.choice([(v[i + 1], v[i]), (v[i], v[i])])
    form = 'array' if len(set(v)) < 3 or rng.random() < .3 else rng.choice(['list', 'numpy', 'tuple'])
    t = dict(op=rng.choice(['cdf', 'bins']), which=which, form=form, closed=True, enforce=True,
             thr=[dict(var='*', arr=dict(dims=['D'], labels=[thr_labels(v) if form != 'array' else [1, 2, 3]], data=v))])
    t['dim'] = 'thr2' if t['op'] == 'cdf' else 'cat'
    t['thr'][0]['arr']['dims'] = [t['dim']]
    if t['op'] == 'cdf':
      t['closed'] = rng.random() < .5
  return dict(kind='wrapped', vars=vs, dtype=dtype, form='dict', metrics=[dict(chain=[t], sub=[], subfirst=False, suffix='')])


# ---- execution --------------------------------------------------------------
def real(v):
  return np.inf if v == PINF else -np.inf if v == NINF else np.nan if v == NAN else v / 4


def thr_array(a):
  data = np.array([real(v) for v in a['data']], dtype='float64').reshape([len(x) for x in a['labels']])
  return xr.DataArray(data, dims=a['dims'], coords={d: coord(KIND[d], ls) for d, ls in zip(a['dims'], a['labels'])})


def thr_value(t):
  form = t['form']
  if form == 'dataset':
    return xr.Dataset({x['var']: thr_array(x['arr']) for x in t['thr']})
  if form == 'array':
    return thr_array(t['thr'][0]['arr'])
  vals = [real(v) for v in t['thr'][0]['arr']['data']]
  return {'list': vals, 'scalar': vals[0], 'numpy': np.array(vals), 'tuple': tuple(vals)}[form]


def selector(ss, kinds, how):
  out = {}
  for s in ss:
    d, v = s['dim'], s['v']
    if s['how'] in ('label', 'labels', 'between'):
      c = coord(kinds[d], v)
      if kinds[d] == 'float':
        c = np.where(np.abs(v) == INF, np.sign(v) * np.inf, c)
      out[d] = c[0] if s['how'] == 'label' else (list(c) if how % 2 else c) if s['how'] == 'labels' else slice(c[0], c[1])
    else:
      out[d] = v[0] if s['how'] == 'index' else list(v) if s['how'] == 'indices' else slice(*v)
  return out


def transform(t, n, i):
  w = t['which']
  op = t['op']
  if op == 'mean':
    kw = dict(skip_if_ensemble_dim_missing=True) if t['skipmissing'] else {}
    return W.EnsembleMean(w, t['dim'], skipna=t['skipna'], **kw)
  if op == 'weibull':
    return W.WeibullEnsembleToProbabilistic(w, t['dim'], t['skipna'])
  suffix = f'given{n}.{i}' if t.get('form') in ('dataset', 'array') else None
  if op == 'binary':
    return W.ContinuousToBinary(w, thr_value(t), t['dim'], unique_name_suffix=suffix)
  if op == 'cdf':
    return W.ContinuousToCDF(w, thr_value(t), t['dim'], unique_name_suffix=suffix, enforce_monotonicity=t['enforce'], right_inclusive=t['closed'])
  if op == 'bins':
    return W.ContinuousToBins(w, thr_value(t), t['dim'], unique_name_suffix=suffix, enforce_monotonicity=t['enforce'])
  if op == 'shift':
    return W.ShiftAlongNewDim(w, thr_value(t), t['dim'], unique_name_suffix=f'shift{n}.{i}')
  if op == 'relu':
    return W.ReLU(w)
  if op == 'negate':
    return W.Inline(w, lambda da: -da, 'negate')
  if op == 'twiceplus1':
    return W.Inline(w, lambda da: 2 * da + 1, 'twiceplus1')
  if op == 'rename':
    return W.Rename(w, dict(map(tuple, t['pairs'])))
  if op == 'select':
    kinds = dict(KIND)
    sel = selector(t['sel'], kinds, i)
    isel = selector(t['isel'], kinds, i)
    return W.Select(w, sel=sel or None, isel=isel or None)
  if op == 'stack':
    return W.StackToNewDimension(w, t['dims'], t['new'])
  raise ValueError(op)


def plain_dims(ch, side):
  p = set()
  for t in ch:
    if t['which'] not in ('both', side):
      continue
    if t['op'] == 'stack':
      p -= set(t['dims'])
      p.add(t['new'])
    elif t['op'] == 'rename':
      p = {dict(map(tuple, t['pairs'])).get(d, d) for d in p}
  return p


def num_label(x):
  return -INF if x == -np.inf else INF if x == np.inf else int(round(x * 4))


def log(da, plain, bins):
  kinds = {d: None if d in plain or d not in KIND else KIND[d] for d in da.dims}
  edges = []
  fix = {}
  for d in da.dims:
    if d in bins and d not in plain:
      kind, thr = bins[d]
      f = num_label if KIND[d] == 'float' else lambda v: int(v)
      left = [f(v) for v in da[f'{d}_left'].values]
      right = [f(v) for v in da[f'{d}_right'].values]
      edges.append(dict(thr=thr, left=left, right=right))
      fix[d] = left
      kinds[d] = None
    elif kinds[d] == 'float' and d in da.coords and not np.isfinite(da[d].values).all():
      fix[d] = [num_label(v) for v in da[d].values]
      kinds[d] = None
  scaled = da.astype('float64')
  out = show(scaled, kinds, 2048, None)
  for d, ls in fix.items():
    out['labels'][out['dims'].index(d)] = ls
  res = dict(arr=out, edges=edges, mask=[])
  if 'mask' in da.coords:
    m = da.coords['mask']
    mm = show(m.astype('float64'), {d: kinds.get(d) for d in m.dims}, 1, None)
    for d, ls in fix.items():
      if d in mm['dims']:
        mm['labels'][mm['dims'].index(d)] = ls
    res['mask'] = [mm]
  return res


def execute(c):
  if c['kind'] == 'rejected':
    return rejected(c)
  P, T = {}, {}
  for v in c['vars']:
    for side, k, mk in ((P, 'p', 'pm'), (T, 't', 'tm')):
      a = v[k]
      da = make(a['dims'], a['labels'], a['data'], KIND, dtype='float64')
      da = (da / 4).rename(v['name']) if c['dtype'] != 'int64' else da.astype('int64').rename(v['name'])
      da = da.astype(c['dtype'])
      if v[mk]:
        m = v[mk][0]
        da.coords['mask'] = make(m['dims'], m['labels'], m['data'], {}, dtype='float64').astype(bool).variable
      side[v['name']] = da
  vs = c['vars']
  if c['dtype'] == 'int64':   # whole numbers
    vs = [dict(v, p=dict(v['p'], data=[4 * x for x in v['p']['data']]), t=dict(v['t'], data=[4 * x for x in v['t']['data']])) for v in vs]
  if c['form'] == 'dataset':
    P, T = xr.Dataset(P), xr.Dataset(T)
  before = [{k: v.copy(deep=True) for k, v in s.items()} for s in (P, T)]
  keys = [list(s) for s in (P, T)]

  metrics = {}
  evs = []
  box = {}

  def everything():
    for n, m in enumerate(c['metrics']):
      x = ProbeMetric()
      tr = [transform(t, n, i) for i, t in enumerate(m['chain'])]
      if m['sub'] and not m['subfirst']:
        x = W.SubselectVariables(x, m['sub'][0])
      kw = dict(unique_name_suffix=m['suffix'] + f'.{n}') if m['suffix'] else {}
      if tr or kw or not m['sub']:
        x = W.WrappedMetric(x, tr, **kw)
      if m['sub'] and m['subfirst']:
        x = W.SubselectVariables(x, m['sub'][0])
      metrics[f'm{n}'] = x
    st = base.compute_unique_statistics_for_all_metrics(metrics, P, T)
    box['v'] = base.compute_metrics_from_statistics(metrics, st)
    return {}
  res = guarded(everything, {})
  for n, m in enumerate(c['metrics']):
    ev = dict(op='wrapped', vars=vs, chain=m['chain'], sub=m['sub'], subfirst=m['subfirst'])

    def run():
      if not res['ok']:
        raise RuntimeError(res['err'])
      out = []
      for (name, side), da in box['v'][f'm{n}'].items():
        bins = {t['dim']: (t['form'], t['thr'][0]['arr']['labels'][t['thr'][0]['arr']['dims'].index(t['dim'])])
                for t in m['chain'] if t['op'] == 'bins' and t['which'] in ('both', side)}
        out.append(dict(name=name, side=side, **log(da, plain_dims(m['chain'], side), bins)))
      same = [list(s) for s in (P, T)] == keys and all(s[k].identical(b[k]) for s, b in zip((P, T), before) for k in b)
      return dict(out=out, unchanged=bool(same))
    evs.append(guarded(run, ev))
    if not res['ok']:
      evs[-1]['tb'] = res.get('tb')
  return evs


def rejected(c):
  fns = [lambda: W.EnsembleMean('prediction'), lambda: W.WeibullEnsembleToProbabilistic('targets'),
         lambda: W.ContinuousToBinary('both', xr.DataArray([1.], dims=['thr']), 'thr'),
         lambda: W.ContinuousToBins('both', xr.DataArray([1., 2.], dims=['thr']), 'thr'),
         lambda: W.ContinuousToCDF('both', xr.Dataset({'a': xr.DataArray([1., 2.], dims=['thr'])}), 'thr'),
         lambda: W.Inline('all', lambda x: x, 'n')]
  ev = dict(op='rejected', n=c['which'])

  def run():
    fns[c['which']]()
    return {}
  return [guarded(run, ev)]
