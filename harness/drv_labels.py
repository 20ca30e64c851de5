"""C13 driver: exact-coordinate, time-unit and set binnings."""
import random

import numpy as np
import xarray as xr

from vlib import guarded, enc
from weatherbenchX import aggregation, binning

DT_UNITS = ['year', 'month', 'day', 'dayofyear', 'hour', 'minute', 'second', 'dayofweek', 'quarter']
TD_UNITS = ['second', 'minute', 'hour', 'day', 'week', 'year']
EPOCH = np.datetime64('1970-01-01', 'D')
KINDS = ['int', 'str', 'float', 'dt', 'td']


def day(s):
  return int((np.datetime64(s, 'D') - EPOCH).astype(int))

INTERESTING = [day(s) for s in ['2019-12-31', '2020-01-01', '2020-02-28', '2020-02-29', '2020-03-01', '2020-12-31',
                                '2021-01-01', '2021-01-03', '2021-01-04', '2000-02-29', '1999-12-31', '1969-12-31', '1970-01-01',
                                '2016-12-31', '2018-12-31', '2023-06-30', '2023-07-01', '2024-10-01', '1900-03-01', '2100-02-28']]


def rand_time(rng):
  d = rng.choice(INTERESTING) + rng.choice([0, 0, 0, 1, -1, rng.randint(-400, 400)])
  s = rng.choice([0, 0, 43200, 21600, 64800, 86399, 3599, 3600, rng.randrange(86400), 60 * rng.randrange(1440), 3600 * rng.randrange(24)])
  return dict(d=d, s=s)


def rand_dur(rng):
  return rng.choice([0, 3600 * rng.randint(-30, 400), 60 * rng.randint(-200, 2000), rng.randint(-100000, 100000), 86400 * rng.randint(-3, 800),
                     6 * 3600 * rng.randint(0, 60), 604800 * rng.randint(0, 3) - 1, 31536000 - rng.randint(0, 2)])


def rand_key(rng, kind):
  if kind == 'dt':
    return rand_time(rng)
  if kind == 'td':
    return rand_dur(rng)
  if kind == 'secs':
    return rng.choice([rng.randrange(0, 86400), 3600 * rng.randrange(0, 30), 60 * rng.randrange(0, 90), rng.randrange(0, 70), -rng.randrange(1, 4000)])
  if kind == 'str':
    return rng.choice(['KSFO', 'KJFK', 'EGLL', 'a', 'A', 'b', '10', '1', 'not_in_x', 'ab'])
  return rng.choice([rng.randint(-5, 9), rng.randint(0, 3), 10, 1])


MISSING = dict(dt=dict(d=-9999999, s=0), td=-2000000000, float=-2000000000)   # no time, no number


def is_missing(kind, k):
  return kind in MISSING and k == MISSING[kind]


def lose_labels(rng, b, keys):
  # a missing label is in no set, hence in every complement and the global bin
  if b['scheme'] == 'sets' and b['kind'] in MISSING and rng.random() < 0.35:
    return [MISSING[b['kind']] if rng.random() < 0.3 else k for k in keys]
  return keys


def concrete(kind, keys):
  if any(is_missing(kind, k) for k in keys):
    ok = concrete(kind, [rand_key(random.Random(1), kind) if is_missing(kind, k) else k for k in keys])
    ok[[is_missing(kind, k) for k in keys]] = 'NaT' if kind != 'float' else np.nan
    return ok
  if kind == 'dt':
    return np.array([np.datetime64('1970-01-01', 'ns') + np.timedelta64(k['d'], 'D') + np.timedelta64(k['s'], 's') for k in keys], dtype='datetime64[ns]')
  if kind == 'td':
    return np.array(keys, dtype='timedelta64[s]').astype('timedelta64[ns]')
  if kind == 'str':
    return np.array(keys, dtype=object if len(keys) % 3 == 0 else str)
  if kind == 'float':
    return np.array(keys, dtype=float) / 4
  return np.array(keys, dtype='int64').reshape(-1)


def rand_binning(rng, kinds=None):
  """Abstract binning; the key kind it needs."""
  scheme = rng.choice(['exact', 'unit', 'unit', 'unitsets', 'seconds', 'sets', 'sets'])
  b = dict(scheme=scheme, unit='', sets=[], complements=False, bins=[])
  b['global'] = rng.random() < 0.4
  if scheme == 'exact':
    b['kind'] = rng.choice(KINDS)
  elif scheme in ('unit', 'unitsets'):
    b['kind'] = rng.choice(['dt', 'dt', 'td'])
    b['unit'] = rng.choice(DT_UNITS if b['kind'] == 'dt' else TD_UNITS + ['second', 'hour', 'hour', 'day'])
    if b['kind'] == 'td' and rng.random() < 0.05:
      b['unit'] = rng.choice(['month', 'dayofyear'])
  elif scheme == 'seconds':
    b['kind'] = 'secs'
    b['unit'] = rng.choice(['second', 'minute', 'hour', 'hour'])
    b['global'] = False
    if rng.random() < 0.5:
      b['defaultbins'] = True
      b['bins'] = list(range(24 if b['unit'] == 'hour' else 60))
    else:
      b['bins'] = rng.sample(range(0, 30), rng.randint(1, 5))
  else:
    b['kind'] = rng.choice(['int', 'str', 'str', 'dt', 'td', 'float'])
    b['complements'] = rng.random() < 0.5
  return b


UNIT_VALUES = dict(year=[2019, 2020, 2021, 2016, 1999], month=list(range(1, 13)), day=list(range(1, 32)), dayofyear=[1, 59, 60, 61, 365, 366, 182],
                   hour=[0, 6, 12, 18, 23, 1], minute=[0, 59, 30], second=[0, 59, 1], dayofweek=list(range(7)), quarter=[1, 2, 3, 4], week=[0, 1, 2, 52, 53])


def add_sets(rng, b, keys):
  if b['scheme'] not in ('sets', 'unitsets'):
    return
  for i in range(rng.randint(1, 3)):
    if b['scheme'] == 'sets':
      pool = list(keys) + [rand_key(rng, b['kind'])]
      if b['kind'] == 'str':  # longer and shorter names
        pool += [k + 'x' for k in keys] + [k[:-1] for k in keys]
    else:
      pool = UNIT_VALUES[b['unit']] + [0, 24, 48] if b['unit'] in UNIT_VALUES else [0, 1]
    members = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    how = rng.choice(['list', 'list', 'tuple'])
    if len(members) == 1 and rng.random() < 0.5:
      how = 'scalar'
    name = rng.choice([f's{i}', f'set {i}', f'{"x" * (i + 1)}', ['K', 'Kx', 'x'][i]])
    b['sets'].append(dict(name=name, notname=f'not_in_{name}', members=members, how=how))
  if len({s['name'] for s in b['sets']}) < len(b['sets']):
    for i, s in enumerate(b['sets']):
      s['name'], s['notname'] = f's{i}', f'not_in_s{i}'


def cases(rng, tier, mc):
  out = []
  n = len(mc)
  pick = mc if tier != 'quick' else rng.sample(mc, min(n, 260))
  for c in pick:
    labs = c['lab']
    b = dict(scheme=c['scheme'], unit='', complements=c['scheme'] == 'sets', bins=[], kind=rng.choice(['int', 'str']), sets=[])
    b['global'] = True
    if b['kind'] == 'str':
      f = lambda x: ['', 'aa', 'a', 'b'][x]
    else:
      f = lambda x: x
    if c['scheme'] == 'sets':
      b['sets'] = [dict(name='S', notname='not_in_S', members=[f(x) for x in c['set']], how='list')]
    out.append(dict(op='chunked', binnings=[b], keys=[[f(x) for x in labs]], chunk=c['chunk'], layout=[len(labs)], val=[2 ** i for i in range(len(labs))], seed=rng.randrange(10**9)))
  for _ in range(600 if tier == 'quick' else 5000):
    out.append(rand_mask(rng))
  for _ in range(160 if tier == 'quick' else 1500):
    out.append(rand_chunked(rng))
  # Long axes: whole days and years.
  for i in range(8 if tier == 'quick' else 60):
    b = rand_binning(rng)
    b.update(scheme=rng.choice(['unit', 'unit', 'exact', 'unitsets']), kind='dt', unit=DT_UNITS[i % len(DT_UNITS)], complements=False, bins=[])
    t0 = rng.choice(INTERESTING)
    n = rng.choice([30, 61, 100])
    step = rng.choice([3600, 21600, 86400, 86400 * 7, 7 * 60, 86400 * 31])
    keys = [dict(d=t0 + k * step // 86400, s=k * step % 86400) for k in range(n)]
    add_sets(rng, b, keys)
    out.append(dict(op='mask', binning=b, shape='one', sizes=[n], keys=keys, extra=0, dimcoord=False, shuffle=False, seed=rng.randrange(10**9)))
  for unit, n in [('dayofyear', 400), ('hour', 100), ('month', 50), ('dayofweek', 20), ('day', 70)]:
    b = dict(scheme='unit', unit=unit, sets=[], complements=False, bins=[], kind='dt')
    b['global'] = rng.random() < 0.5
    t0 = rng.choice(INTERESTING)
    step = dict(dayofyear=86400, hour=3600, month=86400 * 15, dayofweek=43200, day=86400)[unit]
    keys = [dict(d=t0 + k * step // 86400, s=k * step % 86400) for k in range(n)]
    out.append(dict(op='chunked', binnings=[b], keys=[keys], chunk=[1 + k * 3 // n for k in range(n)], layout=[n], val=[rng.randint(-9, 9) for _ in range(n)], seed=rng.randrange(10**9)))
  return out


def rand_mask(rng):
  b = rand_binning(rng)
  shape = rng.choice(['one', 'one', 'two', 'dim', 'scalar'])
  if shape in ('dim', 'scalar') and b['scheme'] == 'exact':
    shape = 'one'
  if shape == 'scalar' and b['scheme'] != 'sets':
    shape = 'one'
  if shape == 'two':
    sizes = [rng.randint(1, 4), rng.randint(1, 3)]
  elif shape == 'scalar':
    sizes = []
  else:
    sizes = [rng.randint(1, 9)]
  n = int(np.prod(sizes)) if sizes else 1
  keys = [rand_key(rng, b['kind']) for _ in range(n)]
  if shape == 'two' and b['kind'] == 'dt' and rng.random() < 0.6:
    # valid_time = init_time + lead_time
    ts = [rand_time(rng) for _ in range(sizes[0])]
    ls = [3600 * rng.choice([0, 6, 12, 18, 23, 24, 25, 36, 48, 240]) for _ in range(sizes[1])]
    keys = [dict(d=t['d'] + (t['s'] + L) // 86400, s=(t['s'] + L) % 86400) for t in ts for L in ls]
  if b['kind'] == 'str' and rng.random() < 0.35:
    keys = [rng.choice(['a', 'b', '1', 'A', 'K']) for _ in range(n)]
  if shape != 'dim' and rng.random() < 0.5:  # repeated labels
    keys = [rng.choice(keys[: max(1, n // 2)]) for _ in range(n)]
  if shape == 'dim':
    seen, u = set(), []
    for k in keys:
      if str(k) not in seen:
        seen.add(str(k))
        u.append(k)
    keys, sizes = u, [len(u)]
  add_sets(rng, b, keys)
  if shape != 'dim':
    keys = lose_labels(rng, b, keys)
  return dict(op='mask', binning=b, shape=shape, sizes=sizes, keys=keys, extra=rng.choice([0, 1, 2]), dimcoord=rng.random() < 0.6,
              shuffle=rng.random() < 0.5, seed=rng.randrange(10**9))


def rand_chunked(rng):
  n0 = rng.randint(2, 8)
  layout = [n0] if rng.random() < 0.6 else [n0, rng.randint(1, 3)]
  n = int(np.prod(layout))
  bs, ks = [], []
  for _ in range(rng.choice([1, 1, 2])):
    b = rand_binning(rng)
    if b['kind'] == 'td' and b['unit'] in ('month', 'dayofyear'):
      b['unit'] = 'hour'
    keys = [rand_key(rng, b['kind']) for _ in range(max(1, rng.randint(1, n)))]
    keys = [rng.choice(keys) for _ in range(n)]
    add_sets(rng, b, keys)
    keys = lose_labels(rng, b, keys)
    bs.append(b)
    ks.append(keys)
  nch = rng.randint(1, 4)
  return dict(op='chunked', binnings=bs, keys=ks, chunk=[rng.randint(1, nch) for _ in range(n0)], layout=layout, val=[rng.randint(-9, 9) for _ in range(n)], seed=rng.randrange(10**9))


def make_binning(b, name):
  s = b['scheme']
  if s == 'exact':
    return binning.ByExactCoord(name, add_global_bin=b['global'])
  if s == 'unit':
    return binning.ByTimeUnit(b['unit'], name, add_global_bin=b['global'])
  if s == 'seconds':
    return binning.ByTimeUnitFromSeconds(b['unit'], name, **({} if b.get('defaultbins') else dict(bins=b['bins'])))
  sets = {}
  for x in b['sets']:
    if s == 'sets':
      m = list(concrete(b['kind'], x['members'])) if x['members'] else []
      if b['kind'] == 'int' and len(m) % 2 == 0:
        m = [float(v) for v in m]
    else:
      m = list(x['members'])
    sets[x['name']] = m[0] if x['how'] == 'scalar' else tuple(m) if x['how'] == 'tuple' else m
  if s == 'unitsets':
    b.setdefault('dimarg', 'default')
    return binning.ByTimeUnitSets(sets, b['unit'], name, add_global_bin=b['global'])
  return binning.BySets(sets, name, name + '_set', add_set_complements=b['complements'], add_global_bin=b['global'])


def dim_name(b, name):
  return {'exact': name, 'unit': f'{name}_{b["unit"]}', 'seconds': f'{name}_{b["unit"]}', 'unitsets': f'{name}_{b["unit"]}_sets', 'sets': name + '_set'}[b['scheme']]


def codes(b, keys):
  """Distinct exact keys -> integer codes."""
  u = sorted({str(k): k for k in keys}.items())
  return {k: i + 1 for i, (k, _) in enumerate(u)}, [v for _, v in u]


def bin_labels(b, values, keys):
  s = b['scheme']
  vals = np.asarray(values)
  if s in ('sets', 'unitsets'):
    return [str(v) for v in vals]
  out = []
  if s == 'exact':
    cm, u = codes(b, keys)
    conc = concrete(b['kind'], u)
    for v in vals:
      code = -7777
      for k, c in zip(u, conc):
        if b['global']:
          hit = str(v) == str(c if b['kind'] == 'str' else np.asarray([c]).astype(conc.dtype).astype(str)[0])
        else:
          hit = type(v) is type(c) and bool(v == c) or (b['kind'] == 'str' and str(v) == str(c))
        if hit:
          code = cm[str(k)]
      if code == -7777 and isinstance(v, str) and v == 'global':
        code = 777777
      out.append(code)
    return out
  for v in vals.tolist():
    if isinstance(v, str):
      if v == 'global':
        out.append(777777)
        continue
      try:
        v = float(v)
      except ValueError:
        out.append(-777777)
        continue
    out.append(enc(v, 1))
  return out


def abskeys(b, keys):
  if b['scheme'] == 'exact':
    cm, _ = codes(b, keys)
    return [cm[str(k)] for k in keys]
  return keys


def public(b, keys):
  """The binning as the specification sees it."""
  p = dict(b)
  if b['scheme'] == 'exact':
    p['kind'] = 'code'
  return p


def execute(c):
  return [ex_mask(c) if c['op'] == 'mask' else ex_chunked(c)]


def ex_mask(c):
  rng = random.Random(c['seed'])
  b = c['binning']
  ev = dict(op='mask', binning=public(b, c['keys']))
  name = {'dt': 'valid_time', 'td': 'lead_time', 'secs': 'init_secs'}.get(b['kind'], 'thing')
  conc = concrete(b['kind'], c['keys'])
  sizes = list(c['sizes'])
  coords = {}
  orig = {}
  if c['shape'] == 'dim':
    kd = [name]
    coords[name] = conc
  elif c['shape'] == 'scalar':
    kd = []
    coords[name] = conc[0]
  else:
    kd = ['index'] if c['shape'] == 'one' else ['row', 'col']
    coords[name] = (tuple(kd), conc.reshape(sizes))
    if c['dimcoord']:
      for d, n in zip(kd, sizes):
        coords[d] = rng.sample(range(100), n)
  ex = ['level', 'time'][: c['extra']]
  for d in ex:
    coords[d] = np.arange(2)
  dims = kd + ex
  full = dict(zip(kd, sizes))
  full.update({d: 2 for d in ex})
  if c['shuffle']:
    rng.shuffle(dims)
  st = xr.DataArray(np.arange(int(np.prod([full[d] for d in dims])), dtype=float).reshape([full[d] for d in dims]), dims=dims, coords=coords)
  pos = {d: [str(v) for v in st[d].values] if d in st.coords else None for d in kd}
  ev['statdims'] = dims
  ev['key'] = dict(dims=kd, labels=[list(range(1, n + 1)) for n in sizes], data=abskeys(b, c['keys']))

  def run():
    bo = make_binning(b, name)
    before = st.copy(deep=True)
    if rng.random() < 0.3:
      bo.create_bin_mask(st)
    m = bo.create_bin_mask(st)
    labels, rd = [], []
    for d in m.dims:
      if d == bo.bin_dim_name:
        rd.append('BIN')
        labels.append(bin_labels(b, m[d].values, c['keys']) if d in m.coords else [-5])
      elif d in pos and pos[d] is not None and d in m.coords:
        rd.append(d)
        labels.append([pos[d].index(str(v)) + 1 if str(v) in pos[d] else -1 for v in m[d].values])
      else:
        rd.append(str(d))
        labels.append(list(range(1, m.sizes[d] + 1)))
    return dict(res=dict(dims=rd, labels=labels, data=[enc(float(v), 1) for v in m.values.ravel().tolist()]),
                dimname=bo.bin_dim_name == dim_name(b, name), unchanged=bool(st.identical(before)))
  return guarded(run, ev)


def ex_chunked(c):
  rng = random.Random(c['seed'])
  bs, ks = c['binnings'], c['keys']
  ev = dict(op='chunked', binnings=[public(b, k) for b, k in zip(bs, ks)], keys=[abskeys(b, k) for b, k in zip(bs, ks)], val=c['val'])
  lay = c['layout']
  dims = ['row', 'col'][: len(lay)]
  coords = {}
  names = []
  for i, (b, k) in enumerate(zip(bs, ks)):
    nm = f'c{i}'
    names.append(nm)
    coords[nm] = (dims, concrete(b['kind'], k).reshape(lay))
  st = xr.DataArray(np.array(c['val'], dtype=float).reshape(lay), dims=dims, coords=coords)
  chunks = {}
  for i, ch in enumerate(c['chunk']):
    chunks.setdefault(ch, []).append(i)
  order = list(chunks)
  rng.shuffle(order)

  def run():
    agg = aggregation.Aggregator(reduce_dims=dims, bin_by=[make_binning(b, n) for b, n in zip(bs, names)])
    states = []
    for ch in order:
      states.append(agg.aggregate_statistics({'S': {'v': st.isel(row=chunks[ch])}}))
    tot = states[0]
    for s in states[1:]:
      tot = tot + s
    out = {}
    for nm, a in (('sums', tot.sum_weighted_statistics['S']['v']), ('counts', tot.sum_weights['S']['v'])):
      dn = {dim_name(b, n): i for i, (b, n) in enumerate(zip(bs, names))}
      rd = [f'BIN{dn[d] + 1}' if d in dn else str(d) for d in a.dims]
      labels = [bin_labels(bs[dn[d]], a[d].values, ks[dn[d]]) if d in dn else list(range(a.sizes[d])) for d in a.dims]
      out[nm] = dict(dims=rd, labels=labels, data=[enc(float(v), 1) for v in a.values.ravel().tolist()])
    return out
  return guarded(run, ev)
