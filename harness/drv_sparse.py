"""C09 driver: sparse observations from partitioned Parquet files."""
import os
import random
import shutil
import tempfile

import numpy as np
import pandas as pd

from vlib import guarded, enc, NAN
from drv_loader import dt, td, undt, untd, mins, EPOCH, H, D
from weatherbenchX.data_loaders import sparse_parquet as sp

BASES = [mins(s) for s in ['2020-01-01', '2020-02-29T12:00', '2020-12-31T18:00', '2021-02-28T23:00', '2020-03-31', '2020-06-15T06:00', '2019-12-31T23:00']]
UNIT = dict(hour='h', day='D', month='M')
METAR_RAW = dict(x='temperature', y='windSpeed')
METAR_OUT = dict(x='2m_temperature', y='10m_wind_speed')


def cases(rng, tier, mc):
  out = []
  pick = mc if tier != 'quick' else rng.sample(mc, min(len(mc), 60))
  for c in pick:
    part = rng.choice(['day', 'hour', 'day', 'month'])
    u = {'day': 8 * H, 'hour': 20, 'month': 10 * D}[part]
    base = rng.choice(BASES)
    base -= base % D
    rows = [dict(t=base + t * u, nominal=base + n * u, other=base + n * u, st='S' + str(i), vals=[i + 1, NAN if rng.random() < 0.2 else i + 10], qc=['S', 'S'], lon=i, elev=5)
            for i, (t, n) in enumerate(zip(c['t'], c['nominal']))]
    out.append(dict(part=part, rows=rows, ftol=u, metar=False, mode='slice', reqs=[dict(inits=[base + 2 * k * u for k in range(4)], leads=[0, 2 * u])] + [dict(inits=[base], leads=[2 * u, 7 * u])],
                    hastol=False, tol=[0, 0], incl=False, dedup=False, pick='none', split=rng.random() < 0.5, dropna=rng.random() < 0.5, nanmask=False, timedim='timeObs', seed=rng.randrange(10**9)))
  for _ in range(250 if tier == 'quick' else 1500):
    out.append(rand_case(rng))
  return out


def rand_case(rng):
  part = rng.choice(['hour', 'day', 'day', 'month'])
  base = rng.choice(BASES)
  metar = rng.random() < 0.35
  ftol = rng.choice([H, H, 30, 0, 2 * H])
  timedim = rng.choice(['timeObs', 'timeNominal'])
  step = rng.choice([H, 6 * H, 12 * H])
  mode = rng.choice(['exact', 'exact', 'exact', 'slice', 'slice', 'none'])
  hastol = mode != 'slice' and rng.random() < 0.6 or rng.random() < 0.02
  tol = rng.choice([[-30, 30], [-20, 40], [-H, 0], [0, 30], [-10, 10], [-30, 30], [-30, 30], [-36 * H, 36 * H], [-30 * H, 26 * H]])
  dedup = mode != 'slice' and rng.random() < 0.5 or rng.random() < 0.02
  pick = rng.choice(['none', 'time', 'other']) if dedup else 'none'
  reqs, marks = [], []
  for _ in range(rng.randint(1, 2)):
    inits = sorted(base + k * step for k in rng.sample(range(-1, 4), rng.randint(1, 3)))
    if rng.random() < 0.2:
      rng.shuffle(inits)
    if mode == 'slice':
      a, b = sorted(rng.sample([0, 0, 30, H, 6 * H, 12 * H, -30, -H, D, 3 * H], 2))
      if a == b:
        b += H
      leads = [a, b]
      marks += [i + x for i in inits for x in leads]
    else:
      leads = [] if mode == 'none' else rng.sample([0, H, 6 * H, 12 * H, D, 30], rng.randint(1, 3))
      marks += [i + x + d for i in inits for x in (leads or [0]) for d in ([0] + tol if hastol else [0])]
    reqs.append(dict(inits=inits, leads=leads))
  stations = ['KSFO', 'EGLL', 'RJTT', 'a'][: rng.randint(1, 4)]
  rows = []
  for _ in range(rng.randint(3, 28)):
    m = rng.choice(marks)
    if max(tol) > D and hastol and rng.random() < 0.5:
      m += rng.choice([D, -D, D + 15, 15 - D])
    t = m + rng.choice([0, 0, 0, 0, 1, -1, 10, -10, 30, -30, H, -H, rng.randint(-8 * H, 8 * H), 5, -5])
    o = t + rng.choice([0, rng.randint(-20, 20)])
    skew = rng.choice([0, 0, ftol, -ftol, rng.randint(-ftol, ftol)])
    nominal = t if timedim == 'timeNominal' else t + skew
    rows.append(dict(t=t, nominal=nominal, other=o, st=rng.choice(stations), vals=[NAN if rng.random() < 0.2 else rng.randint(-99, 99) for _ in 'xy'],
                     qc=[rng.choice(['S', 'V', 'S', 'G', 'Z', 'B', 'X', 'Q', 'k', 'K', 'q', '']) for _ in 'xy'],
                     lon=rng.choice([rng.randint(-180, 360), 0, 360, -180, 180]), elev=rng.choice([3, -5, 9998, 9999, 10000, NAN, 100])))
  untyped = rng.random() < 0.3
  if untyped:  # every part of the request has an observation
    for r in reqs:
      for t in sorted({i + x for i in r['inits'] for x in (r['leads'][:1] if mode == 'slice' else r['leads'] or [0])}):
        if hastol and mode != 'slice':
          t += tol[0]
        rows.append(dict(t=t, nominal=t, other=t, st=f'sure{len(rows)}', vals=[1, 2], qc=['S', 'S'], lon=1, elev=2))
  return dict(untyped=untyped, part=part, rows=rows, ftol=ftol, metar=metar, mode=mode, reqs=reqs, hastol=hastol, tol=tol, incl=rng.random() < 0.4, dedup=dedup, pick=pick,
              split=rng.random() < 0.5, dropna=rng.random() < 0.5, nanmask=rng.random() < 0.3, timedim=timedim, seed=rng.randrange(10**9))


def partname(root, t, unit):
  v = np.datetime64(t, unit).item()
  s = f'year={v.year}/month={v.month}/'
  n = f'{v.year}-{v.month:02d}'
  if unit in 'Dh':
    s += f'day={v.day}/'
    n += f'-{v.day:02d}'
  if unit == 'h':
    s += f'hour={v.hour}/'
    n += f'T{v.hour:02d}'
  return os.path.join(root, s, n + '.parquet')


def fl(x):
  return np.nan if x == NAN else float(x)


def execute(c):
  rng = random.Random(c['seed'])
  root = tempfile.mkdtemp(prefix='drvsparse_')
  try:
    return run_case(c, rng, root)
  finally:
    shutil.rmtree(root)


def run_case(c, rng, root):
  unit = UNIT[c['part']]
  metar = c['metar']
  other = 'timeReport'
  tdim = c['timedim']
  raw = METAR_RAW if metar else dict(x='raw_x', y='raw_y') if rng.random() < 0.5 else dict(x='x', y='y')
  outn = METAR_OUT if metar else dict(x='x', y='y')
  stcol = 'stationName'
  rows = c['rows']
  spec_rows = []
  # Rows in the order in which they are stored.
  order = sorted(range(len(rows)), key=lambda k: rows[k]['nominal']) if rng.random() < 0.5 else list(range(len(rows)))
  rows = [rows[k] for k in order]
  def frame(idx):
    d = {
        tdim: dt([rows[k]['t'] for k in idx]),
        'timeNominal' if tdim == 'timeObs' else 'timeObs': dt([rows[k]['nominal'] for k in idx]),
        other: dt([rows[k]['other'] for k in idx]),
        stcol: np.array([rows[k]['st'] for k in idx], dtype=object),
        'latitude': np.array([float(k + 1) for k in idx]),   # row identity
        'longitude': np.array([float(rows[k]['lon']) for k in idx]),
        'elevation': np.array([fl(rows[k]['elev']) for k in idx]),
    }
    for j, v in enumerate('xy'):
      d[raw[v]] = np.array([fl(rows[k]['vals'][j]) for k in idx], dtype='float32' if rng.random() < 0.5 else 'float64')
      d[raw[v] + 'DD'] = np.array([rows[k]['qc'][j] for k in idx], dtype=object)
    return pd.DataFrame(d)
  # Files: every partition within reach of the requests, and more.
  far = max(abs(x) for x in c['tol'])
  ts = [t + x for r in c['reqs'] for t in r['inits'] for x in (-far, far)] + [i + x + y for y in (-far, far) for r in c['reqs'] for i in r['inits'] for x in r['leads']] + [r['nominal'] for r in rows]
  lo, hi = dt([min(ts) - 12 * H])[0].astype(f'datetime64[{unit}]'), dt([max(ts) + 12 * H])[0].astype(f'datetime64[{unit}]')
  parts = list(np.arange(lo - 1, hi + 2, np.timedelta64(1, unit)))
  where = {}
  for k, r in enumerate(rows):
    where.setdefault(np.datetime64(dt([r['nominal']])[0], unit), []).append(k)
  for p in parts:
    fn = partname(root, p, unit)
    os.makedirs(os.path.dirname(fn))if not os.path.isdir(os.path.dirname(fn)) else None
    df = frame(where.get(p, []))
    if not where.get(p) and c.get('untyped') and rng.random() < 0.5:
      df = df.astype(object)  # an empty file without types
    df.to_parquet(fn)
  opts = dict(split_variables=c['split'], dropna=c['dropna'], include_slice_end_time=c['incl'], remove_duplicates=c['dedup'], add_nan_mask=c['nanmask'],
              file_tolerance=np.timedelta64(c['ftol'], 'm'))
  if c['hastol']:
    a, b = c['tol']
    opts['tolerance'] = np.timedelta64(b, 'm') if a == -b and rng.random() < 0.7 and not (metar and False) else (np.timedelta64(a, 'm'), np.timedelta64(b, 'm'))
  if c['pick'] != 'none':
    opts['pick_closest_duplicate_by'] = tdim if c['pick'] == 'time' else other
  scale = rng.choice([1, 1, 2])
  if scale != 1:
    def pre(df):
      df = df.copy()
      for v in 'xy':
        df[raw[v]] = df[raw[v]] * scale
      return df
    opts['preprocessing_fn'] = pre
  vs = rng.choice([['x'], ['y'], ['x', 'y'], ['y', 'x']])
  if metar:
    ldr = sp.METARFromParquet(path=root, variables=[outn[v] for v in vs], time_dim=tdim, partitioned_by=c['part'], **opts)
  else:
    if raw['x'] != 'x':
      opts['rename_variables'] = {raw[v]: v for v in 'xy'}
    ldr = sp.SparseObservationsFromParquet(path=root, variables=list(vs), time_dim=tdim, partitioned_by=c['part'], observation_dim=stcol,
                                           coordinate_variables=[stcol, 'latitude', 'longitude', 'elevation'], **opts)
  num = dict(x=1, y=2)
  base = dict(op='load', rows=[dict(t=r['t'], other=r['other'], st=r['st'], vals=r['vals'], qc=r['qc'], lon=r['lon'], elev=r['elev']) for r in rows],
              mode=c['mode'], hastol=c['hastol'], tol=c['tol'], incl=c['incl'], dedup=c['dedup'], pick=c['pick'], split=c['split'], dropna=c['dropna'],
              nanmask=c['nanmask'], metar=metar, scale=scale, vars=[num[v] for v in vs])
  evs = []
  back = {outn[v]: num[v] for v in 'xy'}
  for r in c['reqs']:
    ev = dict(base, inits=r['inits'], leads=r['leads'])
    leads = None if c['mode'] == 'none' else slice(*td(r['leads'])) if c['mode'] == 'slice' else td(r['leads'])

    def run():
      ch = ldr.load_chunk(dt(r['inits']), leads)
      outs = []
      for n in list(ch):
        a = ch[n]
        co = {k: a.coords[k].values for k in a.coords}
        m = len(a)
        rr = []
        ini = undt(co['init_time']) if 'init_time' in co else [0] * m
        led = untd(co['lead_time']) if 'lead_time' in co else [0] * m
        vt = undt(co['valid_time'])
        mask = co.get('mask', np.full(m, 7))
        for i in range(m):
          rr.append(dict(rid=int(co['latitude'][i]), init=ini[i], lead=led[i], vt=vt[i], st=str(co[stcol][i]), lon=enc(float(co['longitude'][i])),
                         elev=enc(float(co['elevation'][i])), val=enc(float(a.values[i])), mask=int(mask[i]), asked=0))
        outs.append(dict(var=back.get(str(n), 99), rows=rr))
      return dict(out=outs)
    evs.append(guarded(run, ev))
  return evs
