"""C18 driver: interpolation and regridding.

Positions are integer units: latitude, longitude quarter degrees, time and init
hours, level plain.
"""
import random

import numpy as np
import xarray as xr

from vlib import guarded, encr, enc, NAN, BADNUM
from weatherbenchX import interpolations as I

T0 = np.datetime64('2020-02-28', 'ns')
NAMES = dict(lat='latitude', lon='longitude', time='time', level='level', pt='station')
BACK = {v: k for k, v in NAMES.items()}


def val(d, pos):
  if d in ('lat', 'lon'):
    return np.array(pos, dtype=float) / 4
  if d == 'time':
    return T0 + np.array(pos, dtype='timedelta64[h]').astype('timedelta64[ns]')
  return np.array(pos, dtype='int64')


def pos(d, values):
  out = []
  for v in np.asarray(values).ravel():
    if d in ('lat', 'lon'):
      out.append(enc(v, 4))
    elif d == 'time':
      out.append(int((np.datetime64(v, 'ns') - T0) / np.timedelta64(1, 'h')))
    else:
      out.append(int(v))
  return out


def axis(rng, d, n=None):
  n = n or rng.choice([1, 2, 2, 3, 3, 4, 5])
  if d == 'lat':
    a = [rng.choice([-360, -80, 0, 40, 200])]
    while len(a) < n:
      a.append(a[-1] + rng.choice([4, 8, 16, 20, 40, 10]))
    a = [x for x in a if x <= 360]
  elif d == 'lon':
    a = sorted(rng.sample([x * rng.choice([4, 20, 40, 180]) for x in range(8)], 1)) if n == 1 else None
    if a is None:
      s = rng.choice([0, 0, -720, 40])
      k = rng.random()
      if k < .4:   # whole circle
        a = [s + i * (1440 // n) for i in range(n)] if 1440 % n == 0 else [s + i * 288 for i in range(n)]
      else:
        a = [s]
        while len(a) < n:
          a.append(a[-1] + rng.choice([4, 8, 20, 40, 120]))
  elif d == 'time':
    a = [rng.choice([0, 6])]
    while len(a) < n:
      a.append(a[-1] + rng.choice([6, 6, 12, 3]))
  else:
    a = sorted(rng.sample([10, 20, 50, 100, 200, 250, 300], n))
  o = rng.random()
  if o < .35:
    a = a[::-1]
  elif o < .45:
    rng.shuffle(a)
  return a


def targets(rng, d, src, n, wrap, far=2, inside=False):
  lo, hi = min(src), max(src)
  gap = max([b - a for a, b in zip(sorted(src), sorted(src)[1:])] or [8])
  out = []
  for _ in range(n):
    k = rng.random()
    if k < .35 or d in ('level',):
      x = rng.choice(src)
    elif k < .7 or inside:
      x = rng.randint(lo, hi)
    elif d == 'lon' and wrap:
      x = rng.choice([rng.randint(-720, 1440), rng.choice(src) + rng.choice([-1440, 1440]), rng.randint(hi, lo + 1440)])
    elif k < .85:
      x = rng.choice([lo - 1, hi + 1, lo, hi])
    else:
      x = rng.choice([lo - rng.randint(1, far * min(gap, 40)), hi + rng.randint(1, far * min(gap, 40))])
    if d == 'lat':
      x = x if not (x < -360 or x > 360) else rng.choice(src)
    out.append(x)
  return out


def cases(rng, tier, mc):
  out = []
  for i, c in enumerate(mc):
    ax = [x * 180 for x in c['axis']]
    for method in ('linear', 'nearest'):
      t = [x * 90 for x in range(-20, 37)]
      r = random.Random(i)
      o = list(ax)
      r.shuffle(o)
      o = r.choice([o, sorted(ax), sorted(ax)[::-1]])
      src = arr(r, dict(lon=o), ['lon'])
      form = r.choice(['fixed', 'ref'])
      out.append(dict(kind='interp', src=src, form=form, steps=[step(form, ['lon'], dict(lon=dict(dim='lon', pos=t)), method, wrap=True)], seed=i))
      if method == 'linear':
        src = arr(r, dict(lon=o, lat=[0, 40]), ['lat', 'lon'])
        st = step(form, ['lat', 'lon'], dict(lat=dict(dim='pt', pos=[r.choice([0, 10, 20, 40]) for _ in t]), lon=dict(dim='pt', pos=t)), method, wrap=True)
        out.append(dict(kind='interp', src=src, form=form, steps=[st], seed=i + 1))
      else:
        st = step(form, ['lon'], dict(lon=dict(dim='lon', pos=t)), 'linear', wrap=False, extrap=i % 2 == 0)
        out.append(dict(kind='interp', src=src, form=form, steps=[st], seed=i + 2))
  n = 700 if tier == 'quick' else 8000
  for _ in range(n):
    out.append(rand_case(rng))
  for _ in range(n // 6):
    out.append(altitude_case(rng))
  return out


def step(form, ds, tgt, method, wrap=False, extrap=True, clip=(), **k):
  return dict(kind=form, ds=ds, tgt=tgt, method=method, wrap=wrap, extrap=extrap, clip=list(clip), **k)


def arr(rng, axes, dims, nanp=0.0, hi=20):
  n = 1
  for d in dims:
    n *= len(axes[d])
  return dict(dims=dims, labels=[axes[d] for d in dims], data=[NAN if rng.random() < nanp else rng.randint(0, hi) for _ in range(n)])


def rand_case(rng):
  r = rng.random()
  if r < .2:
    return altitude_case(rng)
  extra = rng.choice([[], ['time'], ['level'], ['time', 'level']])
  axes = {d: axis(rng, d) for d in ['lat', 'lon'] + extra}
  if rng.random() < .25 and 'time' in axes:
    axes['time'] = axes['time'][:1]
  dims = list(axes)
  rng.shuffle(dims)
  src = arr(rng, axes, dims, nanp=rng.choice([0, 0, .1, .3]))
  c = dict(kind='interp', src=src, seed=rng.randrange(10**9), f4=rng.random() < .25)
  if r < .36:
    k = rng.choice(['crop', 'sub'])
    c['steps'] = [crop(rng, axes) if k == 'crop' else sub(rng, dims)]
    return c
  steps = []
  if r > .8:  # a sequence
    for _ in range(rng.randint(1, 2)):
      if rng.random() < .5:
        st = sub(rng, dims, bad=False)
        steps.append(st)
        for d in st['dims']:
          if d in axes:
            axes[d] = axes[d][::st['stride']]
      elif rng.random() < .5:
        la, lo = sorted(rng.sample(axes['lat'], 2)) if len(axes['lat']) > 1 else (axes['lat'] * 2), sorted(rng.sample(axes['lon'], 2)) if len(axes['lon']) > 1 else axes['lon'] * 2
        steps.append(dict(kind='crop', s=la[0], n=la[1], w=lo[0] - 1, e=lo[1] + 1))
        axes['lat'] = sorted(x for x in axes['lat'] if la[0] <= x <= la[1])
        axes['lon'] = sorted(x for x in axes['lon'] if lo[0] <= x <= lo[1])
      else:
        d = rng.choice(['lat', 'lon'])
        t = list(dict.fromkeys(x + rng.choice([0, 1, -1]) for x in axes[d] if rng.random() < .8)) or [axes[d][0]]
        if d == 'lat':
          t = list(dict.fromkeys(min(360, max(-360, x)) for x in t))
        steps.append(step('fixed', [d], {d: dict(dim=d, pos=t)}, 'nearest'))
        axes[d] = t
    if rng.random() < .3:
      steps.append(crop_in(rng, axes) if rng.random() < .3 else sub(rng, list(axes), bad=False))
      c['steps'] = steps
      return c
  steps.append(final_step(rng, axes))
  c['steps'] = steps
  return c


def sub(rng, dims, bad=True):
  ds = [d for d in ['lat', 'lon', 'time', 'level'] if rng.random() < .5] or ['lat']
  return dict(kind='sub', dims=ds, stride=rng.choice([1, 2, 2, 3, 10] + ([0, -1] if bad else [])))


def crop(rng, axes):
  la, lo = axes['lat'], axes['lon']
  f = lambda xs: rng.choice([rng.choice(xs), rng.choice(xs) + rng.choice([-1, 1]), min(xs) - 5, max(xs) + 5, rng.randint(min(xs), max(xs))])
  s, n, w, e = f(la), f(la), f(lo), f(lo)
  if rng.random() < .95:
    s, n, w, e = min(s, n), max(s, n), min(w, e), max(w, e)
  return dict(kind='crop', s=s, n=n, w=w, e=e)


def crop_in(rng, axes):
  return dict(kind='crop', s=min(axes['lat']), n=max(axes['lat']), w=min(axes['lon']) - 1, e=max(axes['lon']) + 1)


def final_step(rng, axes):
  wrap = rng.random() < .5
  method = rng.choice(['linear', 'linear', 'nearest'])
  form = rng.choice(['fixed', 'ref', 'ref'])
  extrap = rng.random() < .6
  shape = rng.choice(['grid', 'points', 'points', 'mixed'])
  if shape == 'mixed':
    ds = [rng.choice(['lat', 'lon'])]
  else:
    ds = ['lat', 'lon']
  clip = []
  tgt = {}
  n = rng.randint(1, 8)
  for d in ds:
    k = rng.randint(1, 5) if shape != 'points' else n
    t = targets(rng, d, axes[d], k, wrap)
    if shape == 'points':
      tgt[d] = dict(dim='pt', pos=t)
    else:
      t = list(dict.fromkeys(t))
      if rng.random() < .7:
        t.sort(reverse=rng.random() < .4)
      tgt[d] = dict(dim=d, pos=t)
  infer = form == 'ref' and rng.random() < .6
  # other axes: interpolated as well
  for d in ('time', 'level'):
    if d in axes and rng.random() < .4:
      src = axes[d]
      small = len(src) == 1
      if shape == 'points' and form == 'ref' and rng.random() < .5:
        t = [rng.choice(src) if small or d == 'level' else targets(rng, d, src, 1, False, inside=True)[0] for _ in range(n)]
        tgt[d] = dict(dim='pt', pos=t)
      else:
        t = list(src) if small else list(dict.fromkeys(targets(rng, d, src, rng.randint(1, 3), False, inside=True)))
        if rng.random() < .3:
          t = list(src)
        tgt[d] = dict(dim=d, pos=t)
      ds = ds + [d]
  if shape != 'points' and form == 'ref' and not wrap and rng.random() < .25:
    clip = [d for d in ds if d in ('lat', 'lon') and rng.random() < .7]
  st = step(form, ds, tgt, method, wrap, extrap, clip, infer=infer)
  return st


def altitude_case(rng):
  axes = dict(lat=[0, 4, 8][:rng.randint(2, 3)], lon=[0, 4, 8][:rng.randint(2, 3)])
  if rng.random() < .4:
    axes['lat'] = axes['lat'][::-1]
  dims = ['lat', 'lon']
  if rng.random() < .5:
    axes['time'] = [0, 6]
    dims = ['time', 'lat', 'lon']
  rng.random() < .4 and rng.shuffle(dims)
  zd = ['lat', 'lon'] if rng.random() < .7 else ['lon', 'lat']
  n = rng.randint(3, 12)
  mk = lambda d: [rng.choice(axes[d] + [rng.randint(0, max(axes[d]))]) for _ in range(n)]
  method = rng.choice(['linear', 'nearest'])
  tgt = {d: dict(dim='pt', pos=mk(d)) for d in ('lat', 'lon')}
  if method == 'nearest':
    for d in tgt:
      tgt[d]['pos'] = [p if p % 4 != 2 else p - 1 for p in tgt[d]['pos']]
  st = step('ref', ['lat', 'lon'], tgt, method, infer=True)
  return dict(kind='altitude', src=arr(rng, axes, dims), elevation=arr(rng, axes, zd, hi=rng.choice([3, 20])), steps=[st],
              station=[rng.choice([rng.randint(0, 25), rng.randint(9, 16), rng.randint(0, 3)]) for _ in range(n)], maxdiff=rng.choice([15, 15, 15, 5, 30]),
              default=rng.random() < .5, var=rng.choice(['2m_temperature', '10m_wind_speed', 'geopotential']), seed=rng.randrange(10**9))


def build(a, f4=False, name=None):
  x = np.array([np.nan if v == NAN else v for v in a['data']], dtype='float32' if f4 else 'float64').reshape([len(s) for s in a['labels']])
  return xr.DataArray(x, dims=[NAMES[d] for d in a['dims']], coords={NAMES[d]: val(d, s) for d, s in zip(a['dims'], a['labels'])}, name=name)


def show(da, scale):
  labels = []
  for d in da.dims:
    k = BACK.get(d, str(d))
    labels.append(pos(k, da[d].values) if k != 'pt' and d in da.coords else list(range(1, da.sizes[d] + 1)))
  return dict(dims=[BACK.get(d, str(d)) for d in da.dims], labels=labels, data=[encr(v, scale) for v in np.asarray(da.values, float).ravel()])


def reference(st, src, r, dtype=float):
  dims, sizes, coords = [], {}, {}
  for d in st['ds']:
    t = st['tgt'][d]
    od = NAMES[t['dim']]
    if od not in dims:
      dims.append(od)
    sizes[od] = len(t['pos'])
    coords[NAMES[d]] = (od, val(d, t['pos']))
  r.shuffle(dims)
  if 'station' in dims and r.random() < .5:
    coords['station'] = ('station', np.arange(sizes['station']) + 100) if r.random() < .5 else ('station', [f's{i}' for i in range(sizes['station'])])
  if r.random() < .3 and not st['clip']:   # dimension of its own, no concern of the source
    dims.append('member')
    sizes['member'] = 2
  return xr.DataArray(np.full([sizes[d] for d in dims], np.nan if r.random() < .3 else 1.0), dims=dims, coords=coords)


def make(st, r):
  k = st['kind']
  if k == 'sub':
    return I.Subsample(dims=[NAMES[d] for d in st['dims']], stride=st['stride']), None
  if k == 'crop':
    return I.CropToBox(st['s'] / 4, st['n'] / 4, st['w'] / 4, st['e'] / 4), None
  kw = {}
  if st['wrap'] or r.random() < .3:
    kw['wrap_longitude'] = st['wrap']
  if not st['extrap'] or r.random() < .3:
    kw['extrapolate_out_of_bounds'] = st['extrap']
  if k == 'fixed':
    coords = {}
    for d in st['ds']:
      t = st['tgt'][d]
      v = val(d, t['pos'])
      coords[NAMES[d]] = xr.DataArray(v, dims=['station']) if t['dim'] == 'pt' else (v if r.random() < .6 else xr.DataArray(v, dims=[NAMES[d]], coords={NAMES[d]: v}))
    return I.InterpolateToFixedCoords(st['method'], coords, **kw), None
  if not st.get('infer'):
    kw['dims'] = [NAMES[d] for d in st['ds']]
  if st['clip']:
    kw['clip_reference_coords'] = [NAMES[d] for d in st['clip']]
  return I.InterpolateToReferenceCoords(st['method'], **kw), 'ref'


def scale_of(c):
  b = 25
  for st in c['steps']:
    if st['kind'] in ('sub', 'crop'):
      continue
    for d in st['ds']:
      s = st['tgt'][d]['pos'] + [x for dd, l in zip(c['src']['dims'], c['src']['labels']) if dd == d for x in l]
      if st['method'] == 'linear':
        if d == 'lon' and st['wrap']:
          b *= 1440
        else:
          b *= 2 * max(1, max(s) - min(s))
  return max(1, min(1024, 1500000000 // b))


def execute(c):
  r = random.Random(c['seed'])
  scale = 200 if c['kind'] == 'altitude' else scale_of(c)
  ev = dict(op=c['kind'], src=c['src'], steps=c['steps'], scale=scale)
  if c['kind'] == 'altitude':
    st = c['steps'][0]
    ev.update(elevation=c['elevation'], station=c['station'], maxdiff=c['maxdiff'] if not c['default'] else 15, var=c['var'])

    def run():
      src = build(c['src'], name=c['var'])
      z = build(c['elevation']) * 100.0
      ref = xr.DataArray(np.ones(len(c['station'])), dims=['station'], coords=dict(
          latitude=('station', val('lat', st['tgt']['lat']['pos'])), longitude=('station', val('lon', st['tgt']['lon']['pos'])),
          elevation=('station', np.array(c['station']) * 100.0)))
      kw = {} if c['default'] else dict(max_alititude_diff_in_m=c['maxdiff'] * 100)
      f = I.GridToSparseWithAltitudeAdjustment(st['method'], z, **kw)
      res = f.interpolate({c['var']: src}, {c['var']: ref})[c['var']]
      return dict(res=show(res, scale))
    return [guarded(run, ev)]

  def run():
    src = build(c['src'], c.get('f4'))
    before = src.copy(deep=True)
    made = [make(st, r) for st in c['steps']]
    last = c['steps'][-1]
    ref = reference(last, src, r) if last['kind'] == 'ref' else None
    if ref is None and r.random() < .3:
      ref = src  # ignored
    f = made[0][0] if len(made) == 1 else I.MultipleInterpolation([m[0] for m in made])
    if r.random() < .5:
      res = f.interpolate_data_array(src, ref)
    else:
      # several variables, each with its own reference
      other = src + 100
      ds = {'b': other, 'a': src}
      res = f.interpolate(ds, None if ref is None else {'a': ref, 'b': ref.isel({d: slice(0, 1) for d in ref.dims})})['a']
    coords = {}
    if last['kind'] not in ('sub', 'crop'):
      for d in last['ds']:
        if NAMES[d] in res.coords:
          coords[d] = pos(d, res[NAMES[d]].values)
    return dict(res=show(res, scale), coords=coords, unchanged=bool(src.identical(before)))
  return [guarded(run, ev)]
