"""C12 driver: spatial binnings."""
import random

import numpy as np
import xarray as xr

from vlib import guarded, encl, enc, NAN
from weatherbenchX import binning

Q = 4  # quarter units


def cases(rng, tier, mc):
  out = []
  # Every pair of limits (from the specification) on every meridian, both
  # conventions, gridded and as points.
  lims = [(c['w'] * 180, c['e'] * 180) for c in mc]
  for k in range(0, len(lims), 24):
    part = lims[k:k + 24]
    regs = [dict(name=f'r{i}', land=f'r{i}_land', s=-180, n=180, w=w, e=e) for i, (w, e) in enumerate(part)]
    lons = [i * 180 for i in range(-8, 17)]
    out.append(dict(kind='regions', regions=regs, form='grid', lats=[-360, -180, 0, 180, 184], lons=[x for x in lons if -4 * 180 <= x < 4 * 180], land=False))
    out.append(dict(kind='regions', regions=regs, form='points', lats=[0] * len(lons), lons=lons, land=False))
  n = 500 if tier == 'quick' else 3000
  for _ in range(n):
    out.append(rand_case(rng))
  return out


def points(rng, form, conv, near=()):
  def lon():
    x = rng.choice([rng.randrange(0, 1440), rng.randrange(0, 1440, 180), rng.choice(near or [0]) + rng.choice([-1, 0, 0, 1])]) % 1440
    return x if conv == 360 else (x - 1440 if x >= 720 else x)
  lat = lambda: rng.choice([rng.randrange(-360, 361), rng.randrange(-360, 361, 90), max(-360, min(360, rng.choice(near or [0]) + rng.choice([-1, 0, 0, 1])))])
  if form == 'grid':
    lats = list({lat() for _ in range(rng.randint(2, 7))})
    lons = list({lon() for _ in range(rng.randint(2, 9))})
    o = rng.choice(['asc', 'desc', 'shuffle'])
    for z in (lats, lons):
      z.sort(reverse=o == 'desc')
      if o == 'shuffle':
        rng.shuffle(z)
    return lats, lons
  k = rng.randint(1, 14)
  return [lat() for _ in range(k)], [lon() for _ in range(k)]


def rand_case(rng):
  kind = rng.choice(['regions', 'regions', 'regions', 'latbins', 'lonbins', 'lonbins', 'coordbins', 'coordbins', 'landsea', 'mismatch'])
  form = rng.choice(['grid', 'points'])
  conv = rng.choice([360, 180])
  extra = rng.choice([[], ['time'], ['time', 'lead']])
  c = dict(kind=kind, form=form, extra=extra, shuffle=rng.random() < 0.5, seed=rng.randrange(10**9))
  if kind in ('regions', 'mismatch'):
    regs = []
    for i in range(rng.randint(1, 5)):
      s, n = sorted(rng.sample(range(-360, 361, rng.choice([1, 20, 90])), 2))
      if rng.random() < 0.03:
        s, n = n, s
      w, e = (rng.choice([rng.randrange(-720, 1441), rng.randrange(-720, 1441, 180)]) for _ in range(2))
      if rng.random() < 0.15:
        w, e = rng.choice([(0, 1440), (-720, 720), (0, 1436), (720, -720), (1440, 0)])
      regs.append(dict(name=f'reg{i}', land=f'reg{i}_land', s=s, n=n, w=w, e=e))
    near = [x for r in regs for x in (r['w'], r['e'])]
    lats, lons = points(rng, form, conv, near)
    lats = [rng.choice([x, x, rng.choice(regs)['n'], rng.choice(regs)['s']]) for x in lats]
    if form == 'grid':
      lats = list(dict.fromkeys(lats))
    c.update(regions=regs, lats=lats, lons=lons, land=kind == 'mismatch' or rng.random() < 0.5)
    if kind == 'mismatch':
      c['form'] = 'grid'
      c['lats'], c['lons'] = points(rng, 'grid', conv, near)
      c['change'] = rng.choice(['lat', 'lon', 'morelon', 'fewerlat'])
      for r in regs:
        r['s'], r['n'] = min(r['s'], r['n']), max(r['s'], r['n'])
    return c
  if kind == 'latbins':
    lo, hi = rng.choice([(-360, 360), (-360, 360), (-240, 240), (0, 360), (-80, 120), (-360, 0)])
    width = rng.choice([40, 80, 60, 120, 360, 100, 180, 10])
    c.update(lo=lo, hi=hi, width=width, default=(lo, hi) == (-360, 360) and rng.random() < 0.5)
    c['lats'], c['lons'] = points(rng, form, conv, [lo + k * width for k in range(-(-(hi - lo) // width) + 1)])
    return c
  if kind == 'lonbins':
    lo, hi = rng.choice([(0, 1440), (0, 1440), (-720, 720), (1200, 240), (600, 900), (-120, 120), (720, -480), (720, 720), (0, 0)])
    width = rng.choice([40, 120, 180, 360, 240, 720])
    span = (hi if hi > lo else hi + 1440) - lo
    nb = -(-span // width)
    if nb * width > 1440:  # bins would overlap themselves
      width = 180 if span % 180 == 0 else 120
      nb = -(-span // width)
    c.update(lo=lo, hi=hi, width=width, default=(lo, hi) == (0, 1440) and rng.random() < 0.5)
    c['lats'], c['lons'] = points(rng, form, conv, [lo + k * width for k in range(nb + 1)])
    return c
  if kind == 'coordbins':
    edges = sorted(rng.sample(range(-40, 60), rng.randint(2, 6)))
    n = rng.randint(1, 12)
    vals = [rng.choice([rng.randint(-60, 70), rng.choice(edges), rng.choice(edges)]) for _ in range(n)]
    if form == 'grid':
      vals = list(dict.fromkeys(vals))
      c['asdim'] = True
    elif rng.random() < 0.3:
      vals[rng.randrange(n)] = NAN
    c.update(edges=edges, vals=vals, glob=rng.random() < 0.5)
    return c
  c['form'] = 'grid'
  c['lats'], c['lons'] = points(rng, 'grid', conv)
  c.update(threshold=rng.choice([None, 0.5, 0.25, 1.0, 0.0]), glob=rng.random() < 0.5)
  return c


def f4(xs):
  return np.array([np.nan if x == NAN else x / Q for x in xs], dtype=float)


def arr(dims, coords, sizes, seed):
  r = np.random.RandomState(seed)
  return xr.DataArray(r.randint(0, 9, size=[sizes[d] for d in dims]).astype(float), dims=dims, coords=coords)


def stat(c):
  """The statistic handed to the binning, as the caller would have it."""
  r = random.Random(c.get('seed', 0))
  co, sizes = {}, dict(time=2, lead=2)
  for d in c.get('extra', []):
    co[d] = np.arange(2)
  if c['kind'] == 'coordbins':
    if c['form'] == 'grid':
      dims = ['x'] + list(c.get('extra', []))
      co['x'], sizes['x'] = f4(c['vals']), len(c['vals'])
    else:
      dims = ['index'] + list(c.get('extra', []))
      co['x'], sizes['index'] = ('index', f4(c['vals'])), len(c['vals'])
  elif c['form'] == 'grid':
    dims = ['latitude', 'longitude'] + list(c.get('extra', []))
    co['latitude'], co['longitude'] = f4(c['lats']), f4(c['lons'])
    sizes.update(latitude=len(c['lats']), longitude=len(c['lons']))
  else:
    dims = ['index'] + list(c.get('extra', []))
    co['latitude'], co['longitude'] = ('index', f4(c['lats'])), ('index', f4(c['lons']))
    sizes['index'] = len(c['lats'])
  if c.get('shuffle'):
    r.shuffle(dims)
  return arr(dims, co, sizes, c.get('seed', 0))


def lab(v, kind):
  v = np.asarray(v)
  if kind == 'str':
    return [str(x) for x in v]
  out = []
  for x in v.tolist():
    if isinstance(x, str):
      if x == 'global':
        out.append(777777)
        continue
      try:
        x = float(x)
      except ValueError:
        out.append(-777777)
        continue
    out.append(enc(x, Q))
  return out


def show(res, bindim, kind):
  dims, labels = [], []
  for d in res.dims:
    if d == bindim:
      dims.append('BIN')
      labels.append(lab(res[d].values, kind) if d in res.coords else [-5])
    elif d == 'index' or d not in res.coords:
      dims.append(str(d))
      labels.append(list(range(1, res.sizes[d] + 1)))
    elif d in ('latitude', 'longitude', 'x'):
      dims.append(d)
      labels.append(lab(res[d].values, 'num'))
    else:
      dims.append(str(d))
      labels.append([int(x) for x in res[d].values])
  return dict(dims=dims, labels=labels, data=[enc(float(v), 1) for v in res.values.ravel().tolist()])


def execute(c):
  ev = dict(op=c['kind'], form=c['form'])
  st = stat(c)
  ev['statdims'] = [str(d) for d in st.dims]
  ev['labels'] = {}
  if c['kind'] == 'coordbins':
    ev['val'] = c['vals']
    ev['need'] = ['BIN'] if c['form'] == 'grid' else ['index']
    # binning along a dimension replaces that dimension by the bins: judged on
    # a copy of the coordinate along another dimension
  else:
    ev['lat'], ev['lon'] = c['lats'], c['lons']
    ev['labels'] = dict(latitude=c['lats'], longitude=c['lons'])
    ev['need'] = ['latitude', 'longitude']
  if c['form'] == 'points':
    ev['labels'] = dict(index=list(range(1, st.sizes['index'] + 1)))
  rng = random.Random(c.get('seed', 1))
  k = c['kind']
  kind = 'num'
  if k in ('regions', 'mismatch'):
    kind = 'str'
    regs = {r['name']: ((r['s'] / Q, r['n'] / Q), (r['w'] / Q, r['e'] / Q)) for r in c['regions']}
    ev['regions'] = c['regions']
    ev['land'] = c['land']
    mask = None
    if c['land']:
      if c['form'] == 'grid':
        la, lo = list(c['lats']), list(c['lons'])
        if rng.random() < 0.4:
          rng.shuffle(la)
        if k == 'mismatch':
          if c['change'] == 'lat':
            la = [x + 2 for x in la]
          elif c['change'] == 'lon':
            lo = [x + 2 for x in lo]
          elif c['change'] == 'morelon':
            lo = lo + [1438]if 1438 not in lo else lo[:-1]
          else:
            la = la[:-1]
        mdims = ['latitude', 'longitude'] if rng.random() < 0.7 else ['longitude', 'latitude']
        sh = [len(la) if d == 'latitude' else len(lo) for d in mdims]
        m = np.random.RandomState(c.get('seed', 1)).rand(*sh) < 0.5
        mask = xr.DataArray(m if rng.random() < 0.5 else m.astype(int), dims=mdims, coords=dict(latitude=f4(la), longitude=f4(lo)))
        ev['landmask'] = dict(dims=mdims, labels=[la if d == 'latitude' else lo for d in mdims], data=[int(v) for v in m.ravel()])
      else:
        m = np.random.RandomState(c.get('seed', 1)).rand(len(c['lats'])) < 0.5
        mask = xr.DataArray(m, dims=['index'], coords=dict(latitude=('index', f4(c['lats'])), longitude=('index', f4(c['lons']))))
        ev['landmask'] = dict(dims=['index'], labels=[ev['labels']['index']], data=[int(v) for v in m])
    mk = lambda: binning.Regions(regs, land_sea_mask=mask)
    bindim = 'region'
  elif k == 'latbins':
    ev.update(lo=c['lo'], hi=c['hi'], width=c['width'])
    kw = {} if c['default'] else dict(lat_range=(c['lo'] / Q, c['hi'] / Q))
    mk = lambda: binning.LatitudeBins(c['width'] / Q, **kw)
    bindim = 'latitude_bins'
  elif k == 'lonbins':
    ev.update(lo=c['lo'], hi=c['hi'], width=c['width'])
    kw = {} if c['default'] else dict(lon_range=(c['lo'] / Q, c['hi'] / Q))
    mk = lambda: binning.LongitudeBins(c['width'] / Q, **kw)
    bindim = 'longitude_bins'
  elif k == 'coordbins':
    ev.update(edges=c['edges'])
    ev['global'] = c['glob']
    mk = lambda: binning.ByCoordBins('x', f4(c['edges']), add_global_bin=c['glob'])
    bindim = 'x'
    if c['form'] == 'grid':
      # As a dimension: reduced away and replaced by the bins, so keep the
      # points under another name.
      st = st.rename(x='index').assign_coords(index=np.arange(1, st.sizes['x'] + 1)).assign_coords(x=('index', f4(c['vals'])))
      ev['statdims'] = [str(d) for d in st.dims]
      ev['form'] = 'points'
      ev['labels'] = dict(index=list(range(1, st.sizes['index'] + 1)))
  else:
    kind = 'str'
    thr = 0.5 if c['threshold'] is None else c['threshold']
    mdims = ['latitude', 'longitude'] if rng.random() < 0.6 else ['longitude', 'latitude']
    sh = [len(c['lats']) if d == 'latitude' else len(c['lons']) for d in mdims]
    fr = np.random.RandomState(c['seed']).randint(0, 9, size=sh) / 8
    frac = xr.DataArray(fr, dims=mdims, coords=dict(latitude=f4(c['lats']), longitude=f4(c['lons'])))
    ev['fraction'] = dict(dims=mdims, labels=[c['lats'] if d == 'latitude' else c['lons'] for d in mdims], data=[int(v * 8) for v in fr.ravel()])
    ev['threshold'] = int(thr * 8)
    ev['global'] = c['glob']
    kw = {} if c['threshold'] is None else dict(land_sea_threshold=thr)
    mk = lambda: binning.LandSea(frac, include_global_mask=c['glob'], **kw)
    bindim = 'land_sea'

  def run():
    b = mk()
    before = st.copy(deep=True)
    b.create_bin_mask(st) if rng.random() < 0.3 else None  # repeated use
    m = b.create_bin_mask(st)
    return dict(res=show(m, b.bin_dim_name, kind), dimname=b.bin_dim_name == bindim, unchanged=bool(st.identical(before)))
  return [guarded(run, ev)]
