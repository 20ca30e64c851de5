"""C07 driver: gridded loaders."""
import os
import random
import shutil
import tempfile

import numpy as np
import xarray as xr

from vlib import guarded, enc, NAN
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import xarray_loaders as xl

EPOCH = np.datetime64('1970-01-01T00:00', 'm')
H, D = 60, 1440


def mins(s):
  return int((np.datetime64(s, 'm') - EPOCH).astype(int))

BASES = [mins(s) for s in ['2019-12-31', '2020-02-28', '2020-02-29T12:00', '2020-12-31', '2021-12-30T18:00', '2023-02-27', '1999-12-30', '2024-02-28T06:00', '2020-06-15']]


def dt(ms):
  return np.array([EPOCH + np.timedelta64(m, 'm') for m in ms], dtype='datetime64[ns]')


def td(ms):
  return np.array(ms, dtype='timedelta64[m]').astype('timedelta64[ns]')


def undt(vs):
  return [int((np.datetime64(v, 'ns') - np.datetime64('1970-01-01', 'ns')) // np.timedelta64(1, 'm')) for v in vs]


def untd(vs):
  return [int(np.timedelta64(v, 'ns') // np.timedelta64(1, 'm')) for v in vs]


def cases(rng, tier, mc):
  out = []
  pick = mc if tier != 'quick' else rng.sample(mc, min(len(mc), 160))
  for c in pick:  # archives with gaps, split requests
    base, step = rng.choice(BASES), rng.choice([6 * H, D, H])
    led = [x * step for x in c['leads']]
    reqs = []
    for ch in (1, 2):
      ini = [base + i * step for i, s in zip(c['inits'], c['split']) if s == ch]
      if ini:
        reqs.append(dict(inits=ini, mode='exact', leads=led))
    rng.shuffle(reqs)
    reqs.append(dict(inits=[base + i * step for i in c['inits']], mode='exact', leads=led))
    loader = rng.choice(['targ', 'targ', 'pers', 'pred'])
    case = dict(loader=loader, seed=rng.randrange(10**9), reqs=reqs)
    if loader == 'pred':
      case.update(inits=[base + i * step for i in c['arch']], leads=[0, step, 3 * step])
    else:
      case.update(times=[base + i * step for i in c['arch']])
    out.append(case)
  for _ in range(330 if tier == 'quick' else 3000):
    out.append(rand_case(rng))
  for k in range(12):  # leap days and year ends, every calendar-addressed loader
    base = mins(['2020-12-31', '2020-02-29', '2021-02-28', '2016-12-30'][k % 4])
    loader = ['prob', 'clim', 'prob'][k // 4]
    inits, leads = [base, base + D], [0, 6 * H, D]
    c = dict(loader=loader, seed=rng.randrange(10**9), reqs=[dict(inits=inits, mode='exact', leads=leads), dict(inits=inits[:1], mode='exact', leads=leads[:2])])
    if loader == 'clim':
      c.update(units=['dayofyear', 'hour'], days=366, hours=[0, 6, 12, 18])
    else:
      c.update(startyear=2018, endyear=2021, reqinits=inits, reqleads=leads, nogap=True)
    out.append(c)
  return out


def rand_case(rng):
  loader = rng.choice(['pred', 'pred', 'targ', 'targ', 'clim', 'clim', 'pers', 'prob'])
  base = rng.choice(BASES)
  step = rng.choice([6 * H, 12 * H, D, H, 3 * H, 30])
  c = dict(loader=loader, seed=rng.randrange(10**9))
  inits0 = [base + k * step for k in range(rng.randint(1, 6))]
  leads0 = sorted(rng.sample([0, 6 * H, 12 * H, 18 * H, D, 2 * D, 36 * H, 10 * D, H, 90, step, 2 * step, 3 * step], rng.randint(1, 4)))
  leads0 = list(dict.fromkeys(leads0))
  if loader == 'pred':
    c.update(inits=inits0, leads=leads0)
    if rng.random() < 0.2:
      c['inits'] = rng.sample(inits0, len(inits0))
  elif loader in ('targ', 'pers'):
    times = sorted({i + L for i in inits0 for L in leads0 + [0]} | {base + k * step for k in range(8)})
    if rng.random() < 0.3 and len(times) > 1:
      times.remove(rng.choice(times))
    c['times'] = times if rng.random() < 0.8 else rng.sample(times, len(times))
  elif loader == 'clim':
    c['units'] = rng.choice([['dayofyear', 'hour'], ['dayofyear', 'hour'], ['hour', 'dayofyear'], ['dayofyear'], ['month'], ['month', 'hour'], ['hour']])
    c['days'] = 365 if rng.random() < 0.15 else 366
    c['hours'] = rng.choice([list(range(24)), [0, 6, 12, 18], [0, 12]])
  else:
    y0 = rng.choice([2019, 2016, 2020, 2018])
    c.update(startyear=y0, endyear=y0 + rng.randint(0, 3))
  reqs = []
  pi = inits0 + [base + rng.choice([7, -1, 100]) * step] * (rng.random() < 0.05)
  pl = leads0 + [rng.choice([5, 77]) * H] * (rng.random() < 0.05)
  for _ in range(rng.randint(1, 4)):
    mode = rng.choice(['exact'] * 6 + ['none', 'slice'])
    ini = rng.sample(pi, rng.randint(1, len(pi)))
    led = rng.sample(pl, rng.randint(1, len(pl)))
    if rng.random() < 0.7:
      ini.sort()
      led.sort()
    if mode == 'slice':
      led = sorted([rng.choice(pl), rng.choice(pl) + rng.choice([0, 1, -1])])
    reqs.append(dict(inits=list(dict.fromkeys(ini)), mode=mode, leads=[] if mode == 'none' else led if mode == 'slice' else list(dict.fromkeys(led))))
  c['reqs'] = reqs
  if loader == 'prob':
    c['reqinits'], c['reqleads'] = pi, pl
  return c


class Doubling(interpolations.Interpolation):
  """Stand-in: 2*x + c (c from the reference when there is one), fills missing."""

  def __init__(self, c, fill):
    self.c, self.fill = c, fill

  def interpolate_data_array(self, da, reference=None):
    c = self.c if reference is None else float(reference)
    return (2 * da + c).where(~np.isnan(da), self.fill)


def build(c, rng):
  loader = c['loader']
  if loader == 'pred':
    td_, lab = ['init_time', 'lead_time'], dict(init_time=c['inits'], lead_time=c['leads'])
  elif loader in ('targ', 'pers'):
    td_, lab = ['valid_time'], dict(valid_time=c['times'])
  elif loader == 'prob':
    ts = set()
    # every hour-of-day/day-of-year slot the requests can need, plus neighbours
    for i in c['reqinits']:
      for L in c['reqleads']:
        v = np.datetime64(EPOCH + np.timedelta64(i + L, 'm'), 'D')
        doy = int((v - v.astype('datetime64[Y]').astype('datetime64[D]')).astype(int))
        for y in range(c['startyear'], c['endyear'] + 1):
          for dd in (doy - 1, doy, doy + 1):
            ts.add(int((np.datetime64(f'{y}-01-01', 'm') - EPOCH).astype(int)) + dd * D + ((i + L) % D) // H * H)
    td_, lab = ['valid_time'], dict(valid_time=sorted(ts))
    if not c.get('nogap') and rng.random() < 0.1 and len(ts) > 2:
      lab['valid_time'].pop(rng.randrange(len(ts)))
  else:
    td_ = list(c['units'])
    lab = dict(dayofyear=list(range(1, c['days'] + 1)), hour=c['hours'], month=list(range(1, 13)))
    if 'dayofyear' in td_:
      # Keep the days near the requests (the spec sees the whole source).
      days = set()
      for r in c['reqs']:
        for i in r['inits']:
          for L in (r['leads'] if r['mode'] == 'exact' else [0]):
            v = np.datetime64(EPOCH + np.timedelta64(i + L, 'm'), 'D')
            doy = int((v - v.astype('datetime64[Y]').astype('datetime64[D]')).astype(int)) + 1
            days |= {doy - 1, doy, doy + 1}
      lab['dayofyear'] = sorted(d for d in days | {1} if 1 <= d <= c['days'])
  sp = rng.choice([['latitude', 'longitude'], ['latitude'], ['level', 'latitude'], ['latitude', 'longitude']])
  lab.update(latitude=[-10, 0, 10][: rng.randint(1, 3)], longitude=[0, 90][: rng.randint(1, 2)], level=[500, 700, 850][: rng.randint(1, 3)])
  src = []
  for nm in ['t', 'u', 'z'][: rng.randint(1, 3)]:
    dims = td_ + [d for d in sp if nm == 't' or rng.random() < 0.85]
    rng.shuffle(dims)
    if nm == 'u' and rng.random() < 0.5:
      dims = list(src[0][1])
    if nm != 't' and rng.random() < 0.15 and loader in ('pred', 'targ', 'clim'):
      dims = [d for d in dims if d not in td_]
    src.append((nm, dims))
  data = {}
  for nm, dims in src:
    sh = [len(lab[d]) for d in dims]
    v = np.random.RandomState(rng.randrange(10**6)).randint(-500, 500, size=sh).astype(rng.choice(['float32', 'float64', 'float64']))
    if rng.random() < 0.5:
      v = np.where(np.random.RandomState(rng.randrange(10**6)).rand(*sh) < 0.2, np.nan, v).astype(v.dtype)
    if nm == 'u' and dims == src[0][1] and not rng.randrange(2):
      # Same field with other gaps.
      v = np.where(np.isnan(data['t'][1]), 5, data['t'][1]).astype(v.dtype)
      v = np.where(np.random.RandomState(rng.randrange(10**6)).rand(*sh) < 0.3, np.nan, v).astype(v.dtype)
    data[nm] = (dims, v)
  conc = lambda d: dt(lab[d]) if d in ('init_time', 'valid_time') else td(lab[d]) if d == 'lead_time' else np.array(lab[d], dtype=float if d in ('latitude', 'longitude') else int)
  used = {d for _, dims in src for d in dims} | set(td_)
  ds = xr.Dataset({n: xr.DataArray(v, dims=d) for n, (d, v) in data.items()}, coords={d: conc(d) for d in used})
  srcev = [dict(name=n, dtype=str(v.dtype), arr=dict(dims=d, labels=[lab[x] for x in d], data=[enc(float(y), 1) for y in np.asarray(v, float).ravel().tolist()])) for n, (d, v) in data.items()]
  return ds, srcev, lab


def proc(rng, p):
  on = rng.random() < p
  return dict(on=on, a=rng.choice([1, 2, -1, 3]), b=rng.randint(-5, 5), usenan=rng.random() < 0.3, nanat=rng.randint(-500, 500))


def apply(p, x):
  if p['usenan']:
    x = x.where(x != p['nanat'])
  return p['a'] * x + p['b']


def execute(c):
  rng = random.Random(c['seed'])
  ds, srcev, lab = build(c, rng)
  loader = c['loader']
  pre, prc = proc(rng, 0.25), proc(rng, 0.25)
  pre['nanat'] = int(rng.choice([v for v in srcev[0]['arr']['data']]))
  if pre['nanat'] == NAN:
    pre['usenan'] = False
  itp = dict(on=rng.random() < 0.2, c=rng.randint(-3, 3), fill=rng.randint(-3, 3))
  refc = rng.choice([None, rng.randint(-3, 3)])
  kw = {}
  # selections
  sel, selkw = [], {}
  for d in ('latitude', 'level', 'longitude'):
    if d in ds.dims and rng.random() < 0.25:
      scalar = rng.random() < 0.4
      ls = rng.sample(lab[d], 1 if scalar else rng.randint(1, len(lab[d])))
      sel.append(dict(dim=d, scalar=scalar, labels=ls))
      selkw[d] = ls[0] if scalar else ls
  if selkw:
    kw['sel_kwargs'] = selkw
  # renamings
  ren = rng.choice(['ecmwf', 'ecmwf', 'dict', 'none'])
  varren = {}
  allvars = rng.random() < 0.5
  vars_ = ['t'] + rng.sample([s['name'] for s in srcev[1:]], rng.randint(0, len(srcev) - 1))
  rng.shuffle(vars_)
  given = ds
  if rng.random() < 0.3:
    varren = {f'raw_{s["name"]}': s['name'] for s in srcev if rng.random() < 0.7}
    given = given.rename({v: k for k, v in varren.items()})
    kw['rename_variables'] = varren
  if rng.random() < 0.3 and 'latitude' in ds.dims and 'longitude' in ds.dims:
    given = given.rename(latitude='lat', longitude='lon')
  if loader == 'clim':
    if rng.random() < 0.3:
      u = c['units'][0]
      given = given.rename({u: 'clim_' + u})
      kw['rename_dimensions'] = {'clim_' + u: u}
    kw['climatology_time_coords'] = tuple(c['units'])
    if c['units'] == ['dayofyear', 'hour'] and rng.random() < 0.5:
      del kw['climatology_time_coords']
  else:
    back = dict(init_time='time', lead_time='prediction_timedelta') if loader == 'pred' else dict(valid_time='time')
    if ren == 'ecmwf':
      given = given.rename(back)
      if rng.random() < 0.5:
        kw['rename_dimensions'] = 'ecmwf'
    elif ren == 'dict':
      given = given.rename({k: 'x_' + k for k in back})
      kw['rename_dimensions'] = {'x_' + k: k for k in back}
    else:
      kw['rename_dimensions'] = None
  if not allvars:
    kw['variables'] = vars_ if rng.random() < 0.5 else tuple(vars_)
  if pre['on']:
    kw['preprocessing_fn'] = lambda x: apply(pre, x)
  if prc['on']:
    kw['process_chunk_fn'] = (lambda x: apply(prc, x)) if rng.random() < 0.5 else (lambda x: {k: apply(prc, v) for k, v in dict(x).items()})
  if itp['on']:
    kw['interpolation'] = Doubling(itp['c'], itp['fill'])
  nanmask, valcoord = rng.random() < 0.4, rng.random() < 0.25
  if nanmask:
    kw['add_nan_mask'] = True
  if valcoord:
    kw['add_values_to_coords'] = True
  if rng.random() < 0.3:
    kw['compute'] = False
  backing = rng.choice(['ds', 'ds', 'ds', 'dask', 'zarr', 'nc'])
  scratch = None
  if backing == 'dask':
    given = given.chunk({d: rng.randint(1, 3) for d in given.dims})
  elif backing in ('zarr', 'nc'):
    scratch = tempfile.mkdtemp(prefix='drvloader_')
    path = os.path.join(scratch, 'data.' + backing)
    if backing == 'zarr':
      given.chunk({d: rng.randint(1, 3) for d in given.dims}).to_zarr(path)
      path += rng.choice(['', '/'])
    else:
      given.to_netcdf(path, engine='scipy', encoding={'prediction_timedelta': dict(dtype='int32')} if 'prediction_timedelta' in given.coords else None)
  before = given.copy(deep=True)
  if backing in ('zarr', 'nc'):
    kw['path'] = path
  else:
    kw['ds'] = given
  cls = dict(pred=xl.PredictionsFromXarray, targ=xl.TargetsFromXarray, clim=xl.ClimatologyFromXarray, pers=xl.PersistenceFromXarray)
  base = dict(loader=loader, sel=sel, pre=pre, proc=prc, interp=itp, allvars=allvars, vars=vars_, nanmask=nanmask, valcoord=valcoord, src=srcev,
              units=c.get('units', []), startyear=c.get('startyear', 0), endyear=c.get('endyear', 0))
  try:
    if loader == 'prob':
      ldr = xl.ProbabilisticClimatologyFromXarray(start_year=c['startyear'], end_year=c['endyear'], **kw)
    else:
      ldr = cls[loader](**kw)
    evs = []
    for r in c['reqs']:
      ev = dict(base, op='load', inits=r['inits'], leads=r['leads'], leadmode=r['mode'])
      ref = None
      if itp['on'] and refc is not None:
        ev['interp'] = dict(itp, c=refc)
        ref = {s['name']: xr.DataArray(float(refc)) for s in srcev}
      leads = None if r['mode'] == 'none' else slice(*td(r['leads'])) if r['mode'] == 'slice' else td(r['leads'])
      if r['mode'] == 'exact' and rng.random() < 0.15:
        leads = np.array(r['leads'], 'timedelta64[m]')

      def run():
        ch = ldr.load_chunk(dt(r['inits']), leads, ref) if ref is not None or rng.random() < 0.5 else ldr.load_chunk(init_times=dt(r['inits']), lead_times=leads)
        outs = []
        for n in list(ch):
          a = ch[n]
          o = dict(name=str(n), arr=show(a), dtype=str(a.dtype), hasmask='mask' in a.coords, hasvals='values_as_coord' in a.coords)
          if prc['on'] or pre['on'] or itp['on']:
            o['dtype'] = next((s['dtype'] for s in srcev if s['name'] == n), '?')
          if o['hasmask']:
            o['mask'] = show(a.coords['mask'])
          if o['hasvals']:
            o['vals'] = show(a.coords['values_as_coord'])
          outs.append(o)
        return dict(out=outs, unchanged=bool(given.identical(before)) if backing in ('ds', 'dask') else True)
      evs.append(guarded(run, ev))
    return evs
  finally:
    if scratch:
      shutil.rmtree(scratch)


def show(a):
  labels = []
  for d in a.dims:
    if d in a.coords:
      v = a[d].values
      labels.append(undt(v) if d in ('init_time', 'valid_time') else untd(v) if d == 'lead_time' else [enc(float(x), 1) for x in v])
    else:
      labels.append([-900 - k for k in range(a.sizes[d])])
  return dict(dims=[str(d) for d in a.dims], labels=labels, data=[enc(float(x), 1) for x in np.asarray(a.values, float).ravel().tolist()])
