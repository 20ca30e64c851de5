"""C08 driver: latency wrappers."""
import random

import numpy as np
import xarray as xr

from vlib import guarded, enc
from drv_loader import dt, td, undt, untd, show, proc, apply, BASES, H, D
from weatherbenchX import interpolations
from weatherbenchX.data_loaders import base as dbase
from weatherbenchX.data_loaders import latency_wrappers as lw
from weatherbenchX.data_loaders import xarray_loaders as xl


def cases(rng, tier, mc):
  out = []
  pick = mc if tier != 'quick' else rng.sample(mc, min(len(mc), 220))
  for c in pick:
    base, step = rng.choice(BASES), rng.choice([6 * H, H, D, 12 * H])
    srcs = [dict(noms=[base + n * step for n in c['s' + k]], latency=c['l' + k] * step) for k in '12']
    srcs = [s for s in srcs if s['noms']]
    if not srcs:
      continue
    q = base + c['q'] * step
    qs = [q] + [q + k * step for k in (1, -1) if rng.random() < 0.3]
    out.append(dict(kind=rng.choice(['grid', 'grid', 'rows']), multi=len(srcs) > 1 or rng.random() < 0.3, sources=srcs, explicit=rng.random() < 0.5,
                    step=step, reqs=[dict(inits=qs, leads=[0, step][: rng.randint(1, 2)])], seed=rng.randrange(10**9), full=True))
  for _ in range(180 if tier == 'quick' else 2000):
    out.append(rand_case(rng))
  return out


def rand_case(rng):
  base, step = rng.choice(BASES), rng.choice([6 * H, H, 12 * H, D, 30])
  kind = rng.choice(['grid', 'grid', 'grid', 'rows'])
  ns = rng.choice([1, 1, 2, 2, 3])
  srcs = []
  for k in range(ns):
    n = rng.randint(1, 5)
    noms = rng.sample(range(0, 9), n)
    if rng.random() < 0.5:
      noms.sort()
    srcs.append(dict(noms=[base + x * step for x in noms], latency=rng.choice([0, 0, step, step, 2 * step, step // 2, step // 2 * 3, 5 * step])))
  reqs = []
  for _ in range(rng.randint(1, 3)):
    qs = rng.sample(range(-1, 13), rng.randint(1, 4))
    if rng.random() < 0.8:
      lo = min(min(s['noms']) + s['latency'] for s in srcs)
      qs = [q for q in qs if base + q * step >= lo] or [12]
    if rng.random() < 0.7:
      qs.sort()
    reqs.append(dict(inits=[base + q * step + rng.choice([0, 0, 0, step // 2 if rng.random() < 0.3 else 0]) for q in qs],
                     leads=[x * step for x in rng.sample(range(0, 5), rng.randint(1, 3))]))
  return dict(kind=kind, multi=ns > 1 or rng.random() < 0.3, sources=srcs, explicit=rng.random() < 0.5, step=step, reqs=reqs, seed=rng.randrange(10**9), full=rng.random() < 0.8)


class AtReference(interpolations.Interpolation):
  """Values at the latitudes of the reference."""

  def interpolate_data_array(self, da, reference):
    return da.sel(latitude=reference.latitude)


class Rows(dbase.DataLoader):
  """A point-data source: one DataArray along 'index'."""

  def __init__(self, rows, **kw):
    super().__init__(**kw)
    self.rows = rows

  def _load_chunk_from_source(self, init_times, lead_times=None):
    ini, led = set(undt(init_times)), set(untd(lead_times))
    rs = [r for r in self.rows if r[0] in ini and r[1] in led]
    return {'t': xr.DataArray(np.array([r[3] for r in rs], float), dims=['index'],
                              coords=dict(init_time=('index', dt([r[0] for r in rs])), lead_time=('index', td([r[1] for r in rs])),
                                          station=('index', np.array([r[2] for r in rs], int))))}


def execute(c):
  rng = random.Random(c['seed'])
  grid = c['kind'] == 'grid'
  prc = proc(rng, 0.2) if grid else dict(on=False)
  nanmask, valcoord = grid and rng.random() < 0.3, grid and rng.random() < 0.25
  kw = {}
  if prc['on']:
    kw['process_chunk_fn'] = lambda x: apply(prc, x)
  if nanmask:
    kw['add_nan_mask'] = True
  if valcoord:
    kw['add_values_to_coords'] = True
  if grid and rng.random() < 0.3:
    kw['compute'] = False
  need = set()  # leads that may be needed
  for s in c['sources']:
    for r in c['reqs']:
      for q in r['inits']:
        for n in s['noms']:
          for x in r['leads']:
            if q >= n:
              need.add(x + q - n)
  leads = sorted(need | {0})
  if not c['full'] and len(leads) > 2:
    leads = sorted(rng.sample(leads, max(2, len(leads) * 3 // 4)))
  names = ['t', 'u'][: rng.randint(1, 2)]
  dims = ['init_time', 'lead_time'] + rng.choice([[], ['latitude'], ['latitude', 'longitude']])
  rng.shuffle(dims)
  lat = [0, 10]
  # interpolated to the latitudes of a reference: the source, as judged, has those only
  pick = rng.choice([[10], [10, 0], [0]]) if grid and 'latitude' in dims and rng.random() < 0.4 else None
  reference = None
  if pick:
    kw['interpolation'] = AtReference()
    reference = {n: xr.DataArray(np.zeros(len(pick)), dims=['latitude'], coords={'latitude': np.array(pick, float)}) for n in names}
    prc = dict(on=False)
    kw.pop('process_chunk_fn', None)
  wraps, srcev = [], []
  for k, s in enumerate(c['sources']):
    noms = s['noms']
    fileinits = list(noms)
    explicit = c['explicit'] or not grid
    if explicit and grid and rng.random() < 0.3:
      fileinits = sorted(set(noms + [noms[0] - c['step']] + [min(noms) + c['step']]))  # more on file than is used
    ev = dict(noms=noms, latency=s['latency'], vars=[], rows=[])
    lat_ = np.timedelta64(s['latency'], 'm')
    if rng.random() < 0.4 and s['latency'] % H == 0:
      lat_ = np.timedelta64(s['latency'] // H, 'h')
    if grid:
      lab = dict(init_time=fileinits, lead_time=leads, latitude=lat, longitude=[0, 90, 180])
      data = {}
      for n in names:
        sh = [len(lab[d]) for d in dims]
        v = np.random.RandomState(rng.randrange(10**6)).randint(-1000, 1000, size=sh).astype(float)
        if nanmask or rng.random() < 0.3:
          v = np.where(np.random.RandomState(rng.randrange(10**6)).rand(*sh) < 0.2, np.nan, v)
        data[n] = (dims, v)
        w = np.take(v, [lat.index(x) for x in pick], axis=dims.index('latitude')) if pick else v
        ev['vars'].append(dict(name=n, arr=dict(dims=dims, labels=[pick if pick and d == 'latitude' else lab[d] for d in dims], data=[enc(float(y), 1) for y in w.ravel().tolist()])))
      ds = xr.Dataset(data, coords={d: dt(lab[d]) if d == 'init_time' else td(lab[d]) if d == 'lead_time' else np.array(lab[d], float) for d in dims})
      if rng.random() < 0.5:
        ds = ds.rename(init_time='time', lead_time='prediction_timedelta')
        inner = xl.PredictionsFromXarray(ds=ds, **kw)
      else:
        inner = xl.PredictionsFromXarray(ds=ds, rename_dimensions=None, **kw)
      if rng.random() < 0.3:
        inner.load_chunk(dt(fileinits[:1]), td(leads[:1]), reference)
      if explicit:
        wraps.append(lw.ConstantLatencyWrapper(inner, lat_, dt(noms)))
      else:
        wraps.append(lw.XarrayConstantLatencyWrapper(inner, lat_))
    else:
      rows = []
      for n in noms:
        for x in leads:
          for st in range(rng.randint(0, 2)):
            rows.append([n, x, st, len(rows) + 1000 * k])
      ev['rows'] = rows
      wraps.append(lw.ConstantLatencyWrapper(Rows(rows, **kw), lat_, dt(noms), concat_dim='index'))
    srcev.append(ev)
  if c['multi']:
    ldr = lw.MultipleConstantLatencyWrapper(wraps) if grid else lw.MultipleConstantLatencyWrapper(wraps, concat_dim='index')
  else:
    ldr = wraps[0]
  evs = []
  base = dict(op=c['kind'], sources=srcev, proc=prc, nanmask=nanmask, valcoord=valcoord)
  for r in c['reqs']:
    ev = dict(base, inits=r['inits'], leads=r['leads'])

    def run():
      ch = ldr.load_chunk(dt(r['inits']), td(r['leads']), reference)
      if not grid:
        a = ch['t']
        return dict(outrows=[[i, x, int(s), int(v)] for i, x, s, v in zip(undt(a.init_time.values), untd(a.lead_time.values), a.station.values, a.values)])
      outs = []
      for n in list(ch):
        a = ch[n]
        o = dict(name=str(n), arr=show(a), hasmask='mask' in a.coords, hasvals='values_as_coord' in a.coords)
        if o['hasmask']:
          o['mask'] = show(a.coords['mask'])
        if o['hasvals']:
          o['vals'] = show(a.coords['values_as_coord'])
        outs.append(o)
      return dict(out=outs)
    evs.append(guarded(run, ev))
    if not c['multi'] and rng.random() < 0.5:
      q = rng.choice(r['inits']) + rng.choice([0, 0, 1, -1, c['step']])
      e2 = dict(op='avail', sources=srcev[:1], q=q)
      evs.append(guarded(lambda: dict(nominal=undt([np.datetime64(ldr.get_available_init_time(dt([q])[0]), 'ns')])[0]), e2))
  return evs
