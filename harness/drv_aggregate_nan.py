"""C04 driver: masks and NaNs, from loader to aggregate."""
import numpy as np
import xarray as xr
from larr import make, show
from vlib import guarded, NAN
import drv_aggregate as base
from weatherbenchX.data_loaders import base as dl
from weatherbenchX import xarray_tree
from weatherbenchX.metrics import base as mb, deterministic


def cases(rng, tier, mc):
  out = base.mc_cases(mc)
  n = 500 if tier == 'quick' else 9000
  for _ in range(n):
    c = base.random_case(rng, nan=True)
    c['pair'] = c['masked']
    if c['pair']:
      for v in c['vars']:
        v['stat'].pop('hidden_inf', None) if rng.random() < 0.5 else None
    out.append(c)
  for _ in range(n // 3):
    out.append(loader_case(rng))
  return out


def loader_case(rng):
  vs = []
  dims = rng.sample(['init_time', 'lead_time', 'lat'], rng.randint(1, 3))
  sizes = {d: list(range(1, rng.randint(1, 3) + 1)) for d in dims}
  for k in ['u', 'v', 'w'][:rng.randint(1, 3)]:
    n = int(np.prod([len(sizes[d]) for d in dims]))
    vs.append(dict(key=k, data=[NAN if rng.random() < 0.3 else rng.randint(-9, 9) for _ in range(n)]))
  return dict(op='loader', dims=dims, sizes=sizes, vars=vs, masking=rng.random() < 0.75, dataset=rng.random() < 0.5,
              compute=rng.random() < 0.7, process=rng.choice(['none', 'none', 'fill', 'newnan']),
              via=rng.choice(['loader', 'loader', 'subset']), subset=rng.random() < 0.5)


class Src(dl.DataLoader):
  def __init__(self, data, **kw):
    super().__init__(**kw)
    self.data = data

  def _load_chunk_from_source(self, init_times, lead_times=None):
    return self.data


def execute(c):
  if c['op'] != 'loader':
    return base.execute(c)
  kinds = {'init_time': 'dt', 'lead_time': 'td', 'lat': 'float'}

  def fresh():
    d = {v['key']: make(c['dims'], [c['sizes'][x] for x in c['dims']], v['data'], kinds) for v in c['vars']}
    return xr.Dataset(d) if c['dataset'] else d

  def proc(chunk):
    if c['process'] == 'fill':
      return xarray_tree.map_structure(lambda a: a.fillna(5.0), chunk)
    return xarray_tree.map_structure(lambda a: a.where(a != 3), chunk)
  fn = None if c['process'] == 'none' else proc

  def run():
    # the same pipeline without masking gives the data that should be described
    plain = Src(fresh(), compute=c['compute'], process_chunk_fn=fn).load_chunk(np.array([0]), None)
    if c['via'] == 'loader':
      got = Src(fresh(), compute=c['compute'], process_chunk_fn=fn, add_nan_mask=c['masking']).load_chunk(np.array([0]), None)
      masked_vars = set(got) if c['masking'] else set()
    else:
      names = [v['key'] for v in c['vars']]
      sub = names[:1] if c['subset'] else None
      got = dl.add_nan_mask_to_data(fresh() if fn is None else proc(fresh()), variable_subset=sub)
      masked_vars = set(names if sub is None else sub)
    err = deterministic.AbsoluteError().compute({k: v * 0.0 + 1.0 for k, v in plain.items()}, got)
    res = []
    for k in got:
      a = got[k]
      hm = 'mask' in a.coords
      st = err.get(k)
      res.append(dict(key=str(k), hasmask=hm, want=k in masked_vars,
                      mask=show(a.coords['mask'], kinds) if hm else 0,
                      data=show(a, kinds), plain=show(plain[k], kinds), hasstat=st is not None,
                      statmask=[show(st.coords['mask'], kinds)] if st is not None and 'mask' in st.coords else []))
    return dict(vars=res)
  ev = guarded(run, dict(op='loader', masking=c['masking'] or c['via'] != 'loader', via=c['via']))
  if ev['ok']:
    # one event per (masked / unmasked) group keeps the verdict uniform
    evs = []
    for want in (True, False):
      vs = [v for v in ev['vars'] if v['want'] == want]
      if vs:
        evs.append(dict(op='loader', ok=True, masking=want, via=c['via'], vars=vs))
    return evs
  return [ev]
