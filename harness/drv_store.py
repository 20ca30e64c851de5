"""C11 driver: aggregation states saved, restored, added and evaluated."""
import os
import shutil
import tempfile
import numpy as np
import xarray as xr
import drv_agg_state as base
from larr import label, make, show
from vlib import guarded
from weatherbenchX import aggregation, beam_pipeline
from weatherbenchX.metrics import base as mbase

AS = aggregation.AggregationState
NAMES = ['A', 'A.b', 'A.b=1,c=(2,)', 'x[0]', 'a b', 'sum_weights', 'sum_weighted_statistics', 'A_b', 'A:b', '2m_t', 'x',
         'A.', 'é', "q'r'", 'S-1', '-', 'root', 'Dataset', 'u', 'v', 'dims', 'name', 'A|b', 'C~', 'data']
SEPS = ['#', '::', '.', '__', '|', '##', '~']
TREE = ['tree', 'treedict', 'treezarr']
FLAT = ['dataset', 'file', 'pipeline']


def cases(rng, tier, mc):
  out = []
  for k, c in enumerate(mc):
    if c['src'] != 'MCStore' or k % (5 if tier == 'quick' else 1):
      continue
    out.append(behaviour(k, c['hist']))
  n = 260 if tier == 'quick' else 5000
  for i in range(n):
    out.append(random_case(rng, i))
  return out


def behaviour(k, hist):
  """A behaviour of the specification: three registers, two leaves."""
  kind = ['int', 'float', 'str', 'dt', 'td'][k % 5]
  steps = []
  for i in range(3):
    v = []
    for j, key in enumerate(['A/u', 'sum_weights/A']):
      own = all(h[0] != 'flat' for h in hist)   # flat tables need compatible labels
      ls = [[1, 2], [2, 3], [1]][(i + j * own) % 3]
      arr = lambda base_: dict(dims=['x'], labels=[ls], data=[base_ + 7 * x for x in ls])
      v.append(dict(key=key, s=arr(100 * (i + 1) + 10 * j), w=arr(i + j)))
    steps.append(dict(op='load', dst=i, v=v))
  last = 0
  for what, a, b in hist:
    if what == 'add':
      steps.append(dict(op='add', dst=a - 1, a=a - 1, b=b - 1))
    else:
      form = 'tree' if what == 'tree' else FLAT[(k + len(steps)) % 3]
      steps.append(dict(op='store', dst=a - 1, a=a - 1, form=form, sep='#'))
    last = a - 1
  steps.append(dict(op='mean', a=last))
  return dict(kinds={'x': kind}, struct='nested', steps=steps, aux=[], scalars=[], dtype='float64')


def random_case(rng, i):
  struct = rng.choice(['nested', 'nested', 'nested', 'flat', 'bare', 'dataset', 'deep'])
  dims = rng.sample(['x', 'y', 'bin'], rng.randint(0 if rng.random() < 0.15 else 1, 3))
  kinds = {d: rng.choice(['int', 'float', 'str', 'dt', 'td']) for d in dims}
  for d in dims:
    if rng.random() < 0.15:
      kinds[d] = None
  fixed = {d: rng.randint(1, 3) for d in dims}
  forms = rng.choice([TREE[:2], FLAT, TREE[:2] + FLAT, ['treezarr', 'file']] if rng.random() < 0.3 and 'str' not in kinds.values() else [TREE[:2], FLAT, TREE[:2] + FLAT])
  sep = rng.choice(SEPS) if set(forms) & {'dataset'} else '#'
  flat_ok = lambda n: not any(s in n for s in ('#', sep))
  pool = [n for n in NAMES if flat_ok(n) and not ('treezarr' in forms and not n.isidentifier())]
  k = rng.randint(1, 4)
  if struct == 'bare':
    keys = ['']
  elif struct == 'flat':
    keys = rng.sample(pool, k)
  else:
    if struct == 'dataset':
      pool = [p for p in pool if p not in dims]
    stats = rng.sample(pool, rng.randint(1, 3))
    vs = rng.sample(pool, rng.randint(1, 3))
    lv3 = ['/' + p for p in rng.sample(pool, rng.randint(1, 2))] if struct == 'deep' else ['']
    keys = [f'{a}/{b}{c}' for a in stats for b in vs for c in lv3]
    if struct == 'nested' and len(keys) > 2 and rng.random() < 0.5:
      keys.remove(rng.choice(keys))
  big = rng.random() < 0.2   # needs all of double precision
  only_tree = not set(forms) & set(FLAT)
  same_labels = struct == 'dataset' or not only_tree   # flat tables need compatible coordinates
  pkd = {q: (dims if struct == 'dataset' or rng.random() < 0.6 else dims[:rng.randint(0, len(dims))]) for q in keys}
  aux = []
  labelled = [d for d in dims if kinds[d]]
  if labelled and rng.random() < 0.4:
    aux = [rng.choice(labelled), rng.choice(['dt', 'td', 'int', 'float'])]
  scalars = [[n, rng.choice(['dt', 'td', 'int', 'float'] + ['str'] * ('treezarr' not in forms)), rng.randint(1, 9)]
             for n in rng.sample(['level', 'member', 'quantile'], rng.choice([0, 0, 1, 2]))]

  def labs(d):
    if kinds[d] is None:
      return list(range(1, fixed[d] + 1))
    ls = rng.sample(range(1, 6), rng.randint(1, 3))
    return ls if rng.random() < 0.4 else sorted(ls)

  def load(dst):
    common = {d: labs(d) for d in dims}
    v = []
    for q in keys:
      ds = list(pkd[q])
      if rng.random() < 0.3:
        rng.shuffle(ds)
      labels = [list(common[d]) if same_labels else labs(d) for d in ds]
      n = int(np.prod([len(x) for x in labels])) if ds else 1
      nanp = rng.choice([0, 0, 0.2])
      v.append(dict(key=q, s=dict(dims=ds, labels=labels, data=[base.NAN if rng.random() < nanp else (rng.randint(-3 * 10**7, 3 * 10**7) if big else rng.randint(-40, 40)) for _ in range(n)]),
                    w=dict(dims=ds, labels=labels, data=[base.NAN if rng.random() < nanp / 4 else rng.randint(0, 3 * 10**7 if big else 5) for _ in range(n)])))
    return dict(op='load', dst=dst, v=v)

  nreg = rng.randint(1, 3)
  steps = [load(j) for j in range(nreg)]
  twins = []
  cnt = 10
  fam = {j: j for j in range(nreg)}   # register -> structural family: stored states are dictionaries
  for _ in range(rng.randint(2, 6)):
    r = rng.random()
    regs = list(fam)
    if r < 0.6 or (big and cnt > 12):
      a = rng.choice(regs)
      steps.append(dict(op='store', dst=cnt, a=a, form=rng.choice(forms), sep=sep))
      twins.append((a, cnt))
    elif r < 0.85 and len(regs) > 1:
      a, b = rng.sample(regs, 2)
      steps.append(dict(op='add', dst=cnt, a=a, b=b))
    else:
      args = rng.sample(regs, min(len(regs), rng.randint(1, 2 if big else 3)))
      steps.append(dict(op='sum', dst=cnt, args=args, gen=False))
    fam[cnt] = cnt
    cnt += 1
  for a, b in twins[:0 if big else 2]:
    steps.append(dict(op='mean', a=b))
    if struct in ('nested', 'dataset') and len(keys) == len({q.split('/')[0] for q in keys}) * len({q.split('/')[1] for q in keys}):
      steps.append(dict(op='metrics', a=a, b=b, want=keys))
  if len(twins) > 1 and not big:
    steps.append(dict(op='sum', dst=cnt, args=[b for _, b in twins], gen=True))
    steps.append(dict(op='mean', a=cnt))
  return dict(kinds=kinds, struct=struct, steps=steps, aux=aux, scalars=scalars,
              dtype='float64' if big else rng.choice(['float64', 'float64', 'float32']))


class Stub(mbase.Statistic):

  def __init__(self, name):
    self._n = name

  @property
  def unique_name(self):
    return self._n

  def compute(self, predictions, targets):
    raise NotImplementedError


class Pass(mbase.Metric):
  """The mean statistic itself."""

  def __init__(self, name):
    self._n = name

  @property
  def statistics(self):
    return {'in': Stub(self._n)}

  def values_from_mean_statistics(self, statistic_values):
    return statistic_values['in']


def build(step, c):
  st = base.build(dict(v=step['v']), c['kinds'], 'nested' if c['struct'] == 'deep' else c['struct'], c['aux']) if c['struct'] != 'deep' else deep(step, c)

  def dress(da):
    da = da.astype(c['dtype'])
    return da.assign_coords({n: coordval(k, v) for n, k, v in c['scalars']})
  def walk(t):
    if isinstance(t, xr.DataArray):
      return dress(t)
    if isinstance(t, xr.Dataset):
      return t.astype(c['dtype']).assign_coords({n: coordval(k, v) for n, k, v in c['scalars']})
    return {k: walk(v) for k, v in t.items()}
  return AS(walk(st.sum_weighted_statistics), walk(st.sum_weights))


def coordval(kind, v):
  x = base.coord(kind, [v])
  return xr.DataArray(x, dims=['_'])[0].values[()] if kind != 'str' else str(x[0])


def deep(step, c):
  s, w = {}, {}
  for it in step['v']:
    a, b, p = it['key'].split('/')
    for tree, x in ((s, 's'), (w, 'w')):
      da = make(it[x]['dims'], it[x]['labels'], it[x]['data'], c['kinds'])
      if c['aux'] and c['aux'][0] in it['s']['dims']:
        ls = it['s']['labels'][it['s']['dims'].index(c['aux'][0])]
        da = da.assign_coords(aux=(c['aux'][0], base.coord(c['aux'][1], ls)))
      tree.setdefault(a, {}).setdefault(b, {})[p] = da
  return AS(s, w)


def coords_of(state, c):
  out = []
  kinds = dict(c['kinds'])
  if c['aux']:
    kinds['aux'] = c['aux'][1]
  kinds.update({n: k for n, k, _ in c['scalars']})
  for side, tree in (('s', state.sum_weighted_statistics), ('w', state.sum_weights)):
    if tree is None:
      continue
    for key, da in base.leaves(tree).items():
      for n, co in da.coords.items():
        k = kinds.get(n)
        vals = np.atleast_1d(co.values)
        if k is None:
          lab = [-777]
        else:
          lab = label(k, vals)
        kd = 'num' if co.dtype.kind in 'iuf' else co.dtype.kind if co.dtype.kind in 'mM' else 'str'
        out.append(dict(key=key, side=side, name=str(n), kind=kd, dims=[str(d) for d in co.dims], labels=lab))
  return out


def stored(state, form, sep, scratch, i, flat):
  def table(ds, sp='#'):
    # The names of the variables of a flat table, split at the separator.
    flat.append([str(n).split(sp) for n in ds.data_vars])
    return ds
  if form == 'tree':
    return AS.from_data_tree(state.to_data_tree())
  if form == 'treedict':
    return AS.from_data_tree(xr.DataTree.from_dict(state.to_data_tree().to_dict()))
  path = os.path.join(scratch, f'sub{i}', f's{i}')
  if form == 'treezarr':
    os.makedirs(os.path.dirname(path))
    state.to_data_tree().to_zarr(path, consolidated=False)
    return AS.from_data_tree(xr.open_datatree(path, engine='zarr', consolidated=False).load())
  if form == 'dataset':
    return AS.from_dataset(table(state.to_dataset(separator=sep), sep), separator=sep)
  if form == 'file':
    os.makedirs(os.path.dirname(path))
    state.to_dataset().to_netcdf(path + '.nc')
    return AS.from_dataset(table(xr.open_dataset(path + '.nc').load()))
  if form == 'pipeline':
    os.makedirs(os.path.dirname(path))
    list(beam_pipeline.WriteAggregationState(path + '.nc').process(state))
    return AS.from_dataset(table(xr.open_dataset(path + '.nc').load()))
  raise ValueError(form)


def execute(c):
  scratch = tempfile.mkdtemp(prefix='wbx_c11_')
  try:
    return steps(c, scratch)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def steps(c, scratch):
  kinds = c['kinds']
  heap, evs = {}, []
  for i, st in enumerate(c['steps']):
    ev = {k: v for k, v in st.items() if k not in ('v', 'gen')}
    def run():
      op, extra = st['op'], {}
      if op == 'load':
        heap[st['dst']] = build(st, c)
      elif op == 'add':
        heap[st['dst']] = heap[st['a']] + heap[st['b']]
      elif op == 'sum':
        xs = [heap[a] for a in st['args']]
        heap[st['dst']] = AS.sum(iter(xs) if st.get('gen') else xs)
      elif op == 'store':
        src = heap[st['a']]
        extra['coords_a'] = coords_of(src, c)
        extra['flat'] = []
        extra['paths'] = [k.split('/') for k in base.leaves(src.sum_weighted_statistics)] if src.sum_weights is not None else []
        new = stored(src, st['form'], st['sep'], scratch, i, extra['flat'])
        extra['coords_d'] = coords_of(new, c)
        extra['tree'] = st['form'] in TREE
        heap[st['dst']] = new
      elif op == 'mean':
        m = heap[st['a']].mean_statistics()
        extra['mean'] = [dict(key=k, s=show(v, kinds, 256, None)) for k, v in base.leaves(m).items()]
      elif op == 'metrics':
        for o, r in (('ma', st['a']), ('mb', st['b'])):
          names = sorted({q.split('/')[0] for q in st['want']})
          ds = heap[r].metric_values({f'M{j}': Pass(n) for j, n in enumerate(names)})
          extra[o] = [dict(key=f'{names[int(str(k).split(".", 1)[0][1:])]}/{str(k).split(".", 1)[1]}', s=show(v, kinds, 256, None))
                      for k, v in ds.items()]
      extra['heap'] = {f'r{k}': base.view(v, kinds) for k, v in heap.items()}
      return extra
    for k in ('dst', 'a', 'b'):
      if k in ev:
        ev[k] = f'r{ev[k]}'
    if 'args' in ev:
      ev['args'] = [f'r{x}' for x in ev['args']]
    guarded(run, ev)
    evs.append(ev)
    if not ev['ok']:
      break
  return evs
