"""C02 driver: histories of AggregationState operations."""
import numpy as np
import xarray as xr
from larr import coord, make, show
from vlib import guarded, NAN, err
from weatherbenchX import aggregation

AS = aggregation.AggregationState


def cases(rng, tier, mc):
  out = []
  for k, c in enumerate(mc):
    kind = ['int', 'float', 'str', 'dt'][k % 4]
    steps, live = [], []
    for i, f in enumerate(c['init']):
      if f['z']:
        steps.append(dict(op='zero', dst=i))
      else:
        arr = lambda j: dict(dims=['x'], labels=[f['xs']], data=[p[j] for p in f['fs']])
        steps.append(dict(op='load', dst=i, v=[dict(key='S/v', s=arr(0), w=arr(1))]))
      live.append(i)
    for a, b in c['hist']:
      if a == 0:
        steps.append(dict(op='sum', dst=live[0], args=list(live)))
        live = live[:1]
      else:
        steps.append(dict(op='add', dst=a - 1, a=a - 1, b=b - 1))
        live.remove(b - 1)
    out.append(dict(kinds={'x': kind}, struct='nested', steps=steps))
  n = 250 if tier == 'quick' else 5000
  for _ in range(n):
    out.append(random_case(rng))
  for _ in range(n // 3):
    out.append(random_twostage(rng))
  return out


def random_case(rng):
  struct = rng.choice(['nested', 'nested', 'flat', 'bare', 'dataset'])
  dims = rng.sample(['x', 'y', 'bin'], rng.randint(0 if rng.random() < 0.1 else 1, 3))
  kinds = {d: rng.choice(['int', 'float', 'str', 'dt', 'td']) for d in dims}
  nolabel = [d for d in dims if rng.random() < 0.15]
  for d in nolabel:
    kinds[d] = None
  fixed = {d: rng.randint(1, 3) for d in dims}
  keys = {'nested': ['A/u', 'A/v', 'B.b=1/u'], 'flat': ['u', 'v'], 'bare': [''], 'dataset': ['A/u', 'A/v']}[struct]
  keys = keys[:rng.randint(1, len(keys))]
  per_key_dims = {k: (dims if struct == 'dataset' or rng.random() < 0.7 else dims[:rng.randint(0, len(dims))]) for k in keys}
  aligned = rng.random() < 0.3
  common = {d: sorted(rng.sample(range(1, 6), rng.randint(1, 3))) for d in dims}

  def load(dst):
    v = []
    lab1 = None
    for k in keys:
      ds = list(per_key_dims[k])
      if rng.random() < 0.3:
        rng.shuffle(ds)
      if struct != 'dataset' or lab1 is None:
        lab1 = {}
        for d in dims:
          if kinds[d] is None:
            lab1[d] = list(range(1, fixed[d] + 1))
          elif aligned:
            lab1[d] = list(common[d])
          else:
            lo = 0 if rng.random() < 0.08 else 1
            ls = rng.sample(range(1, 6), rng.randint(lo, 3))
            lab1[d] = ls if rng.random() < 0.4 else sorted(ls)
      labels = [list(lab1[d]) for d in ds]
      n = int(np.prod([len(x) for x in labels])) if ds else 1
      nanp = rng.choice([0, 0, 0.15])
      s = [NAN if rng.random() < nanp else rng.randint(-40, 40) for _ in range(n)]
      w = [rng.randint(0, 5) for _ in range(n)]
      v.append(dict(key=k, s=dict(dims=ds, labels=labels, data=s), w=dict(dims=ds, labels=labels, data=w)))
    return dict(op='load', dst=dst, v=v)

  nreg = rng.randint(2, 6)
  steps = []
  for i in range(nreg):
    steps.append(dict(op='zero', dst=i) if rng.random() < 0.2 else load(i))
  zero = {i: s['op'] == 'zero' for i, s in enumerate(steps)}
  cnt = nreg
  for _ in range(rng.randint(2, 7)):
    r = rng.random()
    regs = list(zero)
    if r < 0.5:
      a, b = rng.choice(regs), rng.choice(regs)
      # a labelless dim cannot be aligned with different sizes; sizes are fixed
      steps.append(dict(op='add', dst=cnt, a=a, b=b))
      zero[cnt] = zero[a] and zero[b]
    elif r < 0.8:
      args = [rng.choice(regs) for _ in range(rng.randint(0, 5))]
      steps.append(dict(op='sum', dst=cnt, args=args, gen=rng.random() < 0.5))
      zero[cnt] = all(zero[a] for a in args)
    else:
      nzr = [x for x in regs if not zero[x]]
      if nzr:
        a = rng.choice(nzr)
        steps.append(dict(op='mean', a=a))
      continue
    cnt += 1
  # final further reduction
  common_dims = [d for d in dims if all(d in per_key_dims[k] for k in keys)]
  if common_dims:
    a = rng.choice(list(zero))
    steps.append(dict(op='sumdims', dst=cnt, a=a, dims=rng.sample(common_dims, rng.randint(1, len(common_dims)))))
  # a further coordinate along one of the dimensions (such as valid_time)
  lab = [d for d in dims if kinds[d]]
  aux = [rng.choice(lab), rng.choice(['dt', 'td', 'int', 'float'])] if lab and rng.random() < 0.4 else []
  return dict(kinds=kinds, struct=struct, steps=steps, aux=aux)


def random_twostage(rng):
  """Aggregate chunks over some dims, combine, reduce further."""
  dims = ['t', 'x', 'y'][:rng.randint(2, 3)]
  kinds = {d: rng.choice(['int', 'float', 'dt']) for d in dims}
  steps = []
  base = {d: list(range(1, rng.randint(2, 4))) for d in dims}
  later = rng.sample(dims, rng.randint(1, len(dims) - 1))
  first = [d for d in dims if d not in later]
  n = rng.randint(1, 3)
  for i in range(n):
    lab = {d: ([v + i * 5 for v in base[d]] if d == 't' and rng.random() < 0.7 else list(base[d])) for d in dims}
    ds = list(dims)
    rng.shuffle(ds)
    m = int(np.prod([len(lab[d]) for d in ds]))
    arr = dict(dims=ds, labels=[lab[d] for d in ds],
               data=[NAN if rng.random() < 0.03 else rng.randint(-9, 9) for _ in range(m)])
    steps.append(dict(op='agg', dst=i, stat=arr, dims=first))
    steps.append(dict(op='agg', dst=10 + i, stat=arr, dims=dims))
  steps.append(dict(op='sum', dst=20, args=list(range(n))))
  steps.append(dict(op='sum', dst=21, args=[10 + i for i in range(n)]))
  steps.append(dict(op='sumdims', dst=22, a=20, dims=later))
  steps.append(dict(op='mean', a=22))
  return dict(kinds=kinds, struct='nested', steps=steps)


def build(step, kinds, struct, aux=()):
  s, w = {}, {}
  for it in step['v']:
    da = [make(it[x]['dims'], it[x]['labels'], it[x]['data'], kinds) for x in 'sw']
    if aux and aux[0] in it['s']['dims']:
      ls = it['s']['labels'][it['s']['dims'].index(aux[0])]
      da = [a.assign_coords(aux=(aux[0], coord(aux[1], ls))) for a in da]
    if struct == 'bare':
      return AS(*da)
    for tree, a in zip((s, w), da):
      if struct == 'flat':
        tree[it['key']] = a
      else:
        st, v = it['key'].split('/')
        tree.setdefault(st, {})[v] = a
  if struct == 'dataset':
    s = {k: xr.Dataset(v) for k, v in s.items()}
    w = {k: xr.Dataset(v) for k, v in w.items()}
  return AS(s, w)


def leaves(tree):
  if isinstance(tree, xr.DataArray):
    return {'': tree}
  out = {}
  for k, v in tree.items():
    for k2, a in leaves(v).items():
      out[f'{k}/{k2}' if k2 else str(k)] = a
  return out


def view(state, kinds):
  if state.sum_weighted_statistics is None:
    return dict(z=state.sum_weights is None, v=[])
  s, w = leaves(state.sum_weighted_statistics), leaves(state.sum_weights)
  if set(s) != set(w):
    return dict(z=False, v=[dict(key='MISMATCH', s=dict(dims=[], labels=[], data=[0]), w=dict(dims=[], labels=[], data=[0]))])
  return dict(z=False, v=[dict(key=k, s=show(s[k], kinds), w=show(w[k], kinds)) for k in s])


def execute(c):
  kinds, struct = c['kinds'], c['struct']
  heap, evs = {}, []
  for st in c['steps']:
    ev = {k: v for k, v in st.items() if k not in ('v', 'gen')}
    def run():
      op, extra = st['op'], {}
      if op == 'zero':
        heap[st['dst']] = AS.zero()
      elif op == 'load':
        heap[st['dst']] = build(st, kinds, struct, c.get('aux'))
      elif op == 'add':
        heap[st['dst']] = heap[st['a']] + heap[st['b']]
      elif op == 'sum':
        xs = [heap[a] for a in st['args']]
        heap[st['dst']] = AS.sum(iter(xs) if st.get('gen') else xs)
      elif op == 'sumdims':
        heap[st['dst']] = heap[st['a']].sum_along_dims(st['dims'])
      elif op == 'agg':
        a = make(st['stat']['dims'], st['stat']['labels'], st['stat']['data'], kinds)
        heap[st['dst']] = aggregation.Aggregator(reduce_dims=st['dims']).aggregate_statistics({'S': {'v': a}})
      elif op == 'mean':
        m = heap[st['a']].mean_statistics()
        extra['mean'] = [dict(key=k, s=show(v, kinds, 256, None)) for k, v in leaves(m).items()]
      extra['heap'] = {f'r{k}': view(v, kinds) for k, v in heap.items()}
      return extra
    for k in ('dst', 'a', 'b'):
      if k in ev:
        ev[k] = f'r{ev[k]}'
    if 'args' in ev:
      ev['args'] = [f'r{x}' for x in ev['args']]
    guarded(run, ev)
    evs.append(ev)
    if not ev['ok']:
      break
  return evs
