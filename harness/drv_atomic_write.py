"""C10 driver: concurrent, failing and killed writers of one output path."""
import io
import os
import random
import shutil
import sys
import tempfile
import threading

import numpy as np
import xarray as xr

import vfs
from vlib import guarded
from weatherbenchX import aggregation, beam_pipeline, beam_utils

CASE_TIMEOUT = 120


def cases(rng, tier, mc):
  ex = [c for c in mc if c['n'] == 2]
  sim = [c for c in mc if c['n'] != 2]
  if tier == 'quick':
    ex = rng.sample(ex, min(len(ex), 5000))
    sim = rng.sample(sim, min(len(sim), 600))
  out = []
  for c in ex + sim:
    n = c['n']
    out.append(dict(kind='bytes', n=n, old=c['had'], hist=c['hist'], parent=rng.random() < 0.7 or c['had'],
                    mkdir=rng.random() < 0.85, cls=[rng.choice(['soft', 'hard']) for _ in range(n)],
                    same=rng.random() < 0.25, size=rng.choice([0, 1, 2, 7, 40]), depth=rng.randint(0, 2), seed=rng.randrange(10**6)))
  for c in rng.sample(ex, min(len(ex), 120 if tier == 'quick' else 2000)):
    out.append(dict(kind=rng.choice(['metrics', 'state']), n=2, old=c['had'], hist=c['hist'], parent=rng.random() < 0.7 or c['had'],
                    mkdir=True, cls=[rng.choice(['soft', 'hard']) for _ in range(2)],
                    same=rng.random() < 0.25, size=1, depth=1, seed=rng.randrange(10**6)))
  for _ in range(8 if tier == 'quick' else 60):
    out.append(dict(kind='local', n=rng.randint(2, 4), rounds=12, size=rng.choice([1000, 300000]), old=rng.randint(0, 1), depth=rng.randint(0, 2)))
  return out


def payload(i, size, rnd):
  return bytes(f'{i}:', 'ascii') * 3 + bytes(rnd.randrange(256) for _ in range(size)) + bytes(f';{i}', 'ascii')


def execute(c):
  if c['kind'] == 'local':
    return [local(c)]
  return [scheduled(c)]


def scheduled(c):
  W = vfs.WORLD = vfs.World()
  rnd = random.Random(c['seed'])
  n = c['n']
  d = '/'.join(['a', 'b', 'c'][:c['depth'] + 1])
  path = f'{d}/out.nc'
  if c['parent']:
    W.dirs.update(vfs.VFS()._parents(d))
  cid = [1 if c['same'] else i + 1 for i in range(n)]
  known = {}
  if c['kind'] == 'bytes':
    data = [payload(k, c['size'], random.Random(c['seed'] + k)) for k in cid]
    for k, b in zip(cid, data):
      known[b] = k
    call = lambda i: beam_utils.atomic_write('vfs://' + path, data[i], auto_mkdir=c['mkdir'])
  else:
    objs = [result(c['kind'], k) for k in cid]
    do = (beam_pipeline.WriteMetrics if c['kind'] == 'metrics' else beam_pipeline.WriteAggregationState)
    call = lambda i: list(do('vfs://' + path).process(objs[i]) or [])
  if c['old']:
    W.files[path] = b'OLD CONTENTS'
    known[b'OLD CONTENTS'] = 99

  def code():
    b = W.files.get(path)
    if b is None:
      return 0
    if b not in known:
      known[b] = 98 if c['kind'] == 'bytes' else classify(c['kind'], b, cid, objs)
    return known[b]

  status, log, threads = {}, [], {}
  before = [code()]

  def body(i):
    W.tls.w = i
    try:
      W.gates[i].request('start', '')
      call(i)
      status[i] = 'ok'
    except vfs.Killed:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      status[i] = 'err'
      log.append(('exc', i, f'{type(e).__name__}: {e}'[:200]))
    W.gates[i].finish()

  for i in range(n):
    W.gates[i] = vfs.Gate()
    threads[i] = threading.Thread(target=body, args=(i,), daemon=True)
  for i in range(n):
    threads[i].start()
    W.gates[i].want.acquire()
    W.gates[i].grant.release()          # past 'start'
    W.gates[i].want.acquire()
  live = {i for i in range(n) if not W.gates[i].finished}
  dead, faulted, steps, returned = set(), set(), [], {}

  def note(i, op, f):
    steps.append(dict(w=i + 1, op=op, fault=f, dest=code()))

  def leftovers(i):
    return sum(1 for p, o in W.owner.items() if i in o and p in W.files and p != path)

  def grant(i, kind):
    g = W.gates[i]
    op = g.op[0]
    if kind == 'kill':
      dead.add(i)
      live.discard(i)
      status[i] = 'dead'
      note(i, op, 'kill')
      return
    f = kind == 'fault' and op not in ('rm', 'ls', 'exists', 'open_r') and i not in faulted
    if f:
      faulted.add(i)
      g.decision = c['cls'][i % len(c['cls'])]
    g.grant.release()
    g.want.acquire()
    note(i, op, 'fault' if f else '')
    if g.finished:
      live.discard(i)
      returned[i] = leftovers(i)

  for w, kind in c['hist']:
    if w - 1 in live:
      grant(w - 1, kind)
  budget = 200
  while live and budget:
    grant(rnd.choice(sorted(live)), 'go')
    budget -= 1
  shared = any(len(o) > 1 for p, o in W.owner.items() if p != path)
  final = code()
  other = [p for p in W.files if p != path and not (W.owner.get(p, set()) & dead)]
  madedir = d in W.dirs
  # let the killed writers' threads go, in a world nobody observes
  W.closed = True
  for i in dead | live:
    W.gates[i].kill = True
    W.gates[i].grant.release()
  for t in threads.values():
    t.join(5)
  return dict(op='schedule', ok=True, kind=c['kind'], before=before[0], content=cid, parent=bool(c['parent']), mkdir=c['mkdir'],
              steps=steps, status=[status.get(i, 'hung') for i in range(n)], left=[returned.get(i, 0) for i in range(n)],
              faulted=[i in faulted for i in range(n)], shared=shared, final=final, others=len(other), madedir=madedir,
              notes=[str(x) for x in log if x[0] == 'exc'])


def result(kind, k):
  attrs = {'source': f'model {k}'}
  da = xr.DataArray(np.arange(4.) * k, dims=['lead_time'], coords={'lead_time': np.arange(4) * np.timedelta64(6, 'h').astype('timedelta64[ns]')}, attrs=attrs)
  if kind == 'metrics':
    return xr.Dataset({'rmse.t2m': da, 'bias.z': da + 1}, attrs=attrs)
  return aggregation.AggregationState({'SE': {'t2m': da, 'z': da * 2}}, {'SE': {'t2m': da * 0 + 1, 'z': da * 0 + 2}})


def classify(kind, b, cid, objs):
  try:
    ds = xr.load_dataset(io.BytesIO(b))
    for k, o in zip(cid, objs):
      if kind == 'metrics':
        if ds.identical(o.drop_attrs(deep=True)):
          return k
      else:
        if ds.identical(o.to_dataset().drop_attrs(deep=True)):
          return k
  except Exception:  # pylint: disable=broad-except
    pass
  return 98


def local(c):
  """Free-running threads on the real local filesystem, with a reader."""
  root = tempfile.mkdtemp(prefix='aw_')
  try:
    d = os.path.join(root, *['p', 'q'][:c['depth']])
    path = os.path.join(d, 'out.bin')
    data = [bytes([65 + i]) * c['size'] for i in range(c['n'])]
    if c['old']:
      os.makedirs(d, exist_ok=True)
      with open(path, 'wb') as f:
        f.write(b'old')
    seen, stop, errs = set(), threading.Event(), []

    def code():
      try:
        with open(path, 'rb') as f:
          b = f.read()
      except FileNotFoundError:
        return 0
      if b == b'old':
        return 99
      return data.index(b) + 1 if b in data else 98

    def reader():
      while not stop.is_set():
        seen.add(code())

    def writer(i):
      for _ in range(c['rounds']):
        try:
          beam_utils.atomic_write(path, data[i])
        except BaseException as e:  # pylint: disable=broad-except
          errs.append(repr(e)[:200])

    r = threading.Thread(target=reader)
    r.start()
    ts = [threading.Thread(target=writer, args=(i,)) for i in range(c['n'])]
    for t in ts:
      t.start()
    for t in ts:
      t.join(60)
    stop.set()
    r.join(10)
    files = sum(len(f) for _, _, f in os.walk(root))
    return dict(op='local', ok=True, seen=sorted(seen), final=code(), files=files, errors=errs[:3], nerr=len(errs), n=c['n'], old=bool(c['old']))
  finally:
    shutil.rmtree(root, ignore_errors=True)
