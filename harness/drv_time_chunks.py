"""C06 driver: time chunk iteration."""
import numpy as np
from vlib import guarded
from weatherbenchX import time_chunks

T0 = np.datetime64('2020-02-27T00', 'ns')


def cases(rng, tier, mc):
  out = [dict(op='chunks', cfg=c['cfg'], style=k % 4) for k, c in enumerate(mc)]
  n = 400 if tier == 'quick' else 6000
  for _ in range(n):
    interval = rng.random() < 0.25
    big = rng.random() < 0.15
    m = 40 if big else 12
    ni = rng.randint(1, m)
    nl = 1 if interval else rng.randint(1, m)
    cfg = dict(ni=ni, nl=nl, ci=rng.choice([0, 0, 1, rng.randint(1, ni), rng.randint(1, ni + 4)]),
               cl=0 if interval else rng.choice([0, 1, rng.randint(1, nl), rng.randint(1, nl + 4)]),
               interval=interval)
    out.append(dict(op='chunks', cfg=cfg, style=rng.randint(0, 3), none=rng.random() < 0.5))
  for kind in ('neg_init', 'neg_lead', 'neg_both', 'open_start', 'open_stop', 'step', 'chunked_interval',
               'list_leads', 'scalar_lead', 'neg_interval_chunk'):
    for ni in (1, 3, 4):
      out.append(dict(op='reject', kind=kind, ni=ni))
  return out


def axis(n, style, unit, base):
  """n distinct times; styles: regular, irregular, unsorted, other dtype unit."""
  if style == 0:
    k = np.arange(n) * 6
  elif style == 1:
    k = np.cumsum(np.arange(n) % 5 + 1)
  elif style == 2:
    k = (np.arange(n) * 7) % (n if n % 7 else n + 1)
    k = k * 12
  else:
    k = np.arange(n)[::-1] * 24
  return base + k.astype('timedelta64[h]')


def execute(c):
  if c['op'] == 'reject':
    return [reject(c)]
  g, style = c['cfg'], c['style']
  ni, nl = g['ni'], g['nl']
  init = axis(ni, style, 'h', T0)
  if style == 3:
    init = init.astype('datetime64[h]')
  init_ns = [int(v) for v in init.astype('datetime64[ns]').astype('int64')]
  z = lambda v: (None if v == 0 and c.get('none', True) else v)
  if g['interval']:
    lead = slice(np.timedelta64(0, 'h'), np.timedelta64(6, 'h'))
  else:
    lead = axis(nl, style, 'h', np.timedelta64(0, 'h'))
    if style != 1:
      lead = lead.astype('timedelta64[ns]')
    lead_ns = [int(v) for v in lead.astype('timedelta64[ns]').astype('int64')]

  def pos(vals, ref):
    return [ref.index(int(v)) + 1 if int(v) in ref else 0 for v in vals]

  def abstract(ch):
    i, le = ch
    i = pos(np.asarray(i).astype('datetime64[ns]').astype('int64'), init_ns)
    if g['interval']:
      same = isinstance(le, slice) and le.start == lead.start and le.stop == lead.stop and le.step is None
      ivs.append(same)
      return [i, [1]]
    return [i, pos(np.asarray(le).astype('timedelta64[ns]').astype('int64'), lead_ns)]

  ivs = []
  keep = init.copy()

  def run():
    tc = time_chunks.TimeChunks(init, lead, z(g['ci']), z(g['cl']))
    it = [abstract(x) for x in tc]
    ln = len(tc)
    items = [abstract(tc[k]) for k in range(ln)]
    offs, offc = [], []
    for o, ch in tc.iter_with_chunk_offsets():
      offs.append([int(o.init_time), int(o.lead_time)])
      offc.append(abstract(ch))
    again = [abstract(x) for x in tc]
    def refuses(k):
      try:
        tc[k]
        return False
      except IndexError:
        return True
    if g['interval']:
      la = [1]
      ivs.append(tc.lead_times == lead)
    else:
      la = pos(tc.lead_times.astype('timedelta64[ns]').astype('int64'), lead_ns)
    return dict(iter=it, again=again, len=ln, items=items, offsets=offs, offchunks=offc,
                below=refuses(-1), above=refuses(ln) and refuses(ln + 3),
                axes=[pos(tc.init_times.astype('datetime64[ns]').astype('int64'), init_ns), la],
                intervals=all(ivs))
  return [guarded(run, dict(op='chunks', cfg=g))]


def reject(c):
  init = axis(c['ni'], 0, 'h', T0)
  lead = axis(3, 0, 'h', np.timedelta64(0, 'h'))
  td = lambda h: np.timedelta64(h, 'h')
  a = {
      'neg_init': (init, lead, -1, 1), 'neg_lead': (init, lead, 1, -1),
      'neg_both': (init, lead, -2, -3),
      'open_start': (init, slice(None, td(6)), 1, None),
      'open_stop': (init, slice(td(0), None), 1, None),
      'step': (init, slice(td(0), td(12), td(6)), 1, None),
      'chunked_interval': (init, slice(td(0), td(6)), 1, 2),
      'neg_interval_chunk': (init, slice(td(0), td(6)), 1, -1),
      'list_leads': (init, [td(0), td(6)], 1, 1),
      'scalar_lead': (init, td(6), 1, None),
  }[c['kind']]
  return guarded(lambda: dict(got=len(time_chunks.TimeChunks(*a))), dict(op='reject', kind=c['kind']))
