#!/usr/bin/env python3
"""Runs one property check:  run.py CXX [--replay FILE].

1. TLC model-checks the property's design specification (spec/MC*.tla) and
   emits behaviours ("CASE ..." lines).
2. Driver workers (harness/drv_*.py, under /opt/venv) execute the emitted
   behaviours and seeded random cases in the real code, logging one event per
   public call (inputs + observed outputs, or the exception).
3. TLC replays every log through the trace specification (spec/Trace*.tla),
   which reuses the design specification's operators, and prints a verdict
   ("BAD ...") naming the failing clause for each event it does not allow.
Exit: 0 held, 1 violation, 2 machinery failure.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('WBX_REPO', '/repo')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

sys.path.insert(0, HERE)
from registry import REGISTRY  # noqa: E402


class Machinery(Exception):
  pass


def child_env():
  keep = {k: v for k, v in os.environ.items()
          if k in ('PATH', 'LANG', 'TZ', 'VERIF_SEED', 'VERIF_TIER')}
  keep.update(HOME='/root', LANG='C.UTF-8', PYTHONPATH=REPO + ':' + HERE,
              PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
              JAX_PLATFORMS='cpu', NO_GCE_CHECK='true', OMP_NUM_THREADS='1',
              OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
              XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
              TF_CPP_MIN_LOG_LEVEL='3', PYTHONWARNINGS='ignore')
  return keep


def tlc(module, cfg, scratch, env=None, workers=1, timeout=800, extra=(), xmx='3g'):
  """Runs TLC in a private copy of spec/; returns (stdout text, seconds)."""
  d = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
  e = dict(os.environ)
  e.pop('JAVA_TOOL_OPTIONS', None)
  e.update(env or {})
  cmd = ['java', '-Xss64m', '-Xmx' + xmx,
         '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
         '-XX:TieredStopAtLevel=1' if timeout < 0 else '-XX:+TieredCompilation',
         '-Djava.io.tmpdir=' + d,
         '-cp', JAR, 'tlc2.TLC', '-config', cfg, '-metadir', d, '-noGenerateSpecTE',
         '-workers', str(workers), '-checkpoint', '0', *extra, module]
  t = time.time()
  try:
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=abs(timeout))
  except subprocess.TimeoutExpired as ex:
    raise Machinery(f'TLC timed out on {module}/{cfg}') from ex
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return p.stdout.decode('utf-8', 'replace'), time.time() - t


def tagged(out, tag):
  """JSON payloads of PrintT("<TAG> " \\o ToJson(..)) lines."""
  r = []
  pre = '"' + tag + ' '
  for line in out.splitlines():
    if line.startswith(pre):
      s = json.loads(line)
      r.append(json.loads(s[len(tag) + 1:]))
  return r


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def run_mc(pid, spec, scratch, tier, seed):
  """Exhaustive design model checking. Returns (cases, stats, violation)."""
  cases, stats = [], []
  for m in spec.get('mc', []):
    cfg = m['cfg']
    if m.get('violates'):
      # Negative control: the specification must reject this broken design.
      out, secs = tlc(m['module'], cfg, scratch, workers=m.get('workers', 1), timeout=m.get('timeout', 300))
      if f"{m['violates']} is violated" not in out:
        raise Machinery(f'negative control {m["module"]}/{cfg} did not violate {m["violates"]}:\n' + out[-1500:])
      stats.append(dict(module=m['module'], cfg=cfg, rejected_by=m['violates'], transitions=0, states=0, seconds=round(secs, 1)))
      continue
    if m.get('only') and m['only'] != tier:
      continue
    if tier == 'thorough' and m.get('cfg_thorough'):
      cfg = m['cfg_thorough']
    extra = m.get('extra', ())
    if m.get('simulate'):
      num = m['simulate'] * (m.get('thorough_factor', 10) if tier == 'thorough' else 1)
      extra = ('-simulate', f'num={num}', '-depth', str(m.get('depth', 80)), '-seed', str(seed), '-aril', '0')
    out, secs = tlc(m['module'], cfg, scratch, workers=m.get('workers', 1),
                    timeout=m.get('timeout', 700) * (8 if tier == 'thorough' else 1), extra=extra)
    if m.get('simulate'):
      mt = re.findall(r'The number of states generated: (\d+)', out)
      finished = bool(mt) and 'Error:' not in out
      mt = [(mt[-1], '0')] if mt else []
    else:
      mt = STATS.findall(out)
      finished = 'Model checking completed. No error has been found.' in out
    if not finished:
      tail = '\n'.join(out.splitlines()[-60:])
      raise Machinery(f'design model {m["module"]}/{cfg} not accepted by TLC:\n{tail}')
    stats.append(dict(module=m['module'], cfg=cfg, transitions=int(mt[-1][0]),
                      states=int(mt[-1][1]), seconds=round(secs, 1)))
    got = sorted(tagged(out, 'CASE'), key=lambda c: json.dumps(c, sort_keys=True))
    for c in got:
      c.setdefault('src', m['module'])
    cases += got
  return cases, stats


def run_driver(spec, casefile, outfile, shard, n, tier, seed, logf, timeout):
  cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'worker.py'), spec['driver'],
         casefile, outfile, str(shard), str(n), tier, str(seed)]
  with open(logf, 'wb') as lf:
    p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT,
                         env=dict(child_env(), TMPDIR=os.path.dirname(outfile)), start_new_session=True,
                         cwd=os.path.dirname(outfile))
    try:
      rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
      os.killpg(p.pid, signal.SIGKILL)
      p.wait()
      return 'timeout'
    finally:
      try:
        os.killpg(p.pid, signal.SIGKILL)
      except ProcessLookupError:
        pass
  return rc


def judge(spec, path, scratch, nevents, timeout=800):
  """Returns (list of (line, clauses), stats)."""
  if nevents == 0:
    return [], (0, 0)
  out, _ = tlc(spec['trace'], spec.get('trace_cfg', 'Trace.cfg'), scratch,
               env={'TRACE': path}, timeout=timeout, xmx='3g')
  bad = [(b[0], b[1]) for b in tagged(out, 'BAD')]
  done = tagged(out, 'DONE')
  mt = STATS.findall(out)
  st = (int(mt[-1][1]), int(mt[-1][0])) if mt else (0, 0)
  if done and done[-1] == nevents:
    return bad, st
  # TLC could not evaluate the specification on some event.
  reached = [b for b in tagged(out, 'AT')]
  return bad + [('error', out)], st


def judge_isolating(spec, path, scratch, events):
  bad, st = judge(spec, path, scratch, len(events))
  if not (bad and bad[-1][0] == 'error'):
    return bad, st
  err = bad[-1][1]
  if 'Error:' not in err:
    raise Machinery('TLC failed on trace:\n' + err[-4000:])
  # Judge case by case (a case's events belong together).
  groups = []
  for i, ev in enumerate(events):
    if groups and groups[-1][0][1]['case'] == ev['case']:
      groups[-1].append((i, ev))
    else:
      groups.append([(i, ev)])
  res = []

  def rec(gs):
    flat = [x for g in gs for x in g]
    fd, tmp = tempfile.mkstemp(dir=scratch, suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
      for _, ev in flat:
        f.write(json.dumps(ev) + '\n')
    b, s = judge(spec, tmp, scratch, len(flat))
    if b and b[-1][0] == 'error':
      if 'Error:' not in b[-1][1] or 'Parsing or semantic analysis failed' in b[-1][1]:
        raise Machinery('TLC failed on trace:\n' + b[-1][1][-4000:])
      if len(gs) == 1:
        msg = [x for x in b[-1][1].splitlines() if x.strip()]
        k = next((j for j, x in enumerate(msg) if x.startswith('Error:')), 0)
        res.append((flat[0][0] + 1, ['unjudgeable-output'], msg[k:k + 12]))
        for ln, cl in b[:-1]:
          res.append((flat[ln - 1][0] + 1, cl))
        return
      if len(res) > 20:
        return
      h = len(gs) // 2
      rec(gs[:h])
      rec(gs[h:])
    else:
      for ln, cl in b:
        res.append((flat[ln - 1][0] + 1, cl))
  rec(groups)
  return res, st


def known_findings(pid):
  p = os.path.join(ROOT, 'known_findings.json')
  if not os.path.exists(p):
    return []
  return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


def match_known(k, ev, clauses):
  sel = k['match']
  if not set(clauses) <= set(sel['clauses']):
    return False
  for key, val in sel.get('fields', {}).items():
    cur = ev
    for part in key.split('.'):
      if not isinstance(cur, dict) or part not in cur:
        return False
      cur = cur[part]
    if cur != val:
      return False
  return True


def main():
  pid = sys.argv[1]
  replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
  if '--thorough' in sys.argv:
    os.environ['VERIF_TIER'] = 'thorough'
  spec = REGISTRY[pid]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  t0 = time.time()
  scratch = tempfile.mkdtemp(prefix=f'wbx_{pid}_')
  try:
    return go(pid, spec, tier, seed, scratch, t0, replay)
  except Machinery as e:
    print('MACHINERY FAILURE:', e)
    return 2
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def go(pid, spec, tier, seed, scratch, t0, replay):
  if replay:
    r = json.load(open(replay))
    mc_cases, mc_stats = [], []
    casefile = os.path.join(scratch, 'cases.json')
    json.dump({'only': [r['case_input']]}, open(casefile, 'w'))
    n = 1
    seed, tier = r.get('seed', seed), r.get('tier', tier)
  else:
    mc_cases, mc_stats = run_mc(pid, spec, scratch, tier, seed)
    casefile = os.path.join(scratch, 'cases.json')
    json.dump({'mc': mc_cases}, open(casefile, 'w'))
    n = spec.get('shards', 8)
  t1 = time.time()
  dtimeout = 700 if tier == 'quick' else spec.get('thorough_timeout', 6 * 3600)

  def one(i):
    outf = os.path.join(scratch, f'ev{i}.ndjson')
    logf = os.path.join(scratch, f'log{i}.txt')
    rc = run_driver(spec, casefile, outf, i, n, tier, seed, logf, dtimeout)
    if rc != 0:
      tail = open(logf, errors='replace').read()[-4000:]
      raise Machinery(f'driver shard {i} ended with {rc}:\n{tail}')
    evs, lines = [], []
    with open(outf) as f:
      for line in f:
        evs.append(json.loads(line))
    # the case input is kept for replay files, not shown to TLC
    tf = os.path.join(scratch, f'tr{i}.ndjson')
    with open(tf, 'w') as f:
      for ev in evs:
        f.write(json.dumps({k: v for k, v in ev.items() if k != 'case_input'}) + '\n')
    slim = [{k: v for k, v in ev.items() if k != 'case_input'} for ev in evs]
    bad, st = judge_isolating(spec, tf, scratch, slim)
    return evs, bad, st

  with ThreadPoolExecutor(n) as ex:
    results = list(ex.map(one, range(n)))
  # ---- report
  viol, kn = [], {}
  nevents = ncases = 0
  ops, samples = {}, []
  trace_states = trace_trans = 0
  knowns = known_findings(pid)
  for evs, bad, st in results:
    trace_states += st[0]
    trace_trans += st[1]
    nevents += len(evs)
    ncases += len({json.dumps(e['case']) for e in evs})
    for e in evs:
      ops[e['op']] = ops.get(e['op'], 0) + 1
    for b in bad:
      ev = evs[b[0] - 1]
      k = next((k for k in knowns if match_known(k, ev, b[1])), None)
      if k is not None:
        kn.setdefault(k['id'], [k, 0])[1] += 1
      else:
        viol.append((ev, b))
  seen = set()
  for evs, _, _ in results:
    for e in evs:
      if e['op'] not in seen and len(samples) < 12:
        seen.add(e['op'])
        s = {k: v for k, v in e.items() if k != 'case_input'}
        txt = json.dumps(s)
        samples.append(s if len(txt) < 3000 else {'op': e['op'], 'case': e['case'], 'event_json_prefix': txt[:2500]})
  for k, cnt in kn.values():
    print(f'KNOWN-FINDING: property={pid} {k["what"]} ({cnt} events)')
  if nevents == 0:
    raise Machinery('no events recorded')
  rc = 0
  if os.environ.get('WBX_LIST'):
    for x in sorted({json.dumps([b[1], ev.get(os.environ['WBX_LIST']), ev.get('err')]) for ev, b in viol}):
      print('  LIST', x[:400])
  if viol:
    rc = 1
    rd = os.path.join(ROOT, 'replays')
    os.makedirs(rd, exist_ok=True)
    byc = {}
    for ev, b in viol:
      byc.setdefault((ev['op'], tuple(sorted(b[1]))), []).append((ev, b))
    first = None
    for i, ((op, cl), lst) in enumerate(sorted(byc.items())):
      ev, b = min(lst, key=lambda x: len(json.dumps(x[0])))
      path = os.path.join(rd, f'{pid}_{i}.json')
      json.dump({'property': pid, 'seed': seed, 'tier': tier, 'op': op, 'clauses': list(cl),
                 'count': len(lst), 'detail': b[2] if len(b) > 2 else None,
                 'case_input': ev.get('case_input'),
                 'event': {k: v for k, v in ev.items() if k != 'case_input'}},
                open(path, 'w'), indent=1)
      if i < 10:
        print(f'  clause {list(cl)} op={op}: {len(lst)} event(s), e.g. {path}')
        if ev.get('err'):
          print('    raised:', ev['err'][:300])
      first = first or path
    print(f'VIOLATION property={pid} replay={first}')
  if not replay:
    cov = {
        'states': sum(s['states'] for s in mc_stats) + trace_states,
        'transitions': sum(s['transitions'] for s in mc_stats) + trace_trans,
        'traces_validated_against_impl': ncases,
        'events_validated': nevents,
        'design_models': mc_stats,
        'behaviours_emitted_by_tlc': len(mc_cases),
        'events_by_operation': ops,
        'known_findings_seen': {k: v[1] for k, v in kn.items()},
        'samples': samples,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  print(f'{pid}: tier={tier} seed={seed} design={[(s["module"], s["states"]) for s in mc_stats]} '
        f'cases={ncases} events={nevents} bad={len(viol)} known={sum(v[1] for v in kn.values())} '
        f'mc={t1 - t0:.0f}s total={time.time() - t0:.0f}s')
  return rc


if __name__ == '__main__':
  sys.exit(main())
