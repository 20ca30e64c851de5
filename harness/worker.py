"""Driver worker: executes one shard of cases in the real code, logs events."""
import importlib, json, os, random, sys, traceback, warnings, signal, logging
warnings.filterwarnings('ignore')
logging.disable(logging.WARNING)


class CaseTimeout(Exception):
  pass


def main():
  drv, casefile, outfile, shard, n, tier, seed = sys.argv[1:]
  shard, n, seed = int(shard), int(n), int(seed)
  mod = importlib.import_module(drv)
  data = json.load(open(casefile))
  if 'only' in data:
    cases = data['only']
  else:
    rng = random.Random(f'{drv}-{seed}')
    cases = list(mod.cases(rng, tier, data['mc']))
  def on_alarm(*_):
    raise CaseTimeout('operation did not finish within the time limit')
  signal.signal(signal.SIGALRM, on_alarm)
  limit = getattr(mod, 'CASE_TIMEOUT', 180)
  with open(outfile, 'w') as f:
    for i, c in enumerate(cases):
      if i % n != shard:
        continue
      signal.alarm(limit)
      evs = mod.execute(c)
      signal.alarm(0)
      for j, e in enumerate(evs):
        e['case'] = i
        e['first'] = j == 0
        if j == 0:
          e['case_input'] = c
        else:
          e['case_input'] = c if len(json.dumps(c)) < 20000 else None
        f.write(json.dumps(e) + '\n')


if __name__ == '__main__':
  main()
  sys.stdout.flush()
  os._exit(0)
