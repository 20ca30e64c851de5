#!/usr/bin/env python3
"""seedtest.py [--tests] [--checks C01,C02] ID...: try a planted change in a scratch copy of /repo (dev helper)."""
import json, os, shutil, subprocess, sys, tempfile
tests = '--tests' in sys.argv
argv = [a for a in sys.argv[1:] if a != '--tests']
chks = None
if '--checks' in argv:
  i = argv.index('--checks'); chks = [c for c in argv[i + 1].split(',') if c != 'none']; del argv[i:i + 2]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for sid in argv:
  src = f'/verif/seeded/{sid}'
  meta = json.load(open(src + '/meta.json'))
  d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
  try:
    subprocess.run('git -C /repo archive HEAD | tar -x -C ' + d, shell=True, check=True)
    demo = tempfile.mkdtemp(prefix='demo_', dir=d)
    for f in os.listdir(src):
      if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
        shutil.copy(f'{src}/{f}', demo)
    def rundemo():
      return subprocess.run(['bash', demo + '/demo.sh'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r0 = rundemo()
    subprocess.run(['git', 'init', '-q', d], check=True)
    subprocess.run(['git', '-C', d, 'apply', src + '/patch.diff'], check=True)
    r1 = rundemo()
    ok = r0.returncode == 0 and r1.returncode != 0
    print(f'{sid} [{meta["property"]}] demo {"OK" if ok else "BAD"} ({r0.returncode},{r1.returncode}) :: {r1.stdout.strip().splitlines()[-1:] }', flush=True)
    if not ok:
      print(r0.stdout[-1500:]); print('---'); print(r1.stdout[-800:])
    for c in ([meta['property']] if chks is None else chks):
      r = subprocess.run(['python3', '/verif/harness/run.py', c], env=dict(os.environ, WBX_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
      print(f'   check {c} rc={r.returncode} violations={len(v)} {r.stdout.strip().splitlines()[-1][:150]}', flush=True)
    if tests:
      env = dict(HOME='/root', LANG='C.UTF-8', PATH='/usr/bin:/bin', PYTHONPATH=d, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', NO_GCE_CHECK='true', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TMPDIR=demo)
      r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '6', '--timeout=600', '-rf', 'weatherbenchX'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      bad = [l for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))]
      print(f'   tests {sid}: {r.stdout.strip().splitlines()[-1]}'); print('\n'.join('     ' + b[:160] for b in bad[:6]), flush=True)
  finally:
    shutil.rmtree(d)
