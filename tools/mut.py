#!/usr/bin/env python3
"""mut.py CHECK FILE OLD NEW [CHECK2..]: run checks on a scratch copy of /repo with one edit (dev helper)."""
import os, shutil, subprocess, sys, tempfile
chks, f, old, new = sys.argv[1].split(','), sys.argv[2], sys.argv[3], sys.argv[4]
d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
try:
  subprocess.run(['cp', '-a', os.environ.get('MUT_REPO', '/repo') + '/weatherbenchX', d + '/'], check=True)
  p = os.path.join(d, 'weatherbenchX', f)
  s = open(p).read()
  old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
  assert s.count(old) >= 1, 'pattern not found'
  s = s.replace(old, new, 1) if not os.environ.get("MUT_ALL") else s.replace(old, new)
  open(p, 'w').write(s)
  for c in chks:
    r = subprocess.run(['python3', '/verif/harness/run.py', c], env=dict(os.environ, WBX_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(c, 'rc', r.returncode); print('\n'.join(r.stdout.splitlines()[-8:]))
finally:
  shutil.rmtree(d)
