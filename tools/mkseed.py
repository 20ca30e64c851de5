"""mkseed.py: helper to write a planted change: add(id, property, needs, what_it_breaks, [(file, old, new)...], demo)."""
import json, os, subprocess, tempfile, shutil
DEMO = '''#!/bin/bash
# Run with cwd = the repository.
export HOME=/root LANG=C.UTF-8 PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export JAX_PLATFORMS=cpu NO_GCE_CHECK=true OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
def add(sid, prop, needs, breaks, edits, demo):
  out = f'/verif/seeded/{sid}'
  os.makedirs(out, exist_ok=True)
  d = tempfile.mkdtemp(prefix='mk_', dir='/tmp')
  try:
    subprocess.run('git -C /repo archive HEAD | tar -x -C ' + d, shell=True, check=True)
    subprocess.run(f'git init -q {d} && git -C {d} add -A && git -C {d} -c user.email=a -c user.name=a commit -qm x', shell=True, check=True)
    for f, old, new in edits:
      p = f'{d}/weatherbenchX/{f}'
      s = open(p).read()
      assert s.count(old) == 1, (sid, f, s.count(old))
      open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', d, 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
  finally:
    shutil.rmtree(d)
  open(out + '/demo.sh', 'w').write(DEMO)
  open(out + '/demo.py', 'w').write(demo)
  json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
