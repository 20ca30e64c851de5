#!/usr/bin/env python3
"""setup_cmd: nothing to build; confirms the tools the checks need are present and all modules parse."""
import glob, os, subprocess, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
mods = sorted(os.path.basename(p) for p in glob.glob(os.path.join(R, 'spec', '*.tla')))
p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', *mods], cwd=os.path.join(R, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode != 0 or 'Parse Error' in p.stdout or 'Semantic errors' in p.stdout:
  print(p.stdout[-3000:]); sys.exit(2)
if not os.path.exists('/opt/venv/bin/python'):
  print('no /opt/venv/bin/python'); sys.exit(2)
print(f'{len(mods)} TLA+ modules parse')
