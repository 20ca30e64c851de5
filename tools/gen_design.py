"""Refreshes the lists in DESIGN.md (repaired defects, planted bugs)."""
import glob, json, re
s = open('/verif/DESIGN.md').read()
def put(tag, text):
  global s
  s = re.sub(f'(<!-- {tag}:begin -->\n).*?(<!-- {tag}:end -->)', lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
fixes = [k['what'] for k in json.load(open('/verif/known_findings.json')) if k['status'] == 'fixed']
put('fixes', ''.join('* ' + re.sub(r'^fixed: property=(\w+) (\w+) ', r'\1 (`\2`): ', f) + '\n' for f in fixes))
caught = json.load(open('/verif/tools/seeds/caught.json'))
rows = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
  m = json.load(open(p)); i = p.split('/')[-2]
  rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, 'not run yet')} |")
put('seeds', '\n'.join(rows) + '\n')
open('/verif/DESIGN.md', 'w').write(s)
