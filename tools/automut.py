"""automut.py FILE... [--n N] [--seed S] [--jobs J] [--out F]: random source mutants, run against the checks (dev helper)."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue
REPO = os.environ.get('MUT_REPO', '/repo')
MAP = {
 'aggregation.py': 'C02 C04 C03 C11 C05 C01', 'beam_pipeline.py': 'C14 C01 C11', 'beam_utils.py': 'C10 C01', 'binning.py': 'C13 C12 C03 C01',
 'time_chunks.py': 'C06', 'xarray_tree.py': 'C15 C05 C02', 'weighting.py': 'C19', 'interpolations.py': 'C18',
 'data_loaders/base.py': 'C07 C08 C09', 'data_loaders/xarray_loaders.py': 'C07 C08', 'data_loaders/latency_wrappers.py': 'C08', 'data_loaders/sparse_parquet.py': 'C09',
 'metrics/base.py': 'C23 C05 C15', 'metrics/categorical.py': 'C16 C23 C22 C17', 'metrics/deterministic.py': 'C24 C23 C05', 'metrics/probabilistic.py': 'C17 C16 C05',
 'metrics/spatial.py': 'C22 C05', 'metrics/wrappers.py': 'C15 C05 C16 C17', 'statistical_inference/autodiff.py': 'C21 C20', 'statistical_inference/base.py': 'C20 C21',
 'statistical_inference/baseline_comparison.py': 'C21 C20', 'statistical_inference/bootstrap.py': 'C20', 'statistical_inference/utils.py': 'C21 C20',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&'}
STR = {'outer': 'inner', 'inner': 'outer', 'left': 'right', 'right': 'left', 'exact': 'outer', 'predictions': 'targets', 'targets': 'predictions', 'both': 'predictions', 'linear': 'nearest', 'init_time': 'lead_time', 'lead_time': 'init_time', 'latitude': 'longitude', 'longitude': 'latitude', 'drop': 'no', 'ns': 's'}

class V(ast.NodeVisitor):
  def __init__(self, src):
    self.src = src
    self.lines = src.splitlines(keepends=True)
    self.off = [0]
    for l in self.lines:
      self.off.append(self.off[-1] + len(l.encode()))
    self.b = src.encode()
    self.out = []
    self.fn = []
  def pos(self, l, c):
    return self.off[l - 1] + c
  def seg(self, n):
    return self.b[self.pos(n.lineno, n.col_offset):self.pos(n.end_lineno, n.end_col_offset)].decode()
  def add(self, n, new, what):
    self.out.append((self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset), new, what, n.lineno, '.'.join(self.fn)))
  def visit_ClassDef(self, n):
    self.fn.append(n.name)
    for s in n.body: self.visit(s)
    self.fn.pop()
  def visit_FunctionDef(self, n):
    self.fn.append(n.name)
    for d in n.args.defaults + [d for d in n.args.kw_defaults if d]: self.visit(d)
    for s in n.body: self.visit(s)
    self.fn.pop()
  def visit_AnnAssign(self, n):
    if n.value: self.visit(n.value)
  def visit_Raise(self, n): pass
  def visit_Import(self, n): pass
  visit_ImportFrom = visit_Import
  def visit_JoinedStr(self, n): pass
  def visit_Expr(self, n):
    if isinstance(n.value, ast.Constant): return
    if isinstance(n.value, ast.Call) and 'logging' in self.seg(n): return
    self.add(n, 'pass', 'delete statement')
    self.generic_visit(n)
  def visit_Assert(self, n): pass
  def visit_Assign(self, n):
    if len(n.targets) == 1:
      t = n.targets[0]
      s = self.seg(t)
      names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
      if isinstance(t, ast.Name) and t.id in names or isinstance(t, (ast.Subscript, ast.Attribute)) and self.fn and self.fn[-1] != '__init__':
        self.add(n, 'pass', 'delete assignment')
    self.generic_visit(n)
  def visit_Compare(self, n):
    if len(n.ops) == 1 and type(n.ops[0]) in CMP:
      l, r = n.left, n.comparators[0]
      self.add(n, f'{self.seg(l)} {CMP[type(n.ops[0])]} {self.seg(r)}', 'comparison')
    self.generic_visit(n)
  def visit_BinOp(self, n):
    if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
      a, b = self.seg(n.left), self.seg(n.right)
      mid = self.b[self.pos(n.left.end_lineno, n.left.end_col_offset):self.pos(n.right.lineno, n.right.col_offset)].decode()
      ops = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|'}
      o = ops[type(n.op)]
      if mid.count(o) == 1:
        self.add(n, a + mid.replace(o, BIN[type(n.op)]) + b, 'operator')
    self.generic_visit(n)
  def visit_BoolOp(self, n):
    o, x = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
    self.add(n, '(' + f' {x} '.join(self.seg(v) for v in n.values) + ')', 'and/or')
    for v in n.values:
      if len(n.values) > 1:
        self.add(n, '(' + f' {o} '.join(self.seg(w) for w in n.values if w is not v) + ')', 'drop operand')
    self.generic_visit(n)
  def visit_UnaryOp(self, n):
    if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
      self.add(n, '(' + self.seg(n.operand) + ')', 'drop unary')
    self.generic_visit(n)
  def visit_Constant(self, n):
    if isinstance(n.value, bool):
      self.add(n, str(not n.value), 'bool')
    elif isinstance(n.value, (int, float)):
      self.add(n, str(n.value + 1), 'number')
    elif isinstance(n.value, str) and n.value in STR:
      self.add(n, repr(STR[n.value]), 'string')
  def visit_If(self, n):
    if not (len(n.body) == 1 and isinstance(n.body[0], ast.Raise)):
      self.add(n.test, 'not (' + self.seg(n.test) + ')', 'negate if')
    else:
      self.add(n.test, 'False', 'no refusal')
    self.generic_visit(n)
  def visit_IfExp(self, n):
    self.add(n, '(' + self.seg(n.body) + ')', 'always then')
    self.add(n, '(' + self.seg(n.orelse) + ')', 'always else')
    self.generic_visit(n)
  def visit_Continue(self, n):
    self.add(n, 'break', 'continue')
  def visit_Break(self, n):
    self.add(n, 'continue', 'break')
  def visit_Call(self, n):
    for k in n.keywords:
      if k.arg and k.arg not in ('dim', 'dims', 'name', 'output_dtypes'):
        p, q = self.pos(k.lineno, k.col_offset), self.pos(k.end_lineno, k.end_col_offset)
        e = q
        while self.b[e:e + 1] in (b' ', b','):
          e += 1
          if self.b[e - 1:e] == b',': break
        if self.b[e - 1:e] != b',' : e = q
        self.out.append((p, e, '', f'drop keyword {k.arg}', k.lineno, '.'.join(self.fn)))
    if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
      a, b = n.args[:2]
      self.add_span(a, b, self.seg(b) + ', ' + self.seg(a), 'swap args')
    if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'sortby', 'astype', 'where', 'fillna', 'round', 'clip', 'load', 'compute', 'transpose', 'reset_coords', 'drop_vars', 'rename', 'squeeze', 'dropna', 'unique', 'floor'):
      self.add(n, '(' + self.seg(n.func.value) + ')', 'drop method ' + n.func.attr)
    if isinstance(n.func, ast.Attribute) and n.func.attr in ('min', 'max', 'all', 'any', 'floor', 'ceil', 'mean', 'sum'):
      w = {'min': 'max', 'max': 'min', 'all': 'any', 'any': 'all', 'floor': 'ceil', 'ceil': 'floor', 'mean': 'sum', 'sum': 'mean'}[n.func.attr]
      s = self.seg(n)
      f = self.seg(n.func)
      self.add(n.func, f[:f.rindex(n.func.attr)] + w, 'method')
    self.generic_visit(n)
  def add_span(self, a, b, new, what):
    self.out.append((self.pos(a.lineno, a.col_offset), self.pos(b.end_lineno, b.end_col_offset), new, what, a.lineno, '.'.join(self.fn)))

def mutants(f):
  src = open(f'{REPO}/weatherbenchX/{f}').read()
  v = V(src)
  v.visit(ast.parse(src))
  out = []
  for p, q, new, what, line, fn in v.out:
    s = (v.b[:p] + new.encode() + v.b[q:]).decode()
    try:
      ast.parse(s)
    except SyntaxError:
      continue
    out.append(dict(file=f, line=line, fn=fn, what=what, old=v.b[p:q].decode()[:160], new=new[:160], src=s))
  return out

def opt(k, d):
  if k in sys.argv:
    i = sys.argv.index(k); x = sys.argv[i + 1]; del sys.argv[i:i + 2]
    return x
  return d

def main():
  n, seed, jobs, outf = int(opt('--n', 30)), int(opt('--seed', 1)), int(opt('--jobs', 2)), opt('--out', '/tmp/automut.jsonl')
  fnf = opt('--fn', '')
  rng = random.Random(seed)
  q = queue.Queue()
  for f in sys.argv[1:]:
    ms = [m for m in mutants(f) if not fnf or fnf in m['fn']]
    rng.shuffle(ms)
    for m in ms[:n]:
      q.put(m)
  lock = threading.Lock()
  def work():
    d = tempfile.mkdtemp(prefix='am_', dir='/tmp')
    subprocess.run(f'git -C {REPO} archive HEAD | tar -x -C {d}', shell=True, check=True)
    while True:
      try:
        m = q.get_nowait()
      except queue.Empty:
        break
      p = f'{d}/weatherbenchX/{m["file"]}'
      orig = open(p).read()
      open(p, 'w').write(m['src'])
      res = 'SURVIVED'
      for c in MAP[m['file']].split():
        r = subprocess.run(['python3', '/verif/harness/run.py', c], env=dict(os.environ, WBX_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
          res = c
          break
        if r.returncode != 0:
          res = f'{c} rc={r.returncode}'
          break
      open(p, 'w').write(orig)
      with lock:
        row = {k: v for k, v in m.items() if k != 'src'}
        row['res'] = res
        open(outf, 'a').write(json.dumps(row) + '\n')
        if res == 'SURVIVED' or 'rc=' in res:
          print(f"{res} {m['file']}:{m['line']} {m['fn']} [{m['what']}] {m['old']!r} -> {m['new']!r}", flush=True)
    shutil.rmtree(d)
  ts = [threading.Thread(target=work) for _ in range(jobs)]
  for t in ts: t.start()
  for t in ts: t.join()
if __name__ == '__main__':
  main()
