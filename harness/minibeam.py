"""A schedule-controlled in-memory executor for Apache Beam pipelines.

It runs the transforms of a constructed pipeline directly, so that a check can
choose what a distributed runner is free to choose: order of elements, which
work is lost and redone, which accumulators exist, how inputs are spread over
them, the merge tree, and where values cross a serialization boundary.
Anything it does not understand raises Unsupported (callers then fall back to
Beam's own DirectRunner).
"""
import inspect
import pickle

import apache_beam as beam
from apache_beam.internal import pickler
from apache_beam.pipeline import PipelineVisitor


class Unsupported(Exception):
  pass


class Schedule:
  """Decisions of the runner. program: {n_inputs: [combine program, ...]}."""

  def __init__(self, rng, order=None, lose=(), programs=None, chaos=True):
    self.rng = rng
    self.order = order          # permutation for the first multi-element stage
    self.lose = set(lose)       # positions (in order) evaluated twice
    self.programs = programs or []
    self.chaos = chaos
    self.used = 0

  def permute(self, xs):
    xs = list(xs)
    if self.chaos:
      self.rng.shuffle(xs)
    return xs

  def copy(self, x):
    if self.chaos and self.rng.random() < 0.3:
      return pickle.loads(pickle.dumps(x))
    return x

  def combine(self, fn, values):
    for p in self.programs:
      if p['n'] == len(values):
        self.used += 1
        return self.run_program(fn, values, p['steps'])
    return self.random_combine(fn, values)

  def run_program(self, fn, values, steps):
    waiting, accs = list(values), []
    for s in steps:
      if s[0] == 'new':
        accs.append(fn.create_accumulator())
      elif s[0] == 'add':
        v = waiting.pop(s[2] - 1)
        accs[s[1] - 1] = fn.add_input(accs[s[1] - 1], self.copy(v))
      elif s[0] == 'merge':
        i, j = s[1] - 1, s[2] - 1
        accs[i] = fn.merge_accumulators([self.copy(accs[i]), accs[j]])
        del accs[j]
    assert not waiting and len(accs) == 1
    return fn.extract_output(accs[0])

  def random_combine(self, fn, values):
    rng = self.rng
    values = self.permute(values)
    n = rng.randint(1, max(1, min(4, len(values) + 1)))
    accs = [fn.create_accumulator() for _ in range(n)]
    for v in values:
      i = rng.randrange(n)
      accs[i] = fn.add_input(accs[i], self.copy(v))
    while len(accs) > 1 or rng.random() < 0.2:
      rng.shuffle(accs)
      if rng.random() < 0.3:
        accs[0] = fn.compact(accs[0])
      k = rng.randint(1, len(accs))
      if k == 1 and rng.random() < 0.5:
        accs.append(fn.create_accumulator())
        k = 2
      group, accs = [self.copy(a) for a in accs[:k]], accs[k:]
      accs.append(fn.merge_accumulators(iter(group) if rng.random() < 0.5 else group))
    return fn.extract_output(accs[0])


def run(pipeline, sched):
  vals = {}

  class V(PipelineVisitor):
    depth = 0
    skip_from = None

    def enter_composite_transform(self, node):
      self.depth += 1
      if self.skip_from is not None or node.transform is None:
        return
      t = node.transform
      if isinstance(t, beam.Create):
        vals[node.outputs[None]] = list(t.values)
        self.skip_from = self.depth
      elif isinstance(t, beam.CombinePerKey):
        vals[node.outputs[None]] = combine_per_key(node)
        self.skip_from = self.depth
      elif isinstance(t, beam.Reshuffle):
        vals[node.outputs[None]] = sched.permute(vals[node.inputs[0]])
        self.skip_from = self.depth

    def leave_composite_transform(self, node):
      if self.skip_from == self.depth:
        self.skip_from = None
      elif self.skip_from is None and node.transform is not None:
        pass
      self.depth -= 1

    def visit_transform(self, node):
      if self.skip_from is not None:
        return
      t = node.transform
      if isinstance(t, beam.GroupByKey):
        groups = group(vals[node.inputs[0]])
        vals[node.outputs[None]] = sched.permute([(k, sched.permute(v)) for k, v in groups])
      elif isinstance(t, beam.ParDo):
        if len(node.outputs) != 1 or getattr(node, 'side_inputs', ()):
          raise Unsupported(node.full_label)
        vals[list(node.outputs.values())[0]] = pardo(t, vals[node.inputs[0]])
      elif isinstance(t, beam.Flatten):
        vals[node.outputs[None]] = [x for i in node.inputs for x in vals[i]]
      elif isinstance(t, beam.Impulse):
        vals[node.outputs[None]] = [b'']
      else:
        raise Unsupported(f'{node.full_label}: {type(t).__name__}')

  def group(pairs):
    keys, groups = [], []
    for k, v in pairs:
      if k in keys:
        groups[keys.index(k)].append(v)
      else:
        keys.append(k)
        groups.append([v])
    return list(zip(keys, groups))

  def combine_per_key(node):
    fn = node.transform.fn
    out = []
    for k, vs in group(vals[node.inputs[0]]):
      f = pickler.loads(pickler.dumps(fn))
      out.append((k, sched.combine(f, vs)))
    return sched.permute(out)

  def pardo(t, elements):
    if getattr(t, 'side_inputs', ()):
      raise Unsupported('side inputs')
    args, kwargs = t.args, t.kwargs
    sig = inspect.signature(t.fn.process)
    for p in list(sig.parameters.values())[1:]:
      if p.default is not inspect.Parameter.empty and 'Param' in type(p.default).__name__:
        raise Unsupported('DoFn parameters')
    elements = list(elements)
    order = list(range(len(elements)))
    lose = set()
    if sched.order is not None and len(elements) == len(sched.order) and len(elements) > 1:
      order, lose = sched.order, sched.lose
      sched.order = None
    elif sched.chaos and sched.order is None:
      sched.rng.shuffle(order)
      lose = {i for i in order if sched.rng.random() < 0.1}
    blob = pickler.dumps(t.fn)

    def worker(xs):
      fn = pickler.loads(blob)
      fn.setup()
      fn.start_bundle()
      out = []
      for x in xs:
        r = fn.process(x, *args, **kwargs)
        out += [] if r is None else list(r)
      r = fn.finish_bundle()
      fn.teardown()
      return out

    res, i = [], 0
    while i < len(order):
      k = sched.rng.randint(1, 3)
      batch = [elements[j] for j in order[i:i + k]]
      if any(j in lose for j in order[i:i + k]):
        worker(batch)           # this attempt is lost
      res += worker(batch)
      i += k
    return res

  pipeline.visit(V())
