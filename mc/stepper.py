"""A transducer as a memoized deterministic step function, for enumerating strings.

States are sets of (state, pending output); the common prefix of the pending
outputs is emitted at each step.  Weights are not used: for unweighted machines.
"""
import os


class Stepper:

  def __init__(self, machine):
    start, finals, arcs = machine.export()
    self.finals = set(finals)
    self.arcs = {}
    self.eps = {}
    for s, i, o, _, d in arcs:
      if i:
        self.arcs.setdefault((s, i), []).append((o, d))
      else:
        self.eps.setdefault(s, []).append((o, d))
    self.labels = sorted({a[1] for a in arcs if a[1]})
    self.memo = {}
    self.ends = {}
    self.dead = frozenset()
    self.start = self._norm({(start, '')}) if start >= 0 else (self.dead, '')

  def _norm(self, items):
    todo, seen = list(items), set(items)
    while todo:
      q, out = todo.pop()
      for o, d in self.eps.get(q, ()):
        x = (d, out + chr(o) if o else out)
        if x not in seen:
          seen.add(x)
          todo.append(x)
          if len(seen) > 100000:
            raise ValueError('unbounded epsilon closure')
    outs = [o for _, o in seen]
    pre = os.path.commonprefix(outs) if outs else ''
    n = len(pre)
    return frozenset((q, o[n:]) for q, o in seen), pre

  def step(self, state, label):
    """(next state, output emitted)"""
    k = (state, label)
    r = self.memo.get(k)
    if r is None:
      items = set()
      for q, out in state:
        for o, d in self.arcs.get((q, label), ()):
          items.add((d, out + chr(o) if o else out))
      r = self.memo[k] = self._norm(items)
    return r

  def end(self, state):
    """Outputs pending at the end of the input (a set; empty if not accepted)."""
    r = self.ends.get(state)
    if r is None:
      r = self.ends[state] = frozenset(o for q, o in state if q in self.finals)
    return r

  def run(self, labels):
    state, out = self.start
    for l in labels:
      state, o = self.step(state, l)
      out += o
    return {out + e for e in self.end(state)}

  def walk(self, labels, depth):
    """Yields (string, set of outputs) for all strings over labels up to depth."""
    stack = [('', self.start[0], self.start[1])]
    labels = sorted(labels, reverse=True)
    while stack:
      s, state, out = stack.pop()
      e = self.end(state)
      yield s, {out + x for x in e}
      if len(s) < depth:
        for l in labels:
          ns, o = self.step(state, l)
          if ns:
            stack.append((s + chr(l), ns, out + o))


class Model:
  """The step model (start, step, finish) of a functional unweighted machine."""

  def __init__(self, machine):
    self.s = Stepper(machine)
    if self.s.start[1]:
      raise ValueError('output before input')
    self.start = self.s.start[0]

  def step(self, state, c):
    n, o = self.s.step(state, ord(c))
    return (n, o) if n else None

  def finish(self, state):
    e = self.s.end(state)
    if len(e) > 1:
      raise ValueError('two outputs: %r' % sorted(e)[:2])
    return next(iter(e)) if e else None
