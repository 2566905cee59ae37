"""Small transducer combinators, for writing reference models independently of pynini.

An expression is built from cross/union/concat/star/opt and compiled by make() to
an engine Machine over code points (weights are penalties; the least wins).
"""
from mc.engine import Machine


class X:
  """A transducer with one start (0) and one end (1) state."""

  def __init__(self, n, arcs):
    self.n = n
    self.arcs = arcs

  def __add__(self, other):
    return concat(self, other)

  def __or__(self, other):
    return union(self, other)


def _shift(arcs, m):
  return [(m(s), i, o, w, m(d)) for s, i, o, w, d in arcs]


def cross(a, b, weight=0.):
  """Maps the string a to the string b."""
  arcs, cur, n = [], 0, 2
  k = max(len(a), len(b), 1)
  for j in range(k):
    nxt = 1
    if j + 1 < k:
      nxt = n
      n += 1
    arcs.append((cur, ord(a[j]) if j < len(a) else 0, ord(b[j]) if j < len(b) else 0,
                 weight if j == 0 else 0., nxt))
    cur = nxt
  return X(n, arcs)


def accep(a, weight=0.):
  return cross(a, a, weight)


def union(*xs):
  arcs, n = [], 2
  for x in xs:
    base = n

    def m(s, base=base):
      return s if s < 2 else s - 2 + base
    # Own start and end states, so that loops inside x do not leak.
    s0, e0 = base + x.n - 2, base + x.n - 1

    def mm(s, m=m, s0=s0, e0=e0):
      return s0 if s == 0 else e0 if s == 1 else m(s)
    arcs += _shift(x.arcs, mm)
    arcs += [(0, 0, 0, 0., s0), (e0, 0, 0, 0., 1)]
    n = base + x.n
  return X(n, arcs)


def concat(*xs):
  if not xs:
    return cross('', '')
  arcs, n, cur = [], 2, 0
  for k, x in enumerate(xs):
    base = n
    n += x.n

    def m(s, base=base):
      return s + base
    arcs += _shift(x.arcs, m)
    arcs.append((cur, 0, 0, 0., base))
    cur = base + 1
  arcs.append((cur, 0, 0, 0., 1))
  return X(n, arcs)


def star(x):
  base = 2
  arcs = _shift(x.arcs, lambda s: s + base)
  arcs += [(0, 0, 0, 0., 1), (0, 0, 0, 0., base), (base + 1, 0, 0, 0., base),
           (base + 1, 0, 0, 0., 1)]
  return X(x.n + 2, arcs)


def plus(x):
  return concat(x, star(x))


def opt(x):
  return union(x, cross('', ''))


def string_map(pairs, weight=0.):
  """Union of the pairs (input, output)."""
  arcs, n = [], 2
  for a, b in pairs:
    x = cross(a, b, weight)
    arcs += [tuple(v) for v in _shift(x.arcs, lambda s, n=n: s if s < 2 else s - 2 + n)]
    n += x.n - 2
  return X(n, arcs)


def strings(items):
  return string_map([(a, a) for a in items])


EMPTY = X(2, [])


def make(x, name=''):
  """Engine machine, with epsilon:epsilon arcs removed."""
  eps, real = {}, {}
  for s, i, o, w, d in x.arcs:
    if not i and not o:
      eps.setdefault(s, []).append((w, d))
    else:
      real.setdefault(s, []).append((i, o, w, d))
  arcs, finals = [], {}
  todo, seen = [0], {0}
  while todo:
    s = todo.pop()
    # epsilon closure with least weights
    dist, stack = {s: 0.}, [s]
    while stack:
      q = stack.pop()
      for w, d in eps.get(q, ()):
        v = dist[q] + w
        if d not in dist or v < dist[d]:
          dist[d] = v
          stack.append(d)
    best = {}
    for q, w in dist.items():
      if q == 1:
        finals[s] = min(w, finals.get(s, 1e9))
      for i, o, w2, d in real.get(q, ()):
        k = (i, o, d)
        v = w + w2
        if k not in best or v < best[k]:
          best[k] = v
    for (i, o, d), w in best.items():
      arcs.append((s, i, o, w, d))
      if d not in seen:
        seen.add(d)
        todo.append(d)
  ids = {s: k for k, s in enumerate(sorted(seen))}
  return Machine.make(ids[0], {ids[s]: w for s, w in finals.items()},
                      [(ids[s], i, o, w, ids[d]) for s, i, o, w, d in arcs], name)


def machine_of_steps(start, step, finish, labels, name='', cap=2_000_000):
  """The machine of a reference model given as a step function.

  step(state, char) -> None (rejects) or (next state, output string);
  finish(state) -> None (not accepting) or the output at the end of the input.
  All reachable states are explored.
  """
  ids, todo, arcs, finals = {start: 0}, [start], [], {}
  extra = []

  def fresh():
    extra.append(None)
    return -len(extra)
  end = None
  chains = {}

  def writer(out, dst):
    """State from which out is written on the way to dst."""
    cur = dst
    for k in range(len(out) - 1, -1, -1):
      key = (out[k:], dst)
      s = chains.get(key)
      if s is None:
        s = chains[key] = fresh()
        arcs.append((s, 0, ord(out[k]), 0., cur))
      cur = s
    return cur
  while todo:
    st = todo.pop()
    s = ids[st]
    f = finish(st)
    if f is not None:
      if f == '':
        finals[s] = 0.
      else:
        if end is None:
          end = fresh()
          finals[end] = 0.
        arcs.append((s, 0, ord(f[0]), 0., writer(f[1:], end)))
    for l in labels:
      r = step(st, chr(l))
      if r is None:
        continue
      nst, out = r
      if nst not in ids:
        if len(ids) >= cap:
          raise ValueError('reference model has too many states: ' + name)
        ids[nst] = len(ids)
        todo.append(nst)
      arcs.append((s, l, ord(out[0]) if out else 0, 0., writer(out[1:], ids[nst])))
  n = len(ids)

  def m(s):
    return s if s >= 0 else n - 1 - s
  return Machine.make(0, {m(s): w for s, w in finals.items()},
                      [(m(s), i, o, w, m(d)) for s, i, o, w, d in arcs], name)
