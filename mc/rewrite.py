"""Reference models of context-free and contextual rewriting, as step functions.

A rewriter reads left to right and replaces each leftmost match of a rule by its
right hand side; among rules that match at one place the longest wins.  Right
contexts are tested on the input, left contexts on the text before the match.
"""
from mc import fsa


class Rewriter:
  """Obligatory leftmost longest replacement of pairs, outside contexts none.

  left:  None, or a set of non-empty strings: one of them must end right before a match.
  right: None, or a set of non-empty strings: one of them must start right after it.
  """

  def __init__(self, pairs, left=None, right=None):
    self.pairs = {}
    for a, b in pairs:
      if a in self.pairs and self.pairs[a] != b:
        raise ValueError('two rules for ' + ascii(a))
      self.pairs[a] = b
    self.left = left
    self.right = right
    rights = [''] if right is None else sorted(right)
    # pattern = lhs + right context
    self.pats = {}
    for a in self.pairs:
      for r in rights:
        self.pats.setdefault(a + r, set()).add(a)
    self.prefixes = {p[:k] for p in self.pats for k in range(len(p))}
    lefts = () if left is None else left
    self.lprefixes = {p[:k] for p in lefts for k in range(len(p) + 1)}
    # Left contexts that the same continuations complete are one.
    self.rep = {}
    by_sig = {}
    for x in sorted(self.lprefixes, key=lambda v: (len(v), v)):
      sig = frozenset(l[k:] for l in lefts for k in range(len(l) + 1) if x.endswith(l[:k]))
      self.rep[x] = by_sig.setdefault(sig, x)
    self.start = ('', '')

  # state: (left text tracked, pending input)
  def _track(self, ctx, text):
    """Longest suffix of ctx + text that is a prefix of a left context."""
    if self.left is None:
      return ''
    s = ctx
    for x in text:
      s = self._one(s + x)
    return s

  def _one(self, s):
    while s not in self.lprefixes:
      s = s[1:]
    return self.rep[s]

  def _left_ok(self, ctx):
    return self.left is None or any(
        ctx.endswith(l) for l in self.left if len(l) <= len(ctx))

  def _advance(self, ctx, pend, final):
    """Resolves as much of the pending input as possible."""
    out = ''
    while pend:
      if self._left_ok(ctx):
        undecided = not final and any(
            pend[:k] == pend for k in (len(pend),) if pend in self.prefixes)
        # A longer match may still come.
        if undecided:
          break
        best = None
        for p in self.pats:
          if pend.startswith(p):
            for a in self.pats[p]:
              if best is None or len(a) > len(best):
                best = a
        if best is not None:
          b = self.pairs[best]
          out += b
          ctx = self._track(ctx, b)
          pend = pend[len(best):]
          if not best:
            raise ValueError('insertion rule')
          continue
      out += pend[0]
      ctx = self._track(ctx, pend[0])
      pend = pend[1:]
    return ctx, pend, out

  def step(self, state, c):
    ctx, pend, out = self._advance(state[0], state[1] + c, False)
    return (ctx, pend), out

  def finish(self, state):
    return self._advance(state[0], state[1], True)[2]

  def __call__(self, text):
    return self._advance('', text, True)[2]

  def machine(self, labels, name=''):
    return fsa.machine_of_steps(self.start, self.step, self.finish, labels, name)


def partition(pairs):
  """Rule sets in order: no left hand side in a set is part of another one in it or later."""
  left, out = list(dict.fromkeys(pairs)), []
  while left:
    top = [r for r in left if not any(r is not q and r[0] in q[0] and r != q for q in left)]
    if not top:
      raise ValueError('rules for the same text: %r' % left[:2])
    out.append(top)
    left = [r for r in left if r not in top]
  return out


def unordered(pairs, labels, name=''):
  """Machine: longer left hand sides first, set after set."""
  m = None
  for k, s in enumerate(partition(pairs)):
    r = Rewriter(s).machine(labels, '%s/%d' % (name, k))
    m = r if m is None else m.compose(r)
  if m is None:
    m = Rewriter([]).machine(labels, name)
  m.name = name
  return m


def cascade(pairs, labels, name=''):
  m = None
  for k, p in enumerate(pairs):
    r = Rewriter([p]).machine(labels, '%s/%d' % (name, k))
    m = r if m is None else m.compose(r)
  if m is None:
    m = Rewriter([]).machine(labels, name)
  m.name = name
  return m


def dedup(marks, labels, name='dedup'):
  """A run of the same mark becomes one."""
  marks = set(marks)

  def step(last, c):
    if c in marks:
      return (last, '') if c == last else (c, c)
    return '', c
  return fsa.machine_of_steps('', step, lambda s: '', labels, name)


def identity(labels, name='id'):
  return Rewriter([]).machine(labels, name)


class Dedup:
  """A run of the same mark becomes one."""

  def __init__(self, marks):
    self.marks = set(marks)
    self.start = ''

  def step(self, last, c):
    if c in self.marks:
      return (last, '') if c == last else (c, c)
    return '', c

  def finish(self, last):
    return ''


class Chain:
  """Step models one after another, as one step model."""

  def __init__(self, models):
    self.models = list(models)
    self.start = tuple(m.start for m in self.models)
    self.memo = [{} for _ in self.models]
    self.ends = {}

  def _one(self, k, s, c):
    key = (s, c)
    r = self.memo[k].get(key)
    if r is None:
      r = self.memo[k][key] = self.models[k].step(s, c) or (None, '')
    return r

  def step(self, state, c):
    out, new = c, []
    for k, s in enumerate(state):
      res = []
      for x in out:
        s, o = self._one(k, s, x)
        if s is None:
          return None
        if o:
          res.append(o)
      out = ''.join(res)
      new.append(s)
      if not out:
        new += state[k + 1:]
        break
    return tuple(new), out

  def finish(self, state):
    out = ''
    for k, s in enumerate(state):
      res = []
      for x in out:
        s, o = self._one(k, s, x)
        if s is None:
          return None
        res.append(o)
      e = self.models[k].finish(s)
      if e is None:
        return None
      out = ''.join(res) + e
    return out

  def __call__(self, text):
    s, out = self.start, ''
    for c in text:
      r = self.step(s, c)
      if r is None:
        return None
      s, o = r
      out += o
    e = self.finish(s)
    return None if e is None else out + e

  def machine(self, labels, name='', cap=5_000_000):
    return fsa.machine_of_steps(self.start, self.step, self.finish, labels, name, cap)


def unordered_models(pairs):
  return [Rewriter(s) for s in partition(pairs)]


class Table:
  """A step model explored in full over an alphabet, reduced to least size.

  Outputs are written as early as possible and states that no input tells apart
  are one: the classical minimal sequential transducer of the model.
  """

  def __init__(self, model, labels, cap=2_000_000):
    import numpy as np
    self.chars = [chr(l) if isinstance(l, int) else l for l in labels]
    ids, todo = {model.start: 0}, [model.start]
    rows, outs, fins = [], [], []
    for st in todo:
      row, out = [], []
      for c in self.chars:
        r = model.step(st, c)
        if r is None:
          row.append(-1)
          out.append('')
          continue
        k = ids.get(r[0])
        if k is None:
          k = ids[r[0]] = len(ids)
          todo.append(r[0])
          if k > cap:
            raise ValueError('too many states')
        row.append(k)
        out.append(r[1])
      rows.append(row)
      outs.append(out)
      fins.append(model.finish(st))
    self.explored = len(rows)
    n = len(rows)
    # Least common prefix of all that a state can still write (None: nothing can follow).
    pre = [None] * n
    preds = [[] for _ in range(n)]
    for s in range(n):
      for d in set(rows[s]):
        if d >= 0:
          preds[d].append(s)
    work = list(range(n))
    inq = [True] * n
    while work:
      s = work.pop()
      inq[s] = False
      new = fins[s]
      if new != '':
        for d, o in zip(rows[s], outs[s]):
          if d < 0 or pre[d] is None:
            continue
          x = o + pre[d]
          if new is None:
            new = x
          else:
            k = 0
            m = min(len(new), len(x))
            while k < m and new[k] == x[k]:
              k += 1
            new = new[:k]
          if not new:
            break
      if new != pre[s]:
        pre[s] = new
        for p in preds[s]:
          if not inq[p]:
            inq[p] = True
            work.append(p)
    self.prefix = pre[0] or ''
    table = {'': 0}
    nxt = np.array(rows, dtype=np.int64).reshape(n, len(self.chars))
    oid = np.zeros_like(nxt)
    for s in range(n):
      ps = pre[s]
      for k, (d, o) in enumerate(zip(rows[s], outs[s])):
        if d < 0 or pre[d] is None:
          nxt[s, k] = -1
          continue
        x = (o + pre[d])[len(ps):]
        oid[s, k] = table.setdefault(x, len(table))
    fid = np.array([-1 if f is None else table.setdefault(f[len(p):], len(table))
                    for f, p in zip(fins, pre)], dtype=np.int64)
    strings = list(table)
    # Partition refinement on (final output, outputs, classes of the successors).
    cls = np.unique(fid, return_inverse=True)[1].astype(np.int64)
    base = oid * 2 + (nxt >= 0)
    count = len(set(cls.tolist()))
    while True:
      succ = np.where(nxt >= 0, cls[nxt], -1)
      key = np.ascontiguousarray(np.concatenate([cls[:, None], base, succ], axis=1))
      view = key.view(np.dtype((np.void, key.dtype.itemsize * key.shape[1]))).ravel()
      new = np.unique(view, return_inverse=True)[1].astype(np.int64)
      c2 = int(new.max()) + 1
      cls = new
      if c2 == count:
        break
      count = c2
    rep = {}
    for s in range(n):
      rep.setdefault(int(cls[s]), s)
    self.start = int(cls[0])
    self.rows = {}
    self.fin = {}
    for k, s in rep.items():
      self.rows[k] = {c: (int(cls[nxt[s, j]]), strings[oid[s, j]])
                      for j, c in enumerate(self.chars) if nxt[s, j] >= 0}
      self.fin[k] = None if fid[s] < 0 else strings[fid[s]]
    if self.prefix:
      raise ValueError('output before any input')

  def __len__(self):
    return len(self.rows)

  def step(self, state, c):
    return self.rows[state].get(c)

  def finish(self, state):
    return self.fin[state]

  def machine(self, name=''):
    return fsa.machine_of_steps(self.start, self.step, self.finish,
                                list(map(ord, self.chars)), name)


def fold(models, labels):
  """The models one after another, as one least Table."""
  labels = [chr(l) if isinstance(l, int) else l for l in labels]
  t, explored = None, 0
  for m in models:
    t = Table(m if t is None else Chain([t, m]), labels)
    explored += t.explored
  t.explored = explored
  return t
