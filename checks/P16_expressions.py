"""P16: expressions over symbols behave as the sets of symbol sequences they denote."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check


class Node:
  """An expression in the model: the words it denotes, in order of preference.

  kind: 'any', 'sym', 'cat', 'or'. A word is a tuple of names; () is the empty sequence. An
  alternation without alternatives denotes one word with a name that nothing else has.
  """

  def __init__(self, kind, items=(), name=None):
    self.kind, self.items, self.name = kind, tuple(items), name
    self.kept = None

  def words(self):
    if self.kept is None:
      out = self.compute()
      if not all(isinstance(x, str) for w in out for x in w):
        return out
      self.kept = out
    return self.kept

  def compute(self):
    if self.kind == 'sym':
      return [() if self.name == 'eps' else (self.name,)]
    if self.kind == 'cat':
      out = [()]
      for x in self.items:
        out = [a + b for a in out for b in x.words()]
      return out
    if not self.items:
      return [(object(),)]
    return [w for x in self.items for w in x.words()]

  def any(self):
    if len(self.items) == 1:
      return self.items[0].any()
    return self.kind == 'any'

  def states(self):
    return 1 if self.kind == 'sym' else sum(x.states() for x in self.items)

  def text(self):
    if self.kind in ('sym', 'any'):
      return self.name or 'ANY'
    return '%s(%s)' % (self.kind, ', '.join(x.text() for x in self.items))


CONTROLS = ('eps', 'nor', 'bos', 'eos', 'oos', 'unk', 'nos')
ANY = Node('any')


def put(kind, items, x):
  """The items after adding x to an expression of this kind."""
  if x.kind == kind:
    return extend(kind, items, x.items)
  if x.kind == 'sym':
    return items if x.name in CONTROLS else items + (x,)
  if len(x.items) == 1:
    return extend(kind, items, x.items)
  return items + (x,)


def extend(kind, items, more):
  for x in more:
    if kind == 'cat':
      items = items + (x,) if x.any() else put('cat', items, x)
      continue
    if any(i.any() for i in items):
      break
    if x.any():
      items = (x,)
      break
    me = Node('or', items)
    if accepts(me, x):
      if accepts(x, me) and x.states() < me.states():
        items = extend('or', (), (x,))
    elif accepts(x, me):
      items = extend('or', (), (x,))
    else:
      items = put('or', items, x)
  return items


def accepts(x, y, equivalent=False):
  if x.any() or y.any():
    return (x.any() and y.any()) or not equivalent
  a, b = x.words(), y.words()
  # Two empty alternations do not have the same alternative.
  return set(b) <= set(a) and (not equivalent or set(a) <= set(b))


def has(words, w, head, tail):
  if w == ():
    return True
  if w == ('nor',):
    return False
  for v in words:
    n = len(w)
    if head and tail:
      spots = [v]
    elif head:
      spots = [v[:n]]
    elif tail:
      spots = [v[-n:]]
    else:
      spots = [v[i:i + n] for i in range(len(v))]
    if w in spots:
      return True
  return False


def contains(x, y, head=False, tail=False):
  if x.any() or y.any():
    return not any(z.kind == 'sym' and z.name == 'nor' for z in (x, y))
  a, b = x.words(), y.words()
  return any(has(a, w, head, tail) for w in b)


def empty(x):
  return x.kind != 'sym' and not x.items


def head_matches(x, y):
  return y.any() if not empty(x) and empty(y) else contains(x, y, head=True)


def tail_matches(x, y):
  return y.any() if not empty(x) and empty(y) else contains(x, y, tail=True)


RELATIONS = {
    'accepts': accepts,
    'is_equivalent': lambda x, y: accepts(x, y, True),
    'contains': contains,
    'contains head': lambda x, y: contains(x, y, True),
    'contains tail': lambda x, y: contains(x, y, False, True),
    'matches': lambda x, y: contains(x, y, True, True),
    'head_matches': head_matches, 'tail_matches': tail_matches,
    'is_prefix': lambda x, y: head_matches(y, x), 'is_suffix': lambda x, y: tail_matches(y, x),
    'is_contained': lambda x, y: contains(y, x)}
REAL = {'contains head': lambda x, y: x.contains(y, match_head=True),
        'contains tail': lambda x, y: x.contains(y, match_tail=True)}


def real(name, x, y):
  return REAL[name](x, y) if name in REAL else getattr(x, name)(y)


def main(c):
  c.build([])
  c.direct = True
  from nisaba.scripts.natural_translit.utils import expression as ex
  from nisaba.scripts.natural_translit.utils import symbol
  S = symbol.Symbol
  syms = {n: S(n, n, n, index=k) for k, n in enumerate('ab')}
  names = {id(s): n for n, s in syms.items()}
  names.update({id(s): s.alias for s in S.CTRL})

  def words(e):
    """The words of a real expression, by name; fresh symbols get their own."""
    out = []
    for w in e.symbols():
      word = []
      for s in w:
        if s is S.CTRL.eps:
          if len(w) > 1:
            return 'empty symbol inside %s' % [x.alias for x in w]
          continue
        word.append(names.get(id(s), '?'))
      out.append(tuple(word))
    return out

  def plain(ws):
    return [tuple(x if isinstance(x, str) else '?' for x in w) for w in ws]

  def show(n, e):
    return {'expression': n.text(), 'real': str(e)}

  leaves = [(Node('sym', name=n), ex.Atomic(s)) for n, s in syms.items()]
  ctrl = [(Node('sym', name=n), getattr(ex.Atomic.CTRL, n)) for n in ('eps', 'nor', 'bos')]
  everything = [(ANY, ex.Expression.ANY)]
  raw = [(Node('sym', name=n), s) for n, s in syms.items()]
  raw.append((Node('sym', name='eps'), S.CTRL.eps))

  def make(kind, parts):
    n = Node(kind, extend(kind, (), [p[0] for p in parts]))
    e = {'cat': ex.Cat, 'or': ex.Or}[kind](*[p[1] for p in parts])
    return n, e

  checked = [0]

  def verify(n, e, parts=()):
    checked[0] += 1
    if e.is_any() != n.any():
      c.violation('is_any', **show(n, e))
    if n.any() or not plainly(n):
      return
    got = words(e)
    if got != plain(n.words()):
      c.violation('symbols', expected=plain(n.words()), got=got, **show(n, e))
    if e.state_count() != n.states():
      c.violation('state_count', expected=n.states(), got=e.state_count(), **show(n, e))
    if len(e) != (1 if n.kind == 'sym' else len(n.items)):
      c.violation('items', expected=len(n.items), got=len(e), **show(n, e))
    for p, before in parts:
      if not p[0].any() and words(p[1]) != before:
        c.violation('operand changed', operand=p[0].text(), **show(n, e))

  def plainly(n):
    """Without ANY inside."""
    return n.kind == 'sym' or (n.kind != 'any' and all(plainly(x) for x in n.items))

  def uniq(objs):
    seen, out = set(), []
    for n, e in objs:
      if n.text() not in seen:
        seen.add(n.text())
        out.append((n, e))
    return out

  # 1. Construction: Cat and Or of up to three parts, then of these.
  level0 = leaves + ctrl[:1] + everything
  level1 = []
  for kind in ('cat', 'or'):
    for k in range(4):
      for parts in itertools.product(leaves + ctrl + raw + everything if k < 3 else level0,
                                     repeat=k):
        if kind == 'cat' and k > 1 and any(p[0].any() for p in parts):
          continue
        n, e = make(kind, parts)
        verify(n, e)
        level1.append((n, e))
  for p in leaves + ctrl + everything:
    for e, n in ((p[1].repeat(), Node('cat', extend('cat', (), [p[0]] * 2))),
                 (p[1].repeat(3), Node('cat', extend('cat', (), [p[0]] * 3))),
                 (p[1].repeat(0), Node('cat')),
                 (p[1].ques(), Node('or', extend('or', (), [Node('cat'), p[0]]))),
                 (p[1].ques(True), Node('or', extend('or', (), [p[0], Node('cat')])))):
      if not (p[0].any() and n.kind == 'cat'):
        verify(n, e)
        level1.append((n, e))
  level1 = [(n, e) for n, e in uniq(level0 + ctrl + level1)]
  clean = [(n, e) for n, e in level1 if n.any() or plainly(n)]
  before = {id(e): (None if n.any() else words(e)) for n, e in clean}
  level2 = []
  for p, q in itertools.product(clean, repeat=2):
    parts = [(x, before[id(x[1])]) for x in (p, q)]
    for kind, sym_ in (('cat', '+'), ('or', '|')):
      if kind == 'cat' and (p[0].any() or q[0].any()):
        continue
      n, e = make(kind, (p, q))
      verify(n, e, parts)
      f = p[1] + q[1] if kind == 'cat' else p[1] | q[1]
      verify(n, f, parts)
      level2.append((n, e))
  c.count('construction', states=len(level1), transitions=checked[0], depth=2)
  level2 = uniq(level2)

  # Three levels: optional and repeated parts next to each other.
  if c.thorough:
    small = [(n, e) for n, e in level2 if plainly(n) and n.states() <= 3]
    for p, q in itertools.product(small, leaves + clean[:30]):
      for kind in ('cat', 'or'):
        for parts in ((p, q), (q, p)):
          if kind == 'cat' and any(x[0].any() for x in parts):
            continue
          verify(*make(kind, parts))
    c.count('construction, depth 3', states=len(small), transitions=checked[0])

  # 2. Copies: equal, and growing one does not grow the other.
  for n, e in clean + level2[:]:
    if n.any() or not plainly(n) or n.kind == 'sym':
      continue
    f = e.copy()
    if words(f) != words(e) and '?' not in str(words(e)):
      # A copy is rebuilt from the items, so it may drop redundant alternatives only.
      if set(words(f)) != set(words(e)):
        c.violation('copy', copy=str(f), **show(n, e))
    w = words(e)
    f.add(*[x[1] for x in leaves])
    f.add(leaves[0][1])
    if words(e) != w:
      c.violation('copy is not independent', **show(n, e))
    g = e.copy()
    w = words(g)
    if type(g) is not type(e):
      c.violation('copy type', **show(n, e))

  # 3. Relations between any two expressions.
  objs = [(n, e) for n, e in clean]
  two = [(n, e) for n, e in level2 if plainly(n) and (c.thorough or n.states() <= 4)]
  reps, seen = [], set()
  for n, e in two:
    key = (n.kind, len(n.items) == 0, tuple(plain(n.words())))
    if key not in seen:
      seen.add(key)
      reps.append((n, e))
  pairs = 0
  data = objs + reps
  known = {n for n, _ in objs} if not c.thorough else {n for n, _ in data}
  known |= {n for n, _ in reps[::1] if n.states() <= 3}
  by_words = {}
  for n, e in objs + two:
    if not n.any():
      by_words.setdefault(frozenset(plain(n.words())), []).append((n, e))
  same = [(x, y) for g in by_words.values() for x in g[:12] for y in g[:12]]
  some = [('accepts', accepts), ('is_equivalent', RELATIONS['is_equivalent'])]
  few = objs if not c.thorough else data
  for (n, e), (m, f) in itertools.chain(itertools.product(few, data), same,
                                        itertools.product(reps, objs) if not c.thorough else ()):
    pairs += 1
    for name, ref in RELATIONS.items() if n in known and m in known else some:
      want = ref(n, m)
      got = real(name, e, f)
      if bool(got) != want:
        c.violation('%s' % name, left=n.text(), right=m.text(), expected=want, got=bool(got))
    if e.contains(f, match_head=True, match_tail=True) != contains(n, m, True, True):
      c.violation('contains both', left=n.text(), right=m.text())
  c.count('relations', states=len(data), transitions=pairs * len(RELATIONS))

  alignments(c, ex, S, objs, words)


def alignments(c, ex, S, objs, words):
  A = ex.Alignment
  small = [x for x in objs if x[0].kind in ('any', 'sym') and x[0].name not in ('bos',)]
  more = [x for x in objs if x[0].kind in ('cat', 'or') and x[0].states() <= 2]
  more = [x for x in more if x[0].text() in
          ('cat()', 'or()', 'cat(a, b)', 'or(a, b)', 'or(cat(), a)', 'cat(b, a)')]
  sides = small + more
  n = 0
  pairs = [(x, y) for x in sides for y in sides]
  some = pairs if c.thorough else [p for p in pairs if p[0] in small or p[1] in small]
  rights = [p for p in pairs if c.thorough or p[0] in small[:4]]
  for (l, r), (m, s) in itertools.product(some, rights):
    n += 1
    x, y = l[1] >> r[1], m[1] >> s[1]
    for name, ref in RELATIONS.items():
      if name.startswith('contains '):
        continue
      want = ref(l[0], m[0]) and ref(r[0], s[0])
      if bool(real(name, x, y)) != want:
        c.violation('alignment/' + name, left='%s:%s' % (l[0].text(), r[0].text()),
                    right='%s:%s' % (m[0].text(), s[0].text()), expected=want)
  c.count('alignments', states=len(pairs), transitions=n)

  # Rules: what is stored, and in which contexts they apply.
  def side(x):
    return x[1]
  op = ex.op.Operation.COMMON
  a, b = side(small[0]), side(small[1])
  n = 0
  ctx = [(l, r) for l in sides for r in sides if l in small or r in small]
  probes = [(l, r) for l in sides for r in sides if l in small]
  for bos, eos in itertools.product((False, True), repeat=2):
    for pre in ctx:
      rule = A.rule('r', a >> b, pre[0][1] >> pre[1][1], ex.Alignment.ANY, from_bos=bos, to_eos=eos)
      rule2 = A.rule('r', a >> b, ex.Alignment.ANY, pre[0][1] >> pre[1][1], from_bos=bos,
                     to_eos=eos)
      cp, cp2 = rule.copy(), rule2.copy()
      for got in probes:
        n += 1
        at = got[0][1] >> got[1][1]
        f = contains_both if bos else suffix
        want = f(pre[0][0], got[0][0]) and f(pre[1][0], got[1][0])
        g = contains_both if eos else prefix
        want2 = g(pre[0][0], got[0][0]) and g(pre[1][0], got[1][0])
        for q, q2 in ((rule, rule2), (cp, cp2)):
          if bool(q.context_matches(at, A.ANY)) != want:
            c.violation('rule/preceding', rule=q.string(), context=str(at), bos=bos, expected=want)
          if bool(q2.context_matches(A.ANY, at)) != want2:
            c.violation('rule/following', rule=q2.string(), context=str(at), eos=eos,
                        expected=want2)
  c.count('rules in context', states=len(ctx) * 4, transitions=n)
  kinds = {}
  for pre, fol in itertools.product(ctx[:12], repeat=2):
    P, Q = pre[0][1] >> pre[1][1], fol[0][1] >> fol[1][1]
    for bos, eos, prio, cost in itertools.product((False, True), (False, True), (0, 3),
                                                  (None, 2.5)):
      kw = dict(from_bos=bos, to_eos=eos, priority=prio)
      if cost is not None:
        kw['applied_cost'] = cost
      made = {'rule': A.rule('x', a >> b, P, Q, **kw), 'deletion': A.deletion('x', a, P, Q, **kw),
              'insertion': A.insertion('x', b, P, Q, **kw)}
      made['l2r'], made['r2l'] = A.interchangeable('x', a >> b, P, Q, **kw)
      want = {'rule': ('a', 'b', op.alignable), 'deletion': ('a', 'eps', op.deletion),
              'insertion': ('eps', 'b', op.insertion), 'l2r': ('a', 'b', op.interchangeable),
              'r2l': ('b', 'a', op.interchangeable)}
      for k, r in list(made.items()) + [(k + ' copy', r.copy()) for k, r in made.items()]:
        l, rr, o = want[k.split()[0]]
        got = (r.left.alias, r.right.alias, r.operation)
        if got != (l, rr, o):
          c.violation('rule sides/' + k, got=[str(x) for x in got])
        if (r.from_bos, r.to_eos, r.priority) != (bos, eos, prio):
          c.violation('rule fields/' + k, rule=r.string())
        if r.applied_cost != (cost if cost is not None else float(o.base_cost)):
          c.violation('rule cost/' + k, rule=r.string(), got=r.applied_cost)
        if r.source != ex.AlignmentSource.NATIVE:
          c.violation('rule source/' + k, got=str(r.source))
        for s_, p_ in ((r.preceding, P), (r.following, Q)):
          if not all(x.is_equivalent(y) or x is y or str(x) == str(y) for x, y in
                     ((s_.left, p_.left), (s_.right, p_.right))):
            c.violation('rule context/' + k, rule=r.string())
      kinds[bos, eos, prio, cost] = 1
  c.count('rule constructors', states=144 * len(kinds), transitions=144 * len(kinds) * 10)


def contains_both(rule, got):
  return contains(rule, got, True, True)


def suffix(rule, got):
  return tail_matches(got, rule)


def prefix(rule, got):
  return head_matches(got, rule)


check.run('P16', main)
