"""P15: feature distances, sets and profiles behave as their definitions say."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check

ERR = 1_000_000


def trees(n, depth):
  """All ordered trees with n leaves (inner nodes below the root have 2 or more children)."""
  if n == 1:
    yield 'leaf'
  if depth == 0:
    return
  for parts in compositions(n):
    if len(parts) < 2:
      continue
    yield from itertools.product(*[list(trees(p, depth - 1)) for p in parts])


def compositions(n):
  if n == 0:
    yield ()
  for k in range(1, n + 1):
    for rest in compositions(n - k):
      yield (k,) + rest


def inner(t):
  return 0 if t == 'leaf' else 1 + sum(map(inner, t))


def main(c):
  c.build([])
  c.direct = True
  from nisaba.scripts.natural_translit.utils import feature
  F = feature.Feature
  make = {'e': F.equidistant, 'l': F.linear, 'c': F.cyclic}

  def ref_dist(kind, step, n, i, j):
    d = abs(i - j)
    if kind == 'e':
      return step
    return step * (d if kind == 'l' else min(d, n - d))

  # 1. Distances inside an aspect: every shape of nested lists, every type of list.
  def build(t, labels, name, leaves, path):
    """ValueList of the tree; leaves: [(feature, path)]."""
    kind, step = next(labels)
    items = []
    for k, x in enumerate(t):
      p = path + ((name, kind, step, len(t), k),)
      if x == 'leaf':
        f = F('f%d' % len(leaves))
        leaves.append((f, p))
        items.append(f)
      else:
        items.append(build(x, labels, '%s_%d' % (name, k), leaves, p))
    vl = make[kind](name, *items, step=step)
    for i, j in itertools.permutations(range(len(items)), 2):
      if abs(vl.distance(items[i], items[j]) - ref_dist(kind, step, len(items), i, j)) > 1e-9:
        c.violation('list distance', kind=kind, step=step, size=len(items), items=[i, j],
                    got=vl.distance(items[i], items[j]))
    return vl

  def expected(p, q):
    for a, b in zip(p, q):
      if a != b:
        return ref_dist(a[1], a[2], a[3], a[4], b[4])
    return 0

  labels = [(k, s) for k in 'elc' for s in ((1, 0.5, 0) if c.thorough else (1, 0.5))]
  most = 5 if c.thorough else 4
  n_aspects = n_pairs = 0
  for n in range(1, most + 1):
    for t in trees(n, 3) if n > 1 else [('leaf',)]:
      for lab in itertools.product(labels, repeat=inner(t)):
        leaves = []
        asp = F.Aspect(build(t, iter(lab), 'root', leaves, ()))
        inv = F.Inventory('inv', asp)
        n_aspects += 1
        fs = [f for f, _ in leaves]
        top = 0
        if list(asp) != fs or set(asp.all) != set(fs):
          c.violation('aspect items', tree=t, got=[f.alias for f in asp])
        for f, p in leaves:
          for g, q in leaves:
            n_pairs += 1
            want = expected(p, q)
            top = max(top, want)
            if abs(f.distance(g) - want) > 1e-9:
              c.violation('distance', tree=t, lists=lab, features=[f.alias, g.alias],
                          expected=want, got=f.distance(g))
        if abs(asp.max_dist - top) > 1e-9:
          c.violation('largest distance', tree=t, lists=lab, expected=top, got=asp.max_dist)
        for f in fs:
          if f.distance(asp.any) != 0 or asp.any.distance(f) != 0:
            c.violation('any', tree=t, lists=lab)
          if f.distance(asp.n_a) != asp.max_dist or asp.n_a.distance(f) != asp.max_dist:
            c.violation('not applicable', tree=t, lists=lab)
  c.count('distances', states=n_aspects, transitions=n_pairs, leaves=most)

  # 2. The inventories of the repository, by the same definition.
  from nisaba.scripts.natural_translit.phonology.features import descriptive, language
  from nisaba.scripts.natural_translit.script import grapheme
  from nisaba.scripts.natural_translit.utils import symbol
  shipped = {'descriptive': descriptive.FEATURES, 'grapheme': grapheme.Grapheme.GR_FEATURES,
             'symbol': symbol.Symbol.SYM_FEATURES}
  names = {F.ValueListType.EQUIDISTANT: 'e', F.ValueListType.LINEAR: 'l',
           F.ValueListType.CYCLIC: 'c'}

  def paths(vl, path, out):
    items = list(vl)
    for k, x in enumerate(items):
      p = path + ((id(vl), names[vl.list_type], vl.step, len(items), k),)
      if isinstance(x, F.ValueList):
        paths(x, p, out)
      else:
        out[x] = p
    return out
  pairs = 0
  for name, inv in shipped.items():
    for asp in inv:
      p = paths(asp.root_list, (), {})
      if set(p) != set(asp):
        c.violation('%s/%s: features' % (name, asp.alias))
      for f, g in itertools.product(p, repeat=2):
        pairs += 1
        want = expected(p[f], p[g])
        if abs(f.distance(g) - want) > 1e-9:
          c.violation('%s: distance %s %s' % (name, f.alias, g.alias), expected=want,
                      got=f.distance(g))
        if f.inventory is not inv or f.aspect is not asp:
          c.violation('%s: %s does not know where it is' % (name, f.alias))
      for f in p:
        q = p[f]
        lists = {x[0] for x in q}
        for vl in all_lists(asp.root_list, F):
          if f.is_in(vl) != (id(vl) in lists) or vl.has_feature(f) != (id(vl) in lists):
            c.violation('%s: %s in %s' % (name, f.alias, vl.alias), got=f.is_in(vl))
        if not f.is_in(asp) or not asp.has_feature(f):
          c.violation('%s: %s in its aspect' % (name, f.alias))
        for other in inv:
          if other is not asp and (f.is_in(other) or f.distance(other.any) != ERR):
            c.violation('%s: %s in %s' % (name, f.alias, other.alias))
  c.count('shipped inventories', states=pairs, transitions=pairs)

  # 3. Sets against the algebra of sets; ranges; profiles.
  def world():
    a = F.Aspect(F.linear('a', F('a1'), F.equidistant('al', F('a2'), F('a3'), step=0.25), F('a4')))
    b = F.Aspect(F.cyclic('b', F('b1'), F('b2'), F('b3'), F('b4'), F('b5'), step=0.5))
    inv = F.Inventory('inv', a, b)
    return inv, a, b
  inv, a, b = world()
  inv2 = F.Inventory('inv2', F.Aspect(F.equidistant('z', F('z1'), F('z2'))))
  uni = [inv.a.a1, inv.a.a2, inv.a.a4, inv.b.b1, inv.b.b3, inv.a.any, inv2.z.z1]
  if c.thorough:
    uni += [inv.a.n_a]
  subs = [frozenset(x) for k in range(len(uni) + 1) for x in itertools.combinations(uni, k)]

  def dist1(f, g):
    if f.aspect is not g.aspect:
      return ERR
    if f is g or f is f.aspect.any or g is f.aspect.any:
      return 0
    if f is f.aspect.n_a or g is f.aspect.n_a:
      return f.aspect.max_dist
    return f.distance(g)

  def dist(x, y):
    return min([ERR] + [dist1(f, g) for f in x for g in y])
  n = 0
  memo = {}
  for x in subs:
    for y in subs:
      n += 1
      X, Y = F.Set(*x), F.Set(list(y))
      ops = {
          'union': (X.union(Y), x | y), 'intersection': (X.intersection(Y), x & y),
          'difference': (X.difference(*y), x - y), 'copy': (X.copy(), x),
          'add': (F.Set(X).add(Y), x | y), 'remove': (F.Set(X).remove(Y), x - y),
          'update': (F.Set(X).update(Y), y), 'reset': (F.Set(X).reset(), frozenset()),
          'nested': (F.Set([X, (f for f in y)]), x | y),
          'replace': (F.Set(X).replace((Y,), (inv.a.a1,)), (x - y) | {inv.a.a1})}
      for name, (got, want) in ops.items():
        if frozenset(got) != want or len(got) != len(want):
          c.violation('set/' + name, a=sorted(f.alias for f in x), b=sorted(f.alias for f in y),
                      got=sorted(f.alias for f in got))
      if frozenset(X) != x or frozenset(Y) != y:
        c.violation('set/operands change', a=sorted(f.alias for f in x),
                    b=sorted(f.alias for f in y))
      if X.is_equal(Y) != (x == y):
        c.violation('set/is_equal', a=sorted(f.alias for f in x), b=sorted(f.alias for f in y))
      d = dist(x, y)
      for got in (X.distance(Y), Y.distance(X)):
        if abs(got - d) > 1e-9:
          c.violation('set/distance', a=sorted(f.alias for f in x),
                      b=sorted(f.alias for f in y), expected=d, got=got)
      memo[x, y] = d
    groups = F.Set.group_by_aspect(X)
    flat = {f: (i, s) for i, d in groups.items() for s, v in d.items() for f in v}
    if set(flat) != x or any(i is not f.inventory or s is not f.aspect for f, (i, s) in flat.items()):
      c.violation('set/group_by_aspect', a=sorted(f.alias for f in x))
    gen = {inv.a.any, inv.a.n_a, inv.b.any, inv.b.n_a}
    if frozenset(X.non_generic()) != x - gen:
      c.violation('set/non_generic', a=sorted(f.alias for f in x))
    for asp in (inv.a, inv.b, inv2.z):
      if frozenset(asp.filter(X)) != {f for f in x if f.aspect is asp}:
        c.violation('aspect/filter', a=sorted(f.alias for f in x))
    al = inv.a.al
    for v in list(inv.a) + list(inv.b) + [al, inv.a.a, inv.b.b]:
      kids = {v} if isinstance(v, F) else set(v.set())
      want = bool(x & kids)
      if X.has_feature(v) != want or v.is_in(X) != want:
        c.violation('set/has_feature', a=sorted(f.alias for f in x), value=v.alias, expected=want)
  c.count('sets', states=len(subs), transitions=n * 12)

  # Histories of changes to a set, against a frozenset.
  acts = []
  for y in [frozenset(), frozenset(uni[:1]), frozenset(uni[1:3]), frozenset(uni[3:5])]:
    acts += [('add', y), ('remove', y), ('update', y)]
  acts += [('replace', (frozenset(uni[:2]), frozenset(uni[2:4]))), ('reset', None)]
  depth = 4 if c.thorough else 3
  steps = 0
  for h in itertools.product(acts, repeat=depth):
    s, m = F.Set(uni[0]), frozenset(uni[:1])
    kept = []
    for op, y in h:
      kept.append((s.copy(), m))
      steps += 1
      if op == 'add':
        s.add(*y)
        m |= y
      elif op == 'remove':
        s.remove(*y)
        m -= y
      elif op == 'update':
        s.update(*y)
        m = y
      elif op == 'reset':
        s.reset()
        m = frozenset()
      else:
        s.replace(tuple(y[0]), tuple(y[1]))
        m = (m - y[0]) | y[1]
      if frozenset(s) != m:
        c.violation('set history', history=[str(x[0]) for x in h], op=op)
    if any(frozenset(k) != v for k, v in kept):
      c.violation('set history: a copy changed', history=[str(x[0]) for x in h])
  c.count('set histories', states=len(acts) ** depth, transitions=steps, depth=depth)

  # Ranges.
  n = 0
  for size in range(2, 6):
    for kind in 'elc':
      for nest in range(size + 1):
        items, leaf = [], []
        for k in range(size):
          if k == nest:
            inner_ = [F('n1'), F('n2')]
            items.append(F.equidistant('nest', *inner_))
            leaf.append(inner_)
          else:
            items.append(F('f%d' % k))
            leaf.append([items[-1]])
        vl = make[kind]('list', *items)
        asp = F.Aspect(vl)
        F.Inventory('i', asp)
        for i, j in itertools.permutations(range(size), 2):
          n += 1
          idx, k = [], i
          while True:
            idx.append(k)
            if k == j:
              break
            k = (k + 1) % size
          want = {f for k in idx for f in leaf[k]}
          got = set(vl.range(items[i], items[j]))
          if got != want:
            c.violation('range', size=size, first=i, last=j, nested=nest, kind=kind,
                        got=sorted(f.alias for f in got))
          asp.set_range('r_%d_%d' % (i, j), items[i], items[j])
          if set(asp.get('r_%d_%d' % (i, j))) != want:
            c.violation('set_range', size=size, first=i, last=j, nested=nest, kind=kind)
          asp.set_not('not_%d_%d' % (i, j), *want)
          if set(asp.get('not_%d_%d' % (i, j))) != set(asp) - want:
            c.violation('set_not', size=size, first=i, last=j, nested=nest, kind=kind)
  c.count('ranges', states=n, transitions=n)

  profiles(c, F, world)


def all_lists(vl, F):
  yield vl
  for x in vl:
    if isinstance(x, F.ValueList):
      yield from all_lists(x, F)


def profiles(c, F, world):
  inv, a, b = world()
  inv2 = F.Inventory('inv2', F.Aspect(F.equidistant('z', F('z1'), F('z2'))))
  A = [(), (inv.a.a1,), (inv.a.a2, inv.a.a3), (inv.a.a4, inv.a.a1), (inv.a.n_a,)]
  B = [(), (inv.b.b1,), (inv.b.b2, inv.b.b4), (inv.b.b5,), (inv.b.any, inv.b.b1)]

  def value(x, asp, default):
    return frozenset(x) if x else frozenset([default(asp)])

  def d1(f, g):
    return f.distance(g)
  specs = list(itertools.product(A, B, (False, True)))
  made = []
  for k, (x, y, na) in enumerate(specs):
    p = F.Profile(inv, 'p%d' % k, *x, list(y), inv2.z.z1, unspecified_aspect_n_a=na)
    default = (lambda s: s.n_a) if na else (lambda s: s.any)
    m = {inv.a: value(x, inv.a, default), inv.b: value(y, inv.b, default)}
    made.append((p, m))
    for asp, v in m.items():
      if frozenset(p.get(asp)) != v:
        c.violation('profile/get', aspect=asp.alias, features=[f.alias for f in x + y],
                    got=sorted(f.alias for f in p.get(asp)))
    if frozenset(p.get(inv2.z)) != {inv2.z.n_a}:
      c.violation('profile/get of another inventory')
    for asp in (inv.a, inv.b):
      if asp.is_applicable(p) != (asp.n_a not in m[asp]):
        c.violation('profile/is_applicable', aspect=asp.alias)
    for v in list(inv.a) + list(inv.b) + [inv.a.al]:
      kids = {v} if isinstance(v, F) else set(v.set())
      want = any(kids & s for s in m.values())
      if p.has_feature(v) != want or v.is_in(p) != want:
        c.violation('profile/has_feature', value=v.alias, expected=want,
                    profile=[f.alias for f in x + y])
  n = 0
  for (p, m), (q, o) in itertools.product(made, repeat=2):
    for aspects in ([inv.a, inv.b], [inv.a], [inv.b]):
      n += 1
      total = sum(min(d1(f, g) for f in m[s] for g in o[s]) for s in aspects)
      want = 1 - total / sum(s.max_dist for s in aspects)
      got = p.similarity(q, aspects) if len(aspects) < 2 else p.similarity(q)
      if abs(got - want) > 1e-9 or not 0 <= got <= 1:
        c.violation('profile/similarity', p=p.alias, q=q.alias, expected=want, got=got,
                    aspects=[s.alias for s in aspects])
      r = p.compare(q, aspects)
      if abs(r['similarity'] - want) > 1e-9 or p.comparison_table(q, aspects) != r['text']:
        c.violation('profile/compare', p=p.alias, q=q.alias)
      rows = [[x.strip() for x in l.strip('|').split('|')] for l in r['text'].splitlines()
              if l.startswith('|')]
      rows = {x[0]: x[3] for x in rows[2:]}
      table = {'Total distance': round(total, 2), 'Similarity': round(want, 3)}
      for s in aspects:
        d = min(d1(f, g) for f in m[s] for g in o[s])
        if d:
          table[s.alias] = round(d, 2)
      if {k: float(v) for k, v in rows.items()} != table:
        c.violation('profile/table', p=p.alias, q=q.alias, text=r['text'], expected=table)
  z = F.Profile(inv2, 'z')
  if made[0][0].similarity(z) != 0 or z.similarity(made[0][0]) != 0:
    c.violation('profile/other inventories are not comparable')
  c.count('profiles', states=len(made), transitions=n)

  # Histories: update and copy of profiles, and of several profiles together.
  acts = [('update', (inv.a.a1,)), ('update', (inv.a.a2, inv.b.b2)), ('update', (inv2.z.z1,)),
          ('update', ()), ('update', (inv.b.n_a,)), ('copy', None), ('new', 0), ('new', 1),
          ('other', None), ('multi copy', None)]
  depth = 4 if c.thorough else 3
  steps = 0
  for h in itertools.product(acts, repeat=depth):
    p = F.Profile(inv, 'p', inv.b.b5)
    m = {inv.a: frozenset([inv.a.any]), inv.b: frozenset([inv.b.b5])}
    mp, mm, mz = F.MultiProfile('m'), None, None
    old = []
    base = [F.Profile(inv, 'base0', inv.a.a4), F.Profile(inv, 'base1', inv.b.b1,
                                                        unspecified_aspect_n_a=True)]
    bm = [{inv.a: {inv.a.a4}, inv.b: {inv.b.any}}, {inv.a: {inv.a.n_a}, inv.b: {inv.b.b1}}]
    zp = F.Profile(inv2, 'zz', inv2.z.z2)
    for op, x in h:
      steps += 1
      if op == 'update':
        p.update(*x)
        new = {}
        for f in x:
          if f.inventory is inv:
            new[f.aspect] = new.get(f.aspect, frozenset()) | {f}
        m = {**m, **new}
        if mp.has_profile(inv):
          mp.get(inv).update(*x)
          mm = {**mm, **new}
      elif op == 'copy':
        old.append((p, dict(m)))
        p = p.copy('q')
      elif op == 'new':
        got = mp.new_profile(base[x])
        if got is base[x]:
          c.violation('multi profile/not a copy')
        mm = {k: frozenset(v) for k, v in bm[x].items()}
      elif op == 'other':
        mp.new_profile(zp)
        mz = frozenset([inv2.z.z2])
      else:
        old.append((mp.get(inv) if mm else F.Profile(inv, 'x', inv.b.b5), dict(mm) if mm else
                    {inv.a: frozenset([inv.a.any]), inv.b: frozenset([inv.b.b5])}))
        mp = mp.copy()
      state = [(p, m)] + old + list(zip(base, bm))
      if mm:
        state.append((mp.get(inv), mm))
      for q, want in state:
        if any(frozenset(q.get(s)) != frozenset(want[s]) for s in want):
          c.violation('profile history', history=[o for o, _ in h], op=op,
                      got={s.alias: sorted(f.alias for f in q.get(s)) for s in want},
                      expected={s.alias: sorted(f.alias for f in want[s]) for s in want})
      if mp.has_profile(inv) != (mm is not None) or mp.has_profile(inv2) != (mz is not None):
        c.violation('multi profile/has_profile', history=[o for o, _ in h])
      if mm is None and mp.get(inv) is not inv.not_applicable:
        c.violation('multi profile/default', history=[o for o, _ in h])
      if mz and frozenset(mp.get(inv2).get(inv2.z)) != mz:
        c.violation('multi profile/other', history=[o for o, _ in h])
  c.count('profile histories', states=len(acts) ** depth, transitions=steps, depth=depth)
  c.traces += steps
  c.sample({'history': [o for o, _ in h]})


check.run('P15', main)
