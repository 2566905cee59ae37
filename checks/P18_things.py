"""P18: iterable things, lists of FSTs, lattices and comparisons follow their definitions."""
import itertools, os, sys
from typing import Union
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check


def main(c):
  c.build([])
  c.direct = True
  import pynini as pyn
  from nisaba.scripts.natural_translit.utils import fst_list, lattice, log_op, type_op as ty
  iterables(c, ty)
  equality(c, ty, pyn, log_op)
  fst_lists(c, fst_list, pyn)
  lattices(c, lattice, pyn)


def iterables(c, ty):
  I = ty.IterableThing
  inner = I(0, 'q')

  class Sub(I):
    pass
  sub = Sub(7)
  atoms = [0, 'ab', '', None, ty.MISSING, [1, 'c'], (2, [3, ty.UNSPECIFIED]), {'k': 1}, inner, sub,
           [inner], 1.5, True, [], ty.Thing('t')]
  kinds = [None, int, str, Union[int, I], Union[int, str], list, ty.Nothing, float, ty.Thing]

  def valid(x, typed):
    if typed is None:
      return not isinstance(x, ty.Nothing) and type(x) is not I
    members = getattr(typed, '__args__', (typed,))
    return isinstance(x, members)

  def flat(xs, typed):
    for x in xs:
      if valid(x, typed):
        yield x
      elif isinstance(x, str):
        pass
      elif isinstance(x, I) or isinstance(x, (list, tuple, dict)):
        yield from flat(list(x), typed)
  n = 0
  for typed in kinds:
    for k in range(4 if c.thorough else 3):
      for xs in itertools.product(atoms, repeat=k):
        n += 1
        kw = {} if typed is None else {'typed': typed}
        want = list(flat(xs, typed))
        one = I(*xs, alias='i', **kw)
        two = I(alias='i', **kw)
        for x in xs:
          if two.add(x) is not two:
            c.violation('iterable/add result')
        for it in (one, two):
          got = list(it)
          if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
            c.violation('iterable/items', typed=str(typed), added=[str(x) for x in xs],
                        got=[str(x) for x in got], expected=[str(x) for x in want])
          if len(it) != len(want) or bool(it) != bool(want):
            c.violation('iterable/length', typed=str(typed), added=[str(x) for x in xs])
          for i in range(-len(want) - 2, len(want) + 2):
            ok = -len(want) <= i < len(want)
            if it.item(i) is not (want[i] if ok else ty.MISSING) or \
                it.item(i, 'no') is not (want[i] if ok else 'no'):
              c.violation('iterable/item', typed=str(typed), index=i, size=len(want))
  c.count('iterables', states=n, transitions=n * 2)
  if list(inner) != [0, 'q'] or list(sub) != [7]:
    c.violation('iterable/argument changed')
  n = 0
  values = [ty.UNSPECIFIED, ty.MISSING, 0, 'v', ty.Thing('w', value_from=3), None, []]
  for alias, text, v, attr in itertools.product(('', 'a'), ('', 't'), values,
                                                ('', 'alias', 'value', 'nope')):
    n += 1
    t = ty.Thing(alias, text, v, attr)
    if isinstance(v, ty.Nothing):
      want = t
    else:
      want = getattr(v, attr, v) if attr else v
    if t.value is not want:
      c.violation('thing/value', alias=alias, value=str(v), attribute=attr, got=str(t.value))
    if (alias and t.alias != alias) or not t.alias or (text and not t.text.startswith(text)):
      c.violation('thing/names', alias=alias, text=text, got=[t.alias, t.text])
  c.count('things', states=n, transitions=n)


def equality(c, ty, pyn, log_op):
  t5, t5b, t6 = (ty.Thing('x', value_from=5), ty.Thing('y', value_from=5),
                 ty.Thing('x', value_from=6))
  plain = ty.Thing('plain')
  a1, a2, b = pyn.accep('a'), pyn.accep('a'), pyn.accep('b')
  u, v = pyn.union('a', 'b').optimize(), pyn.union('a', 'b').optimize()
  # (object, class of equal objects); None: equal to nothing.
  objs = [(5, 'five'), (t5, 'five'), (t5b, 'five'), (6, 'six'), (t6, 'six'), (plain, 'plain'),
          ('5', "'5'"), ('a', 'str a'), (a1, 'str a'), (a2, 'str a'), (b, 'fst b'), ('b', 'fst b'),
          (u, 'union'), (v, 'union'), (ty.MISSING, None), (ty.UNSPECIFIED, None),
          (ty.Thing('z', value_from=ty.Thing('w', value_from=5)), 'thing'), (None, 'none'),
          ([1], 'list'), ([1], 'list'), ([], 'empty list'), ('', 'empty string')]
  for (x, i), (y, j) in itertools.product(objs, repeat=2):
    want = i is not None and i == j
    if ty.is_equal(x, y) != want:
      c.violation('is_equal', left=str(x)[:60], right=str(y)[:60], expected=want)
  for x, _ in objs:
    if ty.value_of(x) is not (x.value if isinstance(x, ty.Thing) else x):
      c.violation('value_of', object=str(x)[:60])
    if ty.is_string(x) != (isinstance(x, str) or (isinstance(x, pyn.Fst) and x not in (u, v))):
      c.violation('is_string', object=str(x)[:60])
    for default in (5, 'a', ty.MISSING, [], {}, plain):
      got = ty.type_check(x, default)
      if got is not (x if isinstance(x, type(default)) else default):
        c.violation('type_check', object=str(x)[:60], default=str(default))
    for f in (log_op.dbg_return,):
      if f(x) is not x or f(x, 'message') is not x:
        c.violation('dbg_return', object=str(x)[:60])
    if not log_op.text_of(x) or log_op.class_of(x) != type(x).__name__:
      c.violation('text_of', object=str(x)[:60])
  c.count('comparisons', states=len(objs), transitions=len(objs) ** 2)


def words(fst, pyn, limit=5000):
  if fst.num_states() == 0:
    return set()
  try:
    return {(i, o) for i, o, _ in fst.paths().items()}
  except pyn.FstArgError:
    return None


def fst_lists(c, fst_list, pyn):
  L = fst_list.FstList
  base = [('s', 'ab'), ('s', ''), ('f', 'c'), ('x', ('a', 'b')), ('n', 5), ('n', None)]
  lists = [('l', [b]) for b in base] + [('l', [base[0], ('l', [base[2], base[4]])]), ('l', []),
                                         ('L', [base[2], base[3]])]

  def real(p):
    k, v = p
    if k == 's':
      return v
    if k == 'f':
      return pyn.accep(v)
    if k == 'x':
      return pyn.cross(*v)
    if k == 'n':
      return v
    return [real(x) for x in v] if k == 'l' else L(*[real(x) for x in v])

  def model(p):
    k, v = p
    if k in 'sf':
      return [(v, v)]
    if k == 'x':
      return [v]
    if k == 'n':
      return []
    return [y for x in v for y in model(x)]
  pool = base + lists
  n = 0
  for k in range(4 if c.thorough else 3):
    for parts in itertools.product(pool, repeat=k):
      n += 1
      rels = [r for p in parts for r in model(p)]
      made = L(*[real(p) for p in parts], alias='l')
      shown = str(parts)
      if [words(f, pyn) for f in made] != [{r} for r in rels] or len(made) != len(rels):
        c.violation('fst list/items', parts=shown)
      if words(made.union(), pyn) != set(rels) or words(made.union_opt(), pyn) != set(rels):
        c.violation('fst list/union', parts=shown)
      cat = {(''.join(i for i, _ in rels), ''.join(o for _, o in rels))}
      if words(made.concat(), pyn) != cat:
        c.violation('fst list/concat', parts=shown)
      if [words(f, pyn) for f in made] != [{r} for r in rels]:
        c.violation('fst list/items changed', parts=shown)
      star = made.union_star()
      for i, o in itertools.product(rels + [('', '')], repeat=2):
        x = pyn.cross(i[0] + o[0], i[1] + o[1])
        inside = pyn.compose(pyn.compose(pyn.accep(i[0] + o[0]), star),
                             pyn.accep(i[1] + o[1])).num_states() > 0
        if rels and not inside:
          c.violation('fst list/star', parts=shown, pair=[i, o])
      if rels and k and all(r[0] for r in rels):
        if pyn.compose(pyn.accep('zz'), star).num_states():
          c.violation('fst list/star accepts more', parts=shown)
      # Composition: one after the other.
      if rels:
        comp = made.compose()
        cur = {rels[0]}
        for r in rels[1:]:
          cur = {(i, r[1]) for i, o in cur if o == r[0]}
        if words(comp, pyn) != cur:
          c.violation('fst list/compose', parts=shown, expected=str(cur))
  c.count('fst lists', states=n, transitions=n * 6)
  n = 0
  strings = ['a', '', 'bc']
  for k in range(4):
    for xs in itertools.product(strings, repeat=k):
      n += 1
      if [words(f, pyn) for f in L.accep(*xs)] != [{(x, x)} for x in xs]:
        c.violation('fst list/accep', strings=list(xs))
      prs = list(zip(xs, reversed(xs)))
      for got in (L.cross(*prs), L.make(pyn.cross, *prs)):
        if [words(f, pyn) for f in got] != [{p} for p in prs]:
          c.violation('fst list/cross', pairs=str(prs))
  c.count('makers', states=n, transitions=n)


def lattices(c, lattice, pyn):
  """All orders of access to the nodes of small lattices that share an FST."""
  n = steps = 0
  top = 4 if c.thorough else 3
  for w, h, populate, share in itertools.product(range(1, 3), range(1, 3), (False, True),
                                                 (False, True)):
    points = [(x, y) for x in range(-1, w + 1) for y in range(-1, h + 1)]
    for hist in itertools.product(points, repeat=top if w * h < 4 else 2):
      n += 1
      fst = pyn.Fst()
      err = lattice.Node('error')
      one = lattice.Lattice('one', w, h, fst, err, populate)
      two = lattice.Lattice('two', w, h, fst, err if share else lattice.Node('e2'))
      base = fst.num_states()
      if base != 1 + (w * h if populate else 0) + (0 if share else 1):
        c.violation('lattice/states at first', size=[w, h], populate=populate, got=base)
      seen = {}
      for k, (x, y) in enumerate(hist):
        steps += 1
        lat = (one, two)[k % 2]
        inside = 0 <= x < w and 0 <= y < h
        node = lat.node(x, y)
        if (node is lat.error) != (not inside) or (inside and (node.x, node.y) != (x, y)):
          c.violation('lattice/node', size=[w, h], point=[x, y])
        had = node.has_state()
        before = fst.num_states()
        s = lat.state(x, y)
        if s != lat.state_of(node) or s != node.state or \
            fst.num_states() != before + (0 if had else 1):
          c.violation('lattice/state', size=[w, h], point=[x, y], got=s)
        key = (lat.alias, x, y) if inside else ('error', None if share else lat.alias)
        if seen.setdefault(key, s) != s or not 0 <= s < fst.num_states():
          c.violation('lattice/state changes', size=[w, h], point=[x, y])
      if len(set(seen.values())) != len(seen):
        c.violation('lattice/shared state', size=[w, h], history=str(hist))
      rows = [r.split('\t') for r in one.states_str().splitlines()[2:]]
      want = [[str(one.node(x, y).state) if one.node(x, y).has_state() else '\u2205'
               for x in range(w)] for y in range(h)]
      if rows != want:
        c.violation('lattice/text', size=[w, h], got=rows, expected=want)
  c.count('lattices', states=n, transitions=steps)


check.run('P18', main)
