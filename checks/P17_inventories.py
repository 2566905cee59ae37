"""P17: inventories, symbols and operations keep what was added, and lookups find it."""
import itertools, os, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check


def main(c):
  c.build([])
  c.direct = True
  from nisaba.scripts.natural_translit.utils import inventory, operation, symbol, type_op as ty
  inventories(c, inventory.Inventory, ty)
  operations(c, operation.Operation)
  symbols(c, symbol.Symbol, ty)
  pairs(c, symbol.Symbol)
  graphemes(c)


def inventories(c, Inventory, ty):
  """Histories of additions against a dictionary and a list."""
  T = ty.Thing

  class Other(Inventory):
    pass
  x, y, x2, t, v = T('x'), T('y'), T('x'), T('text'), T('v', value_from=5)
  w, o, l = T('w', value_from=5), Other('o'), T('l', value_from=[1, 2])
  i = Inventory('i')
  acts = [('add_item', x, ''), ('add_item', y, ''), ('add_item', x2, ''), ('add_item', t, ''),
          ('add_item', v, 'value'), ('add_item', w, 'value'), ('add_item', x, 'none'),
          ('add_item', i, ''), ('add_item', o, ''), ('add_suppl', x, None), ('add_suppl', v, None),
          ('add_suppl', l, None), ('make_suppl', 'y', 7), ('make_suppl', 'z', [x]),
          ('make_suppl', 'alias', 1)]
  probes = ['x', 'y', 'v', 'w', 'o', 'l', 'z', 'i', 'none', 'text', 'alias', '_items']
  depth = 4 if c.thorough else 3
  steps = 0
  for typed in (None, T, int, Other):
    for h in itertools.product(acts, repeat=depth):
      inv = Inventory('inv', **({} if typed is None else {'typed': typed}))
      reserved = set(vars(inv))
      items, aliases, fields = [], [], {}
      for op, a, b in h:
        steps += 1
        if op == 'add_item':
          value = getattr(a, b, None) if b else a
          ok = value is not None and (isinstance(value, typed) if typed else
                                      type(value) is not Inventory)
          ok = ok and not any(value is k or value == k for k in items)
          ok = ok and a.alias not in reserved and a.alias not in fields
          got = inv.add_item(a, b) if b else inv.add_item(a)
          if ok:
            items.append(value)
            fields[a.alias] = value
        else:
          alias, value = (a.alias, a.value) if op == 'add_suppl' else (a, b)
          ok = alias not in reserved and alias not in fields
          got = inv.add_suppl(a) if op == 'add_suppl' else inv.make_suppl(a, b)
          if ok:
            fields[alias] = value
        if bool(got) != ok:
          c.violation('inventory/%s result' % op, history=short(h), typed=str(typed), expected=ok)
      if list(inv) != items or len(inv) != len(items) or \
          any(inv.item(k) is not items[k] for k in range(len(items))):
        c.violation('inventory/items', history=short(h), typed=str(typed))
      for p in probes:
        if p in fields:
          if inv.get(p) is not fields[p] or getattr(inv, p) is not fields[p]:
            c.violation('inventory/get', alias=p, history=short(h), typed=str(typed))
        elif inv.get(p) is not ty.MISSING or inv.get(p, 3) != 3:
          c.violation('inventory/get of nothing', alias=p, history=short(h), typed=str(typed))
      if inv.text != 'inv' or inv.alias != 'inv':
        c.violation('inventory/own fields', history=short(h))
  c.count('inventory histories', states=4 * len(acts) ** depth, transitions=steps, depth=depth)
  c.traces += 4 * len(acts) ** depth
  c.sample({'history': short(h)})
  n = 0
  for k in range(4):
    for things in itertools.product([x, y, x2, v, l], repeat=k):
      for attr, suppls in itertools.product(('', 'value', 'alias'), ([], [v], [l, x])):
        n += 1
        inv = Inventory.from_list(list(things), attr, suppls=suppls, alias='n')
        ref = Inventory('n')
        for z in things:
          ref.add_item(z, attr)
        for z in suppls:
          ref.add_suppl(z)
        if list(inv) != list(ref) or any(inv.get(p) != ref.get(p) for p in probes) or \
            inv.alias != 'n':
          c.violation('inventory/from_list', things=[z.alias for z in things], attr=attr)
  c.count('from_list', states=n, transitions=n)


def short(h):
  return [[a[0], getattr(a[1], 'alias', a[1]), str(a[2])] for a in h]


def operations(c, Operation):
  n = 0
  most = 40 if c.thorough else 26
  for prefix in [0] + list(Operation.ReservedIndex):
    for size in range(most):
      inv = Operation.Inventory.from_args('ops', prefix, *(('o%d' % k, 0.5 * k) for k in
                                                           range(size)))
      n += 1
      if len(inv) != 4 * size:
        c.violation('operation/number', prefix=int(prefix), size=size, got=len(inv))
      idx = [o.index for o in inv]
      if len(set(idx)) != len(idx) or idx != sorted(idx) or any(k % 10 == 0 for k in idx) or \
          any(k <= prefix for k in idx):
        c.violation('operation/indices', prefix=int(prefix), size=size, got=idx)
      if idx and idx[-1] - prefix > len(idx) + len(idx) // 9 + 1:
        c.violation('operation/indices waste room', prefix=int(prefix), size=size, got=idx)
      for o in inv:
        if inv.index_lookup(o.index) is not o or inv.get(o.alias) is not o or o.inventory is not inv:
          c.violation('operation/lookup', prefix=int(prefix), size=size, operation=o.alias)
      for k in set(range(int(prefix), int(prefix) + 5 * size + 5)) - set(idx):
        if inv.index_lookup(k) is not Operation.COMMON.error:
          c.violation('operation/lookup of nothing', prefix=int(prefix), size=size, index=k)
      links(c, inv, [('o%d' % k, 0.5 * k) for k in range(size)], Operation)
  links(c, Operation.COMMON, [(o.alias, o.base_cost) for o in Operation.COMMON
                              if not o.alias.startswith(('partial_', 'unexpected_'))], Operation)
  c.count('operation inventories', states=n, transitions=n * most * 2)


def links(c, inv, args, Operation):
  for alias, cost in args:
    m, p = inv.get(alias), inv.get('partial_' + alias)
    u, up = inv.get('unexpected_' + alias), inv.get('unexpected_partial_' + alias)
    want = {(m, 'match'): m, (m, 'partial'): p, (m, 'unexpected'): u,
            (p, 'match'): m, (p, 'partial'): p, (p, 'unexpected'): up,
            (u, 'match'): m, (u, 'partial'): up, (u, 'unexpected'): u,
            (up, 'match'): m, (up, 'partial'): up, (up, 'unexpected'): up}
    for (o, attr), w in want.items():
      if getattr(o, attr) is not w:
        c.violation('operation/links', operation=o.alias, attribute=attr, expected=w.alias,
                    got=getattr(o, attr).alias)
    for o, k in ((m, cost), (p, cost), (u, cost + 0.75), (up, cost + 0.75)):
      if o.base_cost != k or o.is_free() != (k == 0) or \
          o.is_assigned() != (o not in (Operation.COMMON.unassigned, Operation.COMMON.error)):
        c.violation('operation/cost', operation=o.alias, expected=k, got=o.base_cost)
    if not m.is_cheaper_than(u) or u.is_cheaper_than(m) or m.is_cheaper_than(p):
      c.violation('operation/is_cheaper_than', operation=alias)


def symbols(c, S, ty):
  # Lookups: every history of additions of symbols that share texts and raw forms.
  def new():
    return [S('a', 'A', 'a', 1), S('b', 'A', 'b', 2), S('c', 'C', 'a', 3), S('d', 'D', '', 4),
            S('a', 'E', 'e', 5), S('f', 'F', 'f', 1), S('unk', 'u', 'u', 9)]
  names = range(len(new()))
  depth = 5 if c.thorough else 4
  n = 0
  for k in range(depth + 1):
    for h in itertools.product(names, repeat=k):
      n += 1
      pool = new()
      other = S.Inventory('other', pool[1])
      inv = S.Inventory('inv')
      index, raw, text, items = {}, {}, {}, []
      for s in S.CTRL:
        index[s.index], text[s.text] = s, s
      for j, z in enumerate(h):
        s = pool[z]
        ok = all(s.alias != q.alias for q in items) and s not in items
        got = inv.add_symbols(s, list_alias='list%d' % j)
        if got != ([s] if ok else []) or list(getattr(inv, 'list%d' % j)) != got:
          c.violation('symbols/add result', history=list(h), expected=ok)
        if ok:
          items.append(s)
          index[s.index], text[s.text] = s, s
          if s.raw:
            raw[s.raw] = s
      if list(inv) != items:
        c.violation('symbols/items', history=list(h))
      for s in pool:
        want = other if s is pool[1] else inv if s in items else S.Inventory.EMPTY
        if s.inventory is not want:
          c.violation('symbols/home inventory', history=list(h), symbol=s.alias)
      for table, find in ((index, inv.index_lookup), (raw, inv.raw_lookup), (text, inv.text_lookup)):
        for key in [s.index for s in pool] + [s.raw for s in pool] + [s.text for s in pool] + \
            [s.index for s in S.CTRL] + [s.text for s in S.CTRL] + ['', 'nothing', 77]:
          if find(key) is not table.get(key, S.CTRL.unk):
            c.violation('symbols/%s' % find.__name__, history=list(h), key=str(key),
                        got=find(key).alias)
      if inv.lookup('zz', 'raw_dict', pool[3]) is not pool[3] or \
          inv.lookup('a', 'raw_dict', pool[3]) is not raw.get('a', pool[3]) or \
          inv.lookup('a', 'no_dict') is not S.CTRL.unk:
        c.violation('symbols/lookup', history=list(h))
  c.count('symbol histories', states=n, transitions=n * 8, depth=depth)

  # Texts: histories of parsing with one or two inventories.
  letters = 'ab\u263a\u2665'
  texts = [''.join(t) for k in range(3) for t in itertools.product(letters, repeat=k)]
  steps = 0
  for h in itertools.product(texts, repeat=3 if c.thorough else 2):
    for shared in itertools.product((False, True), repeat=len(h)):
      for method in ('parse', 'str_to_raw_symbols'):
        one, two = S.Inventory('one', S('a', 'a', 'a', 1)), S.Inventory('two', S('b', 'b', 'b', 2))
        both = S.Inventory('both', *one, *two)
        known = {id(one): {'a': one.a}, id(both): {'a': one.a, 'b': two.b}}
        for t, sh in zip(h, shared):
          steps += 1
          got = getattr(one, method)(t, both) if sh else getattr(one, method)(t)
          k = known[id(both if sh else one)]
          if [s.raw for s in got] != list(t):
            c.violation('text/raw', texts=list(h), shared=shared, got=[s.raw for s in got])
          for ch, s in zip(t, got):
            if k.setdefault(ch, s) is not s:
              c.violation('text/one symbol per character', texts=list(h), shared=shared,
                          character=ch)
        for inv in (one, both):
          k = known[id(inv)]
          if {s.raw for s in inv} != set(k) | ({'a', 'b'} if inv is both else set()) or \
              len({s.index for s in inv}) != len(inv) or len({s.alias for s in inv}) != len(inv):
            c.violation('text/symbols of the inventory', texts=list(h), shared=shared)
          for ch, s in k.items():
            if inv.raw_lookup(ch) is not s or inv.index_lookup(s.index) is not s:
              c.violation('text/lookup', texts=list(h), character=ch)
          if {s.raw for s in two} != {'b'}:
            c.violation('text/other inventory changed', texts=list(h))
  c.count('texts', states=len(texts) ** len(h) * 8, transitions=steps)


def pairs(c, S):
  """Feature pairs and attributes: histories on three symbols against dictionaries."""
  from nisaba.scripts.natural_translit.utils import feature
  F = feature.Feature
  inv = F.Inventory('inv', F.Aspect(F.equidistant('voice', F('vd', 'voiced'), F('vl', 'voiceless'))),
                    F.Aspect(F.equidistant('size', F('big'), F('small'), F('tiny'))))
  vd, vl, big, small = inv.voice.vd, inv.voice.vl, inv.size.big, inv.size.small
  acts = []
  for p, q in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (0, 0)):
    for f, g in ((vd, vl), (big, small)):
      for asp, feat in ((True, True), (False, True), (True, False), (False, False)):
        acts.append(('pair', p, q, f, g, asp, feat))
  acts += [('set', k, 'voiced', 5, (big,)) for k in range(3)]
  acts += [('add', k, fs) for k in range(3) for fs in ((big,), (small, vd), (inv.size.any,),
                                                        (inv.voice.n_a,))]
  depth = 3 if c.thorough else 2
  steps = 0
  for h in itertools.product(acts, repeat=depth):
    ss = [S('s0', raw='x'), S('s1'), S.CTRL.bos]
    for s in ss[:2]:
      s.features.new_profile(F.Profile(inv, 'p'))
    ctrl = [dict(vars(s)) for s in ss[2:]]
    attrs = [{}, {}, {}]
    feats = [{inv.voice: {inv.voice.any}, inv.size: {inv.size.any}} for _ in range(2)]

    def set_attr(k, a, v, add=()):
      if k != 2:
        attrs[k][a] = v
        add_features(k, add)

    def add_features(k, add):
      if k == 2:
        return
      for asp in (inv.voice, inv.size):
        new = {f for f in add if f.aspect is asp}
        if new:
          feats[k][asp] = (feats[k][asp] - {asp.any}) | new
    for a in h:
      steps += 1
      if a[0] == 'pair':
        _, p, q, f, g, asp, feat = a
        ss[p].feature_pair(ss[q], f, g, asp, feat)
        set_attr(p, f.text, ss[p])
        set_attr(q, g.text, ss[q])
        set_attr(p, g.text, ss[q] if q != 2 else S.CTRL.nos, (f,) if feat else ())
        set_attr(q, f.text, ss[p] if p != 2 else S.CTRL.nos, (g,) if feat else ())
        if asp:
          set_attr(p, f.aspect.text, f)
          set_attr(q, g.aspect.text, g)
      elif a[0] == 'set':
        ss[a[1]].set_attribute(a[2], a[3], *a[4])
        set_attr(a[1], a[2], a[3], a[4])
      else:
        ss[a[1]].add_features(*a[2])
        add_features(a[1], a[2])
    shown = [[x.alias if hasattr(x, 'alias') else str(x) for x in a] for a in h]
    for k in range(2):
      for name in ('voiced', 'voiceless', 'big', 'small', 'voice', 'size'):
        if getattr(ss[k], name, None) is not attrs[k].get(name):
          c.violation('pair/attribute %s' % name, history=shown, symbol=k)
      for asp, want in feats[k].items():
        got = set(ss[k].features.get(inv).get(asp))
        if got != want:
          c.violation('pair/features', history=shown, symbol=k, got=[f.alias for f in got],
                      expected=[f.alias for f in want])
        for f in asp:
          if ss[k].has_feature(f) != (f in want):
            c.violation('pair/has_feature', history=shown, symbol=k, feature=f.alias)
        if ss[k].has_feature(asp.root_list) != bool(set(asp) & want):
          c.violation('pair/has_feature of a list', history=shown, symbol=k, aspect=asp.alias)
    if dict(vars(ss[2])) != ctrl[0] or ss[2].features.has_profile(inv):
      c.violation('pair/control symbol changed', history=shown)
  c.count('feature pairs', states=len(acts) ** depth, transitions=steps, depth=depth)


def graphemes(c):
  from nisaba.scripts.natural_translit.script import grapheme
  from nisaba.scripts.natural_translit.script.inventories import latn
  G = grapheme.Grapheme
  grf, phf = G.GR_FEATURES, G.DESCRIPTIVE_FEATURES
  n = 0
  cps = list(range(0x110000 if c.thorough else 0x3000))
  if not c.thorough:
    cps += [0xffff, 0x10000, 0x1f600, 0x10ffff]
  for cp in cps:
    if 0xd800 <= cp < 0xe000:
      continue
    n += 1
    ch = chr(cp)
    g = G.from_char(ch)
    name = unicodedata.name(ch, 'GRAPHEME') + ' U+%04X' % cp
    if (g.raw, g.text, g.alias, g.index, g.name) != (ch, ch, 'u_0x%x' % cp, 2_000_000 + cp, name):
      c.violation('grapheme/from_char', code=hex(cp), got=[g.raw, g.text, g.alias, g.index, g.name])
  c.count('graphemes', states=n, transitions=n)

  def feats(s):
    return {(p.inventory.alias, a.alias): frozenset(a) for p in s.features for a in p}
  inv = latn.LATN if hasattr(latn, 'LATN') else next(
      v for v in vars(latn).values() if isinstance(v, G.Inventory))
  n = 0
  for g in inv:
    n += 1
    cp = g.copy()
    if feats(cp) != feats(g) or (cp.alias, cp.text, cp.raw, cp.index, cp.name) != \
        (g.alias, g.text, g.raw, g.index, g.name):
      c.violation('grapheme/copy', grapheme=g.alias)
    before = feats(g)
    cp.update_descriptives(phf.nasal)
    cp.add_features(grf.gr_class.number)
    if feats(g) != before:
      c.violation('grapheme/copy is not independent', grapheme=g.alias)
    atom = inv.atomics.get(g.alias)
    if atom.symbol is not g or feats(atom) != feats(g):
      c.violation('grapheme/atomic', grapheme=g.alias)
    if g.has_feature(grf.gr_class.letter) != g.raw.isalpha() or \
        g.has_feature(grf.gr_class.number) != g.raw.isdigit():
      c.violation('grapheme/class', grapheme=g.alias)
    if g.raw.isalpha():
      if g.upper.raw != g.raw.upper() or g.lower.raw != g.raw.lower() or \
          g.has_feature(grf.case.upper) != g.raw.isupper() or \
          g.has_feature(grf.case.lower) != g.raw.islower():
        c.violation('grapheme/case', grapheme=g.alias)
      same = [k for k in feats(g) if k[0] == phf.alias and feats(g)[k] != feats(g.upper)[k]]
      if same:
        c.violation('grapheme/case changes sounds', grapheme=g.alias, aspects=str(same))
    vowel = g.raw.lower() in 'aeiou'
    for name, want in (('vowel', vowel), ('consonant', g.raw.isalpha() and not vowel),
                       ('letter', g.raw.isalpha()), ('number', g.raw.isdigit()),
                       ('upper', g.raw.isupper()), ('lower', g.raw.islower())):
      if (g in getattr(inv, name)) != want or \
          ([g] in inv.atomics.get(name).symbols()) != want:
        c.violation('grapheme/list %s' % name, grapheme=g.alias)
  if ''.join(sorted(g.raw for g in inv)) != '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ' \
      'abcdefghijklmnopqrstuvwxyz':
    c.violation('grapheme/basic Latin')
  c.count('latin graphemes', states=n, transitions=n * 10)

  # Imports, and texts, in inventories of their own.
  steps = 0
  letters = 'aZ0\u0905'
  texts = [''.join(t) for k in range(4) for t in itertools.product(letters, repeat=k)]
  for t in texts:
    own = G.Inventory(grf.script.und)
    done = own.import_graphemes(inv.a, inv.z_upper, list_alias='imported')
    steps += len(t)
    if [g.raw for g in done] != ['a', 'Z'] or list(own.imported) != done or \
        any(g in list(inv) or g.inventory is not own for g in done) or inv.a.inventory is not inv:
      c.violation('grapheme/import', text=t)
    got = own.parse(t)
    if [g.raw for g in got] != list(t) or any(a is not own.raw_lookup(ch) for a, ch in
                                             zip(got, t)):
      c.violation('grapheme/text', text=t)
    for g in own:
      if own.atomics.get(g.alias).symbol is not g:
        c.violation('grapheme/atomics of texts', text=t, grapheme=g.alias)
    own.import_as_feature_pairs(grf.case.lower, grf.case.upper, (inv.b, inv.b_upper),
                                (inv.c, inv.c_upper))
    if [g.raw for g in own.lower] != ['b', 'c'] or [g.raw for g in own.upper] != ['B', 'C'] or \
        own.b.upper is not own.b_upper or own.b_upper.lower is not own.b or \
        inv.b.upper is not inv.b_upper:
      c.violation('grapheme/import pairs', text=t)
  c.count('grapheme texts', states=len(texts), transitions=steps)


check.run('P17', main)
