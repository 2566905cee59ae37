"""P28: rewrite helpers, characters and phonemes of natural transliteration do as they say."""
import itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check, build as mcbuild

# The skip sequences of an alignment, as regular expressions.
SYM = r'[A-Za-z_+.*\-&!:]*'
GR = '<%s>' % SYM
LEFT = r'(?:(?:%s)*=)?' % GR
RIGHT = r'(?:=(?:\{%s\}|`%s`)*)?' % (SYM, SYM)
SKIP = '(?:%s|%s)' % (LEFT, RIGHT)
BOW = r'\A' + LEFT
EOW = RIGHT + r'\Z'
T = ['<a>', '<b>', '=', '{x}', '{y}', '`t`']


def main(c):
  c.build([])
  c.direct = True
  import pynini as pyn
  from nisaba.scripts.natural_translit.phonology import modify_phon, phon, phoneme_inventory
  from nisaba.scripts.natural_translit.phonology import transcriptor
  from nisaba.scripts.natural_translit.script import char
  from nisaba.scripts.natural_translit.latin import ltn_inventory as ltn
  from nisaba.scripts.natural_translit.utils import (
      alignment as al, concat as cc, fst_list as fl, rewrite_functions as rw)
  rewriting(c, pyn, al, rw)
  languages(c, pyn, al, cc, fl)
  characters(c, pyn, al, char, ltn)
  phonemes(c, pyn, al, modify_phon, phon, phoneme_inventory)
  table(c, phoneme_inventory, ltn)
  transcription(c, pyn, phoneme_inventory, transcriptor, phon)


class Model:
  """Leftmost obligatory rewriting; left context on the output, right context on the input."""

  def __init__(self, pairs, left=None, right=None):
    self.pairs = pairs
    self.left = re.compile('(?:%s)\\Z' % left) if left else None
    self.right = re.compile(right) if right else None

  def here(self, s, i, out):
    if self.left and not self.left.search(out):
      return []
    return [(o, n) for o, n in self.pairs
            if s.startswith(o, i) and (not self.right or self.right.match(s[i + len(o):]))]

  def __call__(self, s):
    """The set of outputs."""
    done, results = [(0, '', False)], set()
    while done:
      i, out, inserted = done.pop()
      found = self.here(s, i, out)
      empty = [(o, n) for o, n in found if not o]
      found = [(o, n) for o, n in found if o]
      if empty and not inserted:
        done += [(i, out + n, True) for _, n in empty]
        continue
      if found:
        done += [(i + len(o), out + n, False) for o, n in found]
      elif i < len(s):
        done.append((i + 1, out + s[i], False))
      else:
        results.add(out)
    return results


def before(x):
  """A context given by x and anything that may be skipped after it."""
  return x + SKIP


def behind(x):
  return SKIP + x

Q = re.escape


def cases(al, rw, pyn):
  """(name, helper's transducer as a thunk, model) for all helpers and choices of contexts."""
  a, b, x, y, t = (pyn.accep(s) for s in ('<a>', '<b>', '{x}', '{y}', '`t`'))
  contexts = {'': None, 'x': '{x}', 'a': '<a>', 'y': '{y}', 't': '`t`'}
  fst = {k: al.EPSILON if v is None else pyn.accep(v) for k, v in contexts.items()}

  def ctx(p, f):
    return dict(left=before(Q(contexts[p])) if contexts[p] else None,
                right=behind(Q(contexts[f])) if contexts[f] else None)
  for p, f in itertools.product(contexts, contexts):
    k = dict(preceding=fst[p], following=fst[f])
    m = ctx(p, f)
    yield ('rewrite/%s_%s' % (p, f), lambda k=k: rw.rewrite(x, y, **k), Model([('{x}', '{y}')], **m))
    yield ('rewrite long/%s_%s' % (p, f), lambda k=k: rw.rewrite(x + y, x, **k),
           Model([('{x}{y}', '{x}')], **m))
    yield ('rewrite_ls/%s_%s' % (p, f), lambda k=k: rw.rewrite_ls([(x, y), (y, x), (t, '')], **k),
           Model([('{x}', '{y}'), ('{y}', '{x}'), ('`t`', '')], **m))
    yield ('rewrite_op/%s_%s' % (p, f),
           lambda k=k: rw.rewrite_op(pyn.union(pyn.cross(a, b), pyn.cross(y, t)), **k),
           Model([('<a>', '<b>'), ('{y}', '`t`')], **m))
    yield ('delete/%s_%s' % (p, f), lambda k=k: rw.delete(x, **k), Model([('{x}', '')], **m))
    if p or f:
      yield ('insert/%s_%s' % (p, f), lambda k=k: rw.insert(t, **k), Model([('', '`t`')], **m))
    yield ('reassign/%s_%s' % (p, f), lambda k=k: rw.reassign(a, x, y, **k),
           Model([('<a>={x}', '<a>={y}')], **m))
    yield ('reassign_ls/%s_%s' % (p, f), lambda k=k: rw.reassign_ls([(a, x, y), (b, y, t)], **k),
           Model([('<a>={x}', '<a>={y}'), ('<b>={y}', '<b>=`t`')], **m))
    yield ('repeated/%s_%s' % (p, f), lambda k=k: rw.rewrite_repeated(x, **k),
           Model([('{x}{x}', '{x}')], **m))
    yield ('repeated new/%s_%s' % (p, f), lambda k=k: rw.rewrite_repeated(x, y, **k),
           Model([('{x}{x}', '{y}')], **m))
    yield ('repeated_ls/%s_%s' % (p, f),
           lambda k=k: rw.rewrite_repeated_ls([(x,), (y, t)], **k),
           Model([('{x}{x}', '{x}'), ('{y}{y}', '`t`')], **m))
    for new in ('', 'y'):
      yield ('merge/%s_%s/%s' % (p, f, new), lambda k=k, new=new: rw.merge(a, x, b, y, fst[new], **k),
             Model([('<a>={x}<b>={y}', '<a><b>=' + (contexts[new] or '{x}{y}'))], **m))
  for f in contexts:
    m, k = ctx('', f)['right'], dict(following=fst[f])
    yield ('initial/' + f, lambda k=k: rw.rewrite_word_initial(x, y, **k),
           Model([('{x}', '{y}')], BOW + SKIP, m))
    yield ('reassign initial/' + f, lambda k=k: rw.reassign_word_initial(a, x, y, **k),
           Model([('<a>={x}', '<a>={y}')], BOW + SKIP, m))
    m, k = ctx(f, '')['left'], dict(preceding=fst[f])
    yield ('final/' + f, lambda k=k: rw.rewrite_word_final(x, y, **k),
           Model([('{x}', '{y}')], m, SKIP + EOW))
    yield ('reassign final/' + f, lambda k=k: rw.reassign_word_final(a, x, y, **k),
           Model([('<a>={x}', '<a>={y}')], m, SKIP + EOW))
  yield ('adjacent', lambda: rw.reassign_adjacent_alignments(a, x, y, b, y, x),
         Model([('<a>={x}<b>={y}', '<a>={y}<b>={x}')]))
  yield ('merge repeated', lambda: rw.merge_repeated_alignment(a, x),
         Model([('<a>={x}<a>={x}', '<a><a>={x}')]))
  yield ('merge repeated/new', lambda: rw.merge_repeated_alignment(a, x, t),
         Model([('<a>={x}<a>={x}', '<a><a>=`t`')]))
  yield ('right side', lambda: rw.EXTRACT_RIGHT_SIDE,
         lambda s: {re.sub('(?:%s|=)' % GR, '', s)})


def words(k, n):
  """Rows of up to k symbols, and of up to n alignments."""
  for j in range(k + 1):
    for t in itertools.product(T, repeat=j):
      yield ''.join(t)
  pairs = [g + '=' + p for g in T[:2] for p in ('{x}', '{y}', '{x}{y}', '`t`')]
  for j in range(2, n + 1):
    for t in itertools.product(pairs, repeat=j):
      yield ''.join(t)


def relation(pyn, inputs, fst):
  got = {}
  lattice = inputs @ fst
  if lattice.start() != -1:
    for i, o, _ in lattice.paths().items():
      got.setdefault(i, set()).add(o)
  return got


_inputs = {}


def one_case(job):
  root, i, k, n = job
  import pynini as pyn
  from nisaba.scripts.natural_translit.utils import alignment as al, rewrite_functions as rw
  if 'all' not in _inputs:
    rows = list(dict.fromkeys(words(k, n)))
    # In several parts, since the paths of a small transducer are quick to list.
    parts = [rows[j:j + 2000] for j in range(0, len(rows), 2000)]
    _inputs['all'] = [(p, pyn.union(*p).optimize()) for p in parts]
    _inputs['cases'] = list(cases(al, rw, pyn))
  name, make, model = _inputs['cases'][i]
  try:
    fst = make()
  except Exception as e:  # pylint: disable=broad-except
    return name, ('', ['raised: ' + repr(e)[:200]], []), 0
  count = 0
  for rows, inputs in _inputs['all']:
    got = relation(pyn, inputs, fst)
    for w in rows:
      count += 1
      want = model(w)
      if got.get(w) != want:
        return name, (w, sorted(got.get(w, [])), sorted(want)), count
  return name, None, count


def rewriting(c, pyn, al, rw):
  import multiprocessing as mp
  k, n = (6, 4) if c.thorough else (4, 3)
  total = len(list(cases(al, rw, pyn)))
  jobs = [(c.root, i, k, n) for i in range(total)]
  with mp.get_context('fork').Pool(c.jobs) as pool:
    for name, bad, count in pool.imap_unordered(one_case, jobs, chunksize=1):
      if bad:
        c.violation('helper/' + name.split('/')[0], helper=name, input=bad[0], got=bad[1],
                    expected=bad[2])
      c.count('rewriting', count, count, depth=k) if name == 'adjacent' else None
      c.states += 0 if name == 'adjacent' else count
      c.transitions += 0 if name == 'adjacent' else count
  c.parts.append({'part': 'helpers', 'helpers': total})


# --- which strings are graphemes, alignments, contexts -----------------------------


def languages(c, pyn, al, cc, fl):
  sym = '(?:[A-Za-z]|[_+.*\\-&!:])'
  x, y, a, b = (pyn.accep(s) for s in ('{x}', '{y}', '<a>', '<b>'))
  ph, tr = r'\{%s*\}' % sym, '`%s*`' % sym
  models = {
      'GRAPHEME': (al.GRAPHEME, '<%s*>' % sym), 'GRAPHEMES': (al.GRAPHEMES, '(?:<%s*>)*' % sym),
      'PHONEME': (al.PHONEME, ph), 'PHONEMES': (al.PHONEMES, '(?:%s)*' % ph),
      'TRANSLIT': (al.TRANSLIT, tr), 'TRANSLITS': (al.TRANSLITS, '(?:%s)*' % tr),
      'R_SYMS': (al.R_SYMS, '(?:%s|%s)*' % (ph, tr)),
      'SYMS': (al.SYMS, '(?:<%s*>|%s|%s)*' % (sym, ph, tr)),
      'SYM': (al.SYM, sym + '*'), 'PUNCTUATION': (al.PUNCTUATION, r'[_+.*\-&!:]'),
      'SKIP_LEFT_SIDE': (al.SKIP_LEFT_SIDE, LEFT), 'SKIP_RIGHT_SIDE': (al.SKIP_RIGHT_SIDE, RIGHT),
      'SKIP': (al.SKIP, SKIP), 'GR_BOUND': (al.GR_BOUND, '[<>]'), 'PH_BOUND': (al.PH_BOUND, '[{}]'),
      'concat_r': (cc.concat_r(x, y), Q('{x}') + LEFT + Q('{y}')),
      'concat_l': (cc.concat_l(a, b), '<a>' + RIGHT + '<b>'), 'repeat': (cc.repeat(x), Q('{x}{x}')),
      'align': (al.align(a, x), Q('<a>={x}')), 'grapheme': (al.enclose_grapheme('ab'), '<ab>'),
      'phoneme': (al.enclose_phoneme('ab'), Q('{ab}')), 'translit': (al.enclose_translit('ab'), '`ab`'),
      'two': (al.enclose_grapheme(pyn.union('a', 'b')), '<[ab]>'),
      'concat of a union': (cc.concat_r(pyn.union(x, y), x), Q('{') + '[xy]' + Q('}') + LEFT + Q('{x}')),
  }
  chars = ['a', 'Z', '_', '+', '.', '*', '-', '&', '!', ':', '<', '>', '{', '}', '`', '=', ' ', '1',
           '[', '\u00e9']
  small = ['a', '_', '<', '>', '{', '}', '`', '=', '1']
  inputs = [''.join(t) for j in range(4) for t in itertools.product(chars, repeat=j)]
  inputs += [''.join(t) for t in itertools.product(small, repeat=4 if not c.thorough else 5)]
  inputs += list(words(5 if c.thorough else 4, 2))
  inputs += [u + v + w for u in ('<a>', '{x}', '{y}', '<b>', '<ab>') for w in ('<b>', '{y}', '{x}')
             for v in ('', '=', '<a>', '<>', '{}', '``', '={a:}', '=`+`', '<a_>=', '<a>{x}', '={x}<a>',
                       '<a><b>=', '={x}`t`{y}', '<a><b>', '==')]
  inputs = list(dict.fromkeys(inputs))
  parts = [inputs[j:j + 3000] for j in range(0, len(inputs), 3000)]
  unions = [pyn.union(*[pyn.escape(w) for w in p]).optimize() for p in parts]
  for name, (fst, pattern) in models.items():
    r = re.compile('(?:%s)\\Z' % pattern)
    for rows, union in zip(parts, unions):
      found = union @ fst
      got = set(found.paths().istrings()) if found.start() != -1 else set()
      for w in rows:
        if (w in got) != bool(r.match(w)):
          c.violation('language/' + name, input=w, accepted=w in got)
          break
  got = relation(pyn, pyn.union('<a>', '<b>', '<a>={x}'), al.assign(pyn.accep('<a>'), x))
  if got != {'<a>': {'<a>={x}'}}:
    c.violation('language/assign', got=str(got))
  got = relation(pyn, pyn.union('<a>', '<a>={x}', '<a>={y}'), al.realign(pyn.accep('<a>'), x, y))
  if got != {'<a>={x}': {'<a>={y}'}}:
    c.violation('language/realign', got=str(got))
  c.count('languages', len(models) * len(inputs), len(models) * len(inputs))


# --- characters -------------------------------------------------------------------


def lang(fst):
  """The strings of an acyclic acceptor."""
  return set(fst.copy().optimize().paths().ostrings()) if fst.start() != -1 else set()


def described(ch):
  return (ch.alias, ch.typ, lang(ch.gr), lang(ch.tr), ch.glyph, lang(ch.ph))


def characters(c, pyn, al, char, ltn):
  n = 0
  typs = ['a', 'aa', 'b', 's_x']
  glyphs = ['a', '\u0101', '', 'sh']
  phs = [al.EPSILON, pyn.accep('{x}'), pyn.accep('{x}{y}')]
  made = []
  for typ, glyph, ph, alias in itertools.product(typs, glyphs, phs, ['', 'Q']):
    n += 1
    got = char.Char(typ, glyph, ph, alias)
    made.append((got, typ, glyph, ph))
    want = (alias or typ.upper(), typ, {'<%s>' % typ}, {'`%s`' % typ}, glyph, lang(ph))
    if described(got) != want:
      c.violation('char', got=str(described(got)), expected=str(want))
  for k in (1, 2, 3):
    for chosen in itertools.combinations(made[::7] if not c.thorough else made[::5], k):
      n += 1
      cs = [x[0] for x in chosen]
      old = [described(x) for x in cs]
      upper = char.uppercase_list(cs)
      if [described(u) for u in upper] != [
          (t.upper() + '_UC', t.upper() + '_uc', {'<%s_uc>' % t.upper()}, {'`%s_uc`' % t.upper()},
           g.upper(), lang(ph)) for _, t, g, ph in chosen]:
        c.violation('char/uppercase', chars=str(old))
      doubles, by_tr = char.ls_double_substring(cs)
      want = [('S_' + (t + t).upper(), 's_' + t + t, {'<s_%s>' % (t + t)}, {'`s_%s`' % (t + t)},
               g + g, {''}) for _, t, g, _ in chosen]
      if [described(d) for d in doubles] != want:
        c.violation('char/double', chars=str(old))
      if {i: lang(o) for i, o in by_tr.items()} != {
          '`%s`' % t: {'`s_%s`' % (t + t)} for _, t, _, _ in chosen}:
        c.violation('char/double table', chars=str(old))
      one = char.make_composite_char(cs, 'new', pyn.accep('{y}'), 'N')
      want = ('N', 'new', {'<new>'}, {'`new`'}, ''.join(g for _, _, g, _ in chosen), {'{y}'})
      if described(one) != want or lang(one.cmp) != {''.join('<%s>' % t for _, t, _, _ in chosen)}:
        c.violation('char/composite', chars=str(old), got=str(described(one)))
      for name, things, left, right in (
          ('gr', char.thing_gr_union, '<', '>'), ('tr', char.thing_tr_union, '`', '`')):
        got = things('T', cs)
        if got.alias != 'T' or lang(got.value) != {left + t + right for _, t, _, _ in chosen}:
          c.violation('char/%s union' % name, chars=str(old))
      for name, things, star, pick in (
          ('gr', char.gr_list, char.thing_gr_star, 'gr'), ('tr', char.tr_list, char.thing_tr_star, 'tr')):
        got = things(cs)
        if [lang(g) for g in got] != [lang(getattr(x, pick)) for x in cs]:
          c.violation('char/%s list' % name, chars=str(old))
        single = sorted({s for x in cs for s in lang(getattr(x, pick))})
        for w in [''.join(t) for j in range(3) for t in itertools.product(single + ['<zz>'], repeat=j)]:
          if ((pyn.accep(w) @ star('T', cs).value).start() != -1) != ('<zz>' not in w):
            c.violation('char/%s star' % name, chars=str(old), input=w)
      if [described(x) for x in cs] != old:
        c.violation('char/changed', chars=str(old))
  if described(char.make_substring('sh')) != (
      'S_SH', 's_sh', {'<s_sh>'}, {'`s_sh`'}, 'sh', {''}):
    c.violation('char/substring')
  # Reading and printing.
  cs = [char.Char('a', 'a'), char.Char('aa', '\u0101'), char.Char('sh', 'sh'), char.Char('s', 's'),
        char.Char('DEL', '')]
  read = char.read_glyph(cs[:4])
  only = char.print_only_glyph(cs)
  prints = char.print_glyph(cs)
  repeated = char.remove_repeated_glyph(cs[:2])
  both = char.make_composite_char([cs[0], cs[1]], 'ab')
  compose = char.compose_from_gr([both])
  gl = {x.typ: x.glyph for x in cs}
  depth = 5 if c.thorough else 4
  for j in range(depth + 1):
    for t in itertools.product(['a', '\u0101', 's', 'h', 'z'], repeat=j):
      n += 1
      w = ''.join(t)
      want = spellings(w, {'a': '<a>', '\u0101': '<aa>', 'sh': '<sh>', 's': '<s>'})
      got = relation(pyn, pyn.accep(w), read).get(w, set())
      if got != want:
        c.violation('char/read', input=w, got=sorted(got), expected=sorted(want))
      got = relation(pyn, pyn.accep(w), repeated).get(w, set())
      want = Model([('aa', 'a'), ('\u0101\u0101', '\u0101')])(w)
      if got != want:
        c.violation('char/remove repeated', input=w, got=sorted(got), expected=sorted(want))
    for t in itertools.product(list(gl), repeat=j):
      n += 1
      w = ''.join('`%s`' % x for x in t)
      want = {''.join(gl[x] for x in t)}
      for name, fst, text in (
          ('print', prints, w), ('print only', only, w),
          ('print aligned', only, ''.join('<%s>=`%s`' % (x, x) for x in t))):
        got = relation(pyn, pyn.accep(text), fst).get(text, set())
        if got != want:
          c.violation('char/' + name, input=text, got=sorted(got), expected=sorted(want))
    for t in itertools.product(['<a>', '<aa>', '<s>'], repeat=j):
      w = ''.join(t)
      got = relation(pyn, pyn.accep(w), compose).get(w, set())
      if got != {w.replace('<a><aa>', '<ab>')}:
        c.violation('char/compose', input=w, got=sorted(got))
  # The Latin letters.
  for tr in ltn.ASCII_LC:
    if lang(ltn.double_substring_tr(tr.tr)) != {'`s_%s`' % (2 * tr.typ)}:
      c.violation('latin/double', letter=tr.typ)
  c.count('characters', n, n)


def spellings(w, table):
  """All readings of w as a row of the keys."""
  found = {0: {''}}
  for i in range(len(w)):
    for key, out in table.items():
      if w.startswith(key, i):
        found.setdefault(i + len(key), set()).update(s + out for s in found.get(i, ()))
  return found.get(len(w), set())


# --- phonemes ---------------------------------------------------------------------


def strings(tr_dict):
  return {k: lang(v) for k, v in tr_dict.items()}


def features(phon):
  return [str(f) for f in phon.ftr]


def fields(p):
  return (p.alias, p.txn, features(p), lang(p.ph), p.ipa, strings(p.tr_dict),
          [x.alias for x in p.cmp])


def phonemes(c, pyn, al, mod, phon, inv):
  n = 0
  f = mod.f
  tr = [pyn.accep('`t`'), pyn.accep('`a``b`')]
  base = [phon.Phon.base('a', [f.vowel], 'a', tr[0]), phon.Phon.base('b', [f.stop, f.voiced], 'b', tr[1]),
          phon.Phon.base('x', [f.stop], 'x', alias='XX')]
  want = [('A', 'a', ['vowel'], {'{a}'}, 'a', {'base': {'`t`'}}, ['A']),
          ('B', 'b', [str(f.stop), str(f.voiced)], {'{b}'}, 'b', {'base': {'`a``b`'}}, ['B']),
          ('XX', 'x', [str(f.stop)], {'{x}'}, 'x', {'base': {'`DEL`'}}, ['XX'])]
  want[0] = want[0][:2] + ([str(f.vowel)],) + want[0][3:]
  for p, w in zip(base, want):
    n += 1
    if fields(p) != w:
      c.violation('phon/base', got=str(fields(p)), expected=str(w))
  mods = [mod.MOD.DVC, mod.MOD.NPL, mod.MOD.DURH]

  def derived(p, m, new):
    a = fields(p)
    key = str(m.ftr[0])
    alias = a[0] + m.txn.upper()
    return (alias, a[1] + m.txn, a[2] + features(m), {'{%s%s}' % (a[1], m.txn)}, a[4] + m.ipa,
            dict(a[5], **{key: lang(new) if new is not None else a[5]['base']}), [alias])

  def same(name, got, want, *sources):
    nonlocal n
    n += 1
    if fields(got) != want:
      c.violation('phon/' + name, sources=[x.alias for x in sources], got=str(fields(got)),
                  expected=str(want))
  pool = base + inv.SIMPLE_PHON
  for p in pool:
    old = fields(p)
    for m in mods:
      if str(m.ftr[0]) in old[5]:
        continue
      same('suffix', mod.derive_with_suffix(p, m), derived(p, m, None), p, m)
      for new in tr:
        same('suffix/new translit', mod.derive_with_suffix(p, m, new), derived(p, m, new), p, m)
    same('nonpulmonic', mod.nonpulmonic(p), derived(p, mod.MOD.NPL, None), p)
    if f.voiced in p.ftr:
      want = derived(p, mod.MOD.DVC, None)
      rest = list(old[2])
      rest.remove(str(f.voiced))
      same('devoiced', mod.devoiced(p),
           want[:2] + (rest + features(mod.MOD.DVC),) + want[3:], p)
    for ftr in (None, [f.nasal]):
      for alt in (None, {'new': tr[0]}, {'base': tr[1]}):
        w = list(old)
        w[2] = old[2] + ([str(f.nasal)] if ftr else [])
        w[5] = dict(old[5], **({} if alt is None else strings(alt)))
        kw = {}
        if ftr:
          kw['add_ftr'] = ftr
        if alt:
          kw['alt_tr_dict'] = alt
        same('import', phon.import_phon(p, **kw), tuple(w), p)
    if fields(p) != old:
      c.violation('phon/changed', phon=p.alias)

  def composed(ps, ftr, new, alt):
    cmp_ = [x for p in ps for x in p.cmp]
    fs = [fields(x) for x in cmp_]
    base_tr = {''.join(t) for t in itertools.product(*[sorted(x[5]['base']) for x in fs])}
    trs = {'base': base_tr, ftr: lang(new) if new is not None else base_tr}
    trs.update({} if alt is None else strings(alt))
    return ('_'.join(x[0] for x in fs), '+'.join(x[1] for x in fs),
            [ftr] + [y for x in fs for y in x[2]],
            {'{+}'.join(t) for t in itertools.product(*[sorted(x[3]) for x in fs])},
            '\u0361'.join(x[4] for x in fs), trs, [x[0] for x in fs])
  few = base[:3] + [inv.PHON_INVENTORY.T, inv.PHON_INVENTORY.SH, inv.PHON_INVENTORY.TE]
  ai = mod.compose(base[:2], 'f', tr[0])
  few.append(ai)
  for k in (1, 2, 3):
    for ps in itertools.product(few, repeat=k):
      old = [fields(p) for p in ps]
      for new in (None, tr[0]):
        for alt in (None, {'mono': tr[1]}):
          kw = {} if new is None else {'new_tr': new}
          if alt:
            kw['alt_tr_dict'] = alt
          same('compose', mod.compose(list(ps), 'ftr', **kw), composed(ps, 'ftr', new, alt), *ps)
      if k == 2:
        same('affricate', mod.affricate(list(ps), tr[0]),
             composed(ps, str(f.affricate), tr[0], None), *ps)
        same('click', mod.click(*ps), composed(ps, str(f.coarticulated), None, None), *ps)
        for semi, mono in itertools.product((None, tr[0]), (None, tr[1])):
          kw = {} if semi is None else {'semi': semi}
          alt = {} if semi is None else {'semivowel': semi}
          if mono is not None:
            kw['mono'], alt['monophthong'] = mono, mono
          same('diphthong', mod.diphthong(list(ps), tr[1], **kw),
               composed(ps, str(f.diphthong), tr[1], alt), *ps)
      if [fields(p) for p in ps] != old:
        c.violation('phon/changed by composing', phons=[p.alias for p in ps])
  S = inv.PHON_INVENTORY
  for stop, frics in ((S.T, [S.SH, S.SS]), (S.D, [S.ZH]), (S.T, [S.SH, S.ZH]), (S.T, [])):
    got = [x.alias for x in mod.ls_affricate(stop, frics, tr[0])]
    want = []
    for x in frics:
      want.append(stop.alias + '_' + x.alias)
      if f.voiceless in x.ftr:
        want.append(stop.alias + '_' + x.alias + 'E')
    n += 1
    if got != want:
      c.violation('phon/affricates', got=got, expected=want)
  got = [x.alias for x in mod.ls_click([S.K, S.G], [S.PK, S.TK, S.YK])]
  if got != ['K_PK', 'K_TK', 'K_YK', 'G_PK', 'G_TK', 'G_YK']:
    c.violation('phon/clicks', got=got)
  c.count('phonemes', n, n)


def table(c, inv, ltn):
  """The documented table of phonemes."""
  path = os.path.join(mcbuild.REPO, 'nisaba/scripts/natural_translit/phonology/docs/phon_table.md')
  glyph = {}
  for ch in ltn.CHARS:
    for s in lang(ch.tr):
      glyph[s] = ch.glyph
  seen = {}
  n = 0
  for line in open(path, encoding='utf8'):
    # The table escapes the sign that separates columns, and calls duration "long".
    row = [x.strip().replace('\\|', '|') for x in line.rstrip('\n').split(' | ')]
    if len(row) == 8 and row[0] != 'alias' and not row[0].startswith(':'):
      seen[row[0]] = row
  if 'DURH' in seen:
    seen['DURH'][7] = seen['DURH'][7].replace('long', 'duration')
  if len(seen) < 300:
    raise RuntimeError('the table of phonemes is not as expected')

  def print_tr(key, fst):
    out = [''.join(glyph.get(t, t) for t in re.findall('`[^`]*`', s)) for s in lang(fst)]
    return '%s: %s' % (key, out[0]) if out and out[0] else '' if out else '%s: nothing' % key
  inventory = {p.alias: p for p in inv.PHONEMES + inv.COMBINING_MODIFIERS}
  for alias, row in seen.items():
    p = inventory.get(alias)
    if alias in ('DURT', 'DURB', 'DURM'):
      continue  # Listed, but not in the inventory.
    n += 1
    if p is None:
      c.violation('table/missing', alias=alias)
      continue
    last = list(p.tr_dict)[-1]
    got = [alias, p.txn, ''.join(sorted(lang(p.ph))), print_tr('base', p.tr_dict['base']),
           print_tr(last, p.tr_dict[last]),
           ', '.join(x.alias for x in p.cmp) if len(p.cmp) > 1 else '', '`` %s ``' % p.ipa,
           ', '.join(features(p))]
    # Old releases of the table print nothing for a deletion of either kind.
    if got != row:
      c.violation('table/' + alias, got=got, documented=row)
  if len({tuple(sorted(lang(p.ph))) for p in inventory.values()}) != len(inventory):
    c.violation('table/two of the same phoneme')
  c.count('table', n, n)


def transcription(c, pyn, inv, transcriptor, phon):
  """All rows of two phonemes, with or without the graphemes and long or not: the IPA."""
  fst = transcriptor.txn_to_ipa()
  ps = [(sorted(lang(p.ph))[0], p.ipa) for p in inv.PHONEMES]
  dur = ('{:h}', '\u02d0')
  from mc.engine import Machine
  n = 0
  batch = {}

  def flush():
    inputs = pyn.union(*batch).optimize()
    got = relation(pyn, inputs, fst)
    for w, ipa in batch.items():
      if got.get(w) != {ipa}:
        c.violation('transcription', input=w, got=sorted(got.get(w, [])), expected=ipa)
        return
    batch.clear()
  plain = [(a, i) for a, i in ps]
  second = plain if c.thorough else plain[::3]
  for (a, i) in plain:
    for w, ipa in ((a, i), ('<a>=' + a, i), ('<a><b>=' + a + dur[0], i + dur[1]),
                   ('=' + a + '<zz>=', i)):
      n += 1
      batch[w] = ipa
    for (b, j) in second:
      n += 1
      batch[a + b] = i + j
      if len(batch) > 3000:
        flush()
    if a != '{sil}':
      n += 1
      batch['<x>=%s<y_>=%s%s' % (a, plain[20][0], dur[0])] = i + plain[20][1] + dur[1]
  if batch:
    flush()
  # Translit of lists of phonemes, by key.
  S = inv.PHON_INVENTORY
  few = [S.A, S.B, S.SH, S.A_I]
  base = phon.ls_translit_base(few)
  diph = phon.ls_translit_by_key([S.A_I, S.A_U], 'diphthong')
  ipa = phon.ls_translit_ipa(few)
  one = phon.translit_base(S.B)
  one_ipa = phon.translit_ipa(S.SH)
  s = lambda x: sorted(lang(x))[0]
  for k in range(4):
    for row in itertools.product(few + [S.U], repeat=k):
      n += 1
      w = ''.join(s(p.ph) for p in row)
      subst = [(s(p.ph), s(p.tr_dict['base'])) for p in few]
      for name, f, model in (
          ('base', base, Model(subst)),
          ('diphthong', diph, Model([(s(p.ph), s(p.tr_dict['diphthong'])) for p in (S.A_I, S.A_U)])),
          ('one', one, Model([(s(S.B.ph), s(S.B.tr_dict['base']))])),
          ('one ipa', one_ipa, Model([(s(S.SH.ph), S.SH.ipa)]))):
        got = relation(pyn, pyn.accep(w), f).get(w, set())
        if got != model(w):
          c.violation('translit/' + name, input=w, got=sorted(got), expected=sorted(model(w)))
      got = relation(pyn, pyn.accep(w), ipa).get(w, set())
      want = {''.join(p.ipa for p in row)} if S.U not in row else set()
      if got != want:
        c.violation('translit/ipa', input=w, got=sorted(got), expected=sorted(want))
  c.count('transcription', n, n)


if __name__ == '__main__':
  check.run('P28', main)
