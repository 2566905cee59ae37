"""P27: data files become the rules, strings and alphabets that they spell out."""
import itertools, os, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check


def main(c):
  c.build([])
  c.direct = True
  import pynini
  from nisaba.scripts.utils import char, file as uf, func, rewrite, rule
  from nisaba.scripts.utils import unicode_strings_util as us, unicode_strings_pb2 as pb
  names(c, us)
  sequences(c, us)
  items(c, us, pb)
  protos(c, us, pb)
  rule_files(c, rule)
  partitions(c, rule)
  rewrites(c, rule, pynini)
  compositions(c, rewrite, pynini)
  alphabets(c, char)
  safe(c, uf, func, pynini)


def attempt(f, *args):
  """The result of a call, or 'ValueError'."""
  try:
    return f(*args)
  except ValueError:
    return 'ValueError'


# --- names of characters --------------------------------------------------------


def names(c, us):
  """Every named character, with its name split in every way into a prefix and the rest."""
  by_name = {}
  for cp in range(0x110000):
    n = unicodedata.name(chr(cp), '')
    if n:
      by_name[n] = chr(cp)

  def find(prefixes, suffix):
    got = {}
    for p in list(prefixes) + ['']:
      n = (p + ' ' + suffix).lstrip()
      ch = by_name.get(n)
      if ch is None:
        try:
          ch = unicodedata.lookup(n)  # Aliases and named sequences.
        except KeyError:
          continue
        if unicodedata.category(ch[0]) == 'Cc':
          continue  # Controls have no names but aliases, which are not taken.
      got.setdefault(n, ch)
    return got
  count = 0
  large = ('CJK', 'HANGUL SYLLABLE', 'EGYPTIAN', 'TANGUT', 'CUNEIFORM', 'ANATOLIAN', 'NUSHU')
  for n, ch in by_name.items():
    if n.startswith(large) and not c.thorough and ord(ch) % 16:
      continue
    words = n.split(' ')
    for k in range(len(words)):
      prefix, suffix = ' '.join(words[:k]), ' '.join(words[k:])
      for prefixes in ([prefix], ['ARABIC', prefix], [prefix, 'LATIN SMALL']):
        if len(set(prefixes)) < len(prefixes):
          continue
        count += 1
        if prefix == '':
          continue  # Tried below, as the full name.
        want = find(prefixes, suffix)
        got = attempt(us.name_to_char, prefixes, suffix)
        expected = (ch, n) if len(want) == 1 else 'ValueError'
        if got != expected:
          c.violation('name_to_char', prefixes=prefixes, suffix=suffix, got=got,
                      expected=expected)
    if attempt(us.name_to_char, [], n) != (ch, n):
      c.violation('name_to_char/full name', name=n, got=attempt(us.name_to_char, [], n))
  for n in ('', 'NO SUCH LETTER', 'LETTER KA', 'NULL', 'LINE FEED', 'BELL '):
    for prefixes in ([], ['BENGALIC'], ['DEVANAGARI LETTER']):
      count += 1
      if len(find(prefixes, n)) == 0 and attempt(us.name_to_char, prefixes, n) != 'ValueError':
        c.violation('name_to_char/no such', prefixes=prefixes, suffix=n)
  for n in ('NULL', 'LINE FEED', 'CHARACTER TABULATION'):
    if attempt(us.name_to_char, [], n) != 'ValueError':
      c.violation('name_to_char/control', name=n)
  c.count('names', len(by_name), count)


def sequences(c, us):
  """Named sequences: the Tamil syllables, by the letters and signs that they consist of."""
  n = 0
  virama = '\u0bcd'
  for cp in range(0xb95, 0xbba):
    name = unicodedata.name(chr(cp), '')
    if not name.startswith('TAMIL LETTER ') or not name.endswith('A'):
      continue
    root = name[len('TAMIL LETTER '):-1]
    forms = [('TAMIL CONSONANT %s' % root, chr(cp) + virama)]
    for sign in range(0xbbe, 0xbcd):
      s = unicodedata.name(chr(sign), '')
      if s.startswith('TAMIL VOWEL SIGN '):
        forms.append(('TAMIL SYLLABLE %s%s' % (root, s[len('TAMIL VOWEL SIGN '):]),
                      chr(cp) + chr(sign)))
    for full, text in forms:
      try:
        if unicodedata.lookup(full) != text:
          continue  # A name of something else (SHA, SSA).
      except KeyError:
        continue
      for prefixes, uname in (([], full), (['TAMIL'], full[6:])):
        n += 1
        got = us.name_to_char(prefixes, uname)
        if got != (text, full):
          c.violation('named sequence', name=full, got=got, expected=text)
        for raw in ('', text):
          if attempt(us.proto_entries_to_string, prefixes, [uname], raw) != text:
            c.violation('named sequence/entries', name=full, raw=raw)
  if n < 200:
    raise RuntimeError('only %d named sequences' % n)
  c.count('named sequences', n, 3 * n)


# --- items ------------------------------------------------------------------------

KA, GA, DKA, DGA = '\u0995', '\u0997', '\u0915', '\u0917'
RESOLVE = {('BENGALI', 'LETTER KA'): KA, ('BENGALI', 'LETTER GA'): GA,
           ('DEVANAGARI', 'LETTER KA'): DKA, ('DEVANAGARI', 'LETTER GA'): DGA,
           ('', 'BENGALI LETTER KA'): KA,
           ('', 'DIGIT ONE'): '1', ('BENGALI', 'DIGIT ONE'): '\u09e7',
           ('DEVANAGARI', 'DIGIT ONE'): '\u0967'}
UNAMES = [[], ['LETTER KA'], ['LETTER GA'], ['LETTER KA', 'LETTER GA'], ['LETTER GA', 'LETTER KA'],
          ['BENGALI LETTER KA'], ['DIGIT ONE'], ['NO LETTER'], ['LETTER KA', 'NO LETTER']]
RAWS = ['', KA, KA + GA, DKA, 'x']
PREFIXES = [[], ['BENGALI'], ['DEVANAGARI'], ['DEVANAGARI', 'BENGALI'], ['BENGALI', 'BENGALI'],
            ['NONE']]


def spelled(prefixes, uname, raw):
  """What an entry stands for; None if it is wrong or empty."""
  if not uname:
    return raw or None
  out = ''
  for u in uname:
    found = {(p, u) for p in set(prefixes) | {''} if (p, u) in RESOLVE}
    if len(found) != 1:
      return None
    out += RESOLVE[found.pop()]
  return out if raw in ('', out) else None


def converted(prefixes, to_prefixes, item):
  """(source, destination or None), or 'ValueError'."""
  uname, raw, to_uname, to_raw = item
  source = spelled(prefixes, uname, raw)
  if source is None:
    return 'ValueError'
  if not to_uname and not to_raw:
    return source, None
  dest = spelled(to_prefixes or prefixes, to_uname, to_raw)
  return 'ValueError' if dest is None else (source, dest)


def items(c, us, pb):
  n = 0
  for prefixes, uname, raw in itertools.product(PREFIXES, UNAMES, RAWS):
    want = spelled(set(prefixes), uname, raw)
    if len(set(prefixes)) < len(prefixes):
      continue
    n += 1
    got = attempt(us.proto_entries_to_string, prefixes, uname, raw)
    if got != (want or 'ValueError'):
      c.violation('entries', prefixes=prefixes, uname=uname, raw=raw, got=got, expected=want)
  to_unames = UNAMES if c.thorough else UNAMES[:2] + UNAMES[3:4] + UNAMES[5:8]
  for item in itertools.product(UNAMES, RAWS, to_unames, RAWS):
    message = pb.UnicodeStrings.Item(uname=item[0], raw=item[1], to_uname=item[2], to_raw=item[3])
    for prefixes, to_prefixes in itertools.product(PREFIXES, PREFIXES[:3] + PREFIXES[4:5]):
      n += 1
      got = attempt(us.convert_item, prefixes, to_prefixes, message)
      want = converted(prefixes, to_prefixes, item)
      if got != want:
        c.violation('item', prefixes=prefixes, to_prefixes=to_prefixes, item=item, got=got,
                    expected=want)
  c.count('items', n, n)


def protos(c, us, pb):
  """Files of items, read with the missing fields filled in, and converted to TSV."""
  from absl import flags
  from google.protobuf import text_format
  from nisaba.scripts.utils import letter_languages, letter_languages_pb2 as ll
  from nisaba.scripts.utils import unicode_strings_to_tsv as tsv
  path = os.path.join(c.scratch, 'in.textproto')
  out = os.path.join(c.scratch, 'out.tsv')
  pool = [(['LETTER KA'], '', [], ''), (['LETTER KA'], KA, [], 'k'), ([], 'x', ['LETTER GA'], ''),
          (['LETTER GA', 'LETTER KA'], '', ['LETTER KA'], ''), ([], KA + GA, [], ''),
          ([], '\u200d', [], '\u200c'), (['NO LETTER'], '', [], ''), ([], '', [], 'x')]
  n = 0
  for k in range(4 if c.thorough else 3):
    for rows in itertools.product(pool, repeat=k):
      for prefixes, to_prefixes in ((['BENGALI'], []), (['BENGALI'], ['DEVANAGARI']),
                                    (['NONE', 'BENGALI'], ['BENGALI'])):
        n += 1
        message = pb.UnicodeStrings(
            uname_prefix=prefixes, to_uname_prefix=to_prefixes,
            item=[pb.UnicodeStrings.Item(uname=a, raw=b, to_uname=x, to_raw=y)
                  for a, b, x, y in rows])
        with open(path, 'w', encoding='utf8') as f:
          f.write(text_format.MessageToString(message, as_utf8=n % 2 == 0))
        want = [converted(prefixes, to_prefixes, r) for r in rows]
        bad = 'ValueError' in want
        got = attempt(us.read_textproto, path)
        if bad:
          if got != 'ValueError':
            c.violation('read/invalid item', items=rows)
        elif got == 'ValueError':
          c.violation('read/valid items', items=rows)
        else:
          read = [(i.raw, i.to_raw or None) for i in got.item]
          if read != want:
            c.violation('read', items=rows, got=read, expected=want)
          for i, j in zip(got.item, message.item):
            if list(i.uname) != list(j.uname) or list(i.to_uname) != list(j.to_uname):
              c.violation('read/names', items=rows)
        flags.FLAGS(['tsv', '--input_text_proto=' + path, '--output_tsv=' + out])
        got = attempt(tsv.main, ['tsv'])
        if bad:
          if got != 'ValueError':
            c.violation('tsv/invalid item', items=rows)
        else:
          with open(out, encoding='utf8') as f:
            lines = [x.rstrip('\n') for x in f]
          body = [x for x in lines if not x.startswith('#')]
          wanted = ['\t'.join(x for x in w if x) for w in want]
          if got == 'ValueError' or body != wanted:
            c.violation('tsv', items=rows, got=lines, expected=wanted)
        if k and not to_prefixes and not any(x or y for _, _, x, y in rows):
          letters = ll.LetterLanguages(
              uname_prefix=prefixes,
              item=[ll.LetterLanguages.Item(
                  letter=pb.UnicodeStrings.Item(uname=a, raw=b)) for a, b, _, _ in rows])
          with open(path, 'w', encoding='utf8') as f:
            f.write(text_format.MessageToString(letters))
          got = attempt(letter_languages.read_textproto, path)
          got = got if got == 'ValueError' else [i.letter.raw for i in got.item]
          wanted = 'ValueError' if bad else [w[0] for w in want]
          if got != wanted:
            c.violation('letters', items=rows, got=got, expected=wanted)
  c.count('protos', n, 2 * n)


# --- rules ------------------------------------------------------------------------


def rule_files(c, rule):
  """Files of up to three lines, with every kind of field, comments and empty lines."""
  path = os.path.join(c.scratch, 'rules.tsv')
  fields = ['a', '\u0995\u09cd', '7', '07', '1.50', 'NA', 'True', 'a b', '"', '"a', '[', "'", '\u0967',
            'x\u200d', '1e3', '-', ',', ';']
  quoted = {'#': '\\#', '\\': '\\\\', 'a#': 'a\\#'}
  few = ['a', '7', '"', 'NA', '#']
  raw = lambda s: quoted.get(s, s)
  lines = [(x, y) for x in fields + list(quoted) for y in fields + list(quoted) + ['']]
  short = [(x, y) for x in few for y in few + ['']]
  noise = ['', '# comment\n', '\n']
  n = 0

  def try_file(rows, before='', after='', last='\n'):
    nonlocal n
    n += 1
    text = before + after.join('\t'.join([raw(x)] + ([raw(y)] if y else [])) + '\n'
                               for x, y in rows) + after
    if last == '' and text.endswith('\n'):
      text = text[:-1]
    with open(path, 'w', encoding='utf8') as f:
      f.write(text)
    try:
      got = [tuple(r) for r in rule.rules_from_string_path(path)]
    except Exception as e:  # pylint: disable=broad-except
      got = repr(e)[:200]
    if got != list(rows) or any(type(x) is not str for r in got for x in r):
      kind = 'rule file'
      if not isinstance(got, str) and [tuple(map(str, r)) for r in got] != list(rows):
        kind = 'rule file/fields'
      c.violation(kind, file=text, got=got, expected=rows)
  for row in lines:
    for before in noise:
      try_file([row], before)
    try_file([row], '', '# x\n')
    try_file([row], last='')
  for rows in itertools.product(short, repeat=2):
    for after in noise:
      try_file(rows, '', after)
  if c.thorough:
    for rows in itertools.product(short, repeat=3):
      try_file(rows)
  try_file([])
  try_file([], '# nothing\n')
  for rest in ('', 'a\tb\n', '7\t8\n'):
    for y in ('b', '7'):
      with open(path, 'w', encoding='utf8') as f:
        f.write(rest + '\t' + y + '\n')
      n += 1
      got = attempt(lambda: list(rule.rules_from_string_path(path)))
      if got != 'ValueError':
        c.violation('rule file/no left side', file=rest, got=got)
  c.count('rule files', n, n)


def layers(rules):
  """What the documentation says: sets taken off the top, none within another of those left."""
  rest, out = list(dict.fromkeys(rules)), []
  while rest:
    top = [r for r in rest if not any(r != q and r[0] in q[0] for q in rest)]
    if not top:
      return 'ValueError'
    out.append(set(top))
    rest = [r for r in rest if r not in top]
  return out


def partitions(c, rule):
  left = ['a', 'b', 'ab', 'ba', 'aa', 'aab', 'bab', 'abab', '\u0995', '\u0995a']
  right = ['', 'a', 'z']
  pool = [rule.Rule(x, y) for x in left for y in right]
  pool2 = [rule.Rule(x, 'z') for x in left]
  n = 0
  sets = [()] + [t for k in (1, 2) for t in itertools.permutations(pool, k)]
  sets += list(itertools.permutations(pool2, 3))
  sets += [t for k in range(4, len(pool2) + 1) for t in itertools.combinations(pool2, k)]
  if c.thorough:
    sets += list(itertools.combinations(pool, 3))
  for rules in sets:
    n += 1
    got = attempt(rule.partition_unordered, list(rules))
    want = layers(rules)
    if got != 'ValueError':
      got = [list(x) for x in got]
    same = got == want if 'ValueError' in (got, want) else (
        [set(x) for x in got] == want and sum(map(len, got)) == len(set(rules)))
    if not same:
      c.violation('partition', rules=[tuple(r) for r in rules],
                  got=str(got), expected=str(want))
  c.count('partitions', n, n)


def leftmost(text, rules):
  """Rewrites from the left; no left side is a part of another one."""
  out, i = '', 0
  while i < len(text):
    for x, y in rules:
      if text.startswith(x, i):
        out += y
        i += len(x)
        break
    else:
      out += text[i]
      i += 1
  return out


def texts(letters, k):
  for n in range(k + 1):
    for t in itertools.product(letters, repeat=n):
      yield ''.join(t)


def outputs(pynini, fst, text):
  lattice = pynini.accep(pynini.escape(text)) @ fst
  if lattice.start() == -1:
    return []
  return sorted(set(lattice.project('output').rmepsilon().paths().ostrings()))


def rewrites(c, rule, pynini):
  """Sets and cascades of up to two (three) rules on all short texts."""
  sigma = pynini.union('a', 'b', 'z').optimize()
  depth = 5 if c.thorough else 4
  words = list(texts('abz', depth))
  union = pynini.union(*[pynini.cross(pynini.escape(w), pynini.escape(w)) for w in words]).optimize()
  path = os.path.join(c.scratch, 'rules.tsv')
  left = ['a', 'ab', 'ba', 'aa', 'aba']
  right = ['', 'b', 'za', 'ab']
  pool = [(x, y) for x in left for y in right]
  sets = [(r,) for r in pool] + [t for t in itertools.permutations(pool, 2)]
  triples = [(x, y) for x in left[:4] for y in ('b', '')]
  sets += [t for t in itertools.permutations(triples, 3) if len({x for x, _ in t}) == 3]
  n = states = 0
  for rules in sets:
    with open(path, 'w', encoding='utf8') as f:
      f.write(''.join('%s\t%s\n' % r if r[1] else r[0] + '\n' for r in rules))
    want = layers(rules)
    got = attempt(rule.fst_from_rule_file, path, sigma)
    if want == 'ValueError' or isinstance(got, str):
      if (want == 'ValueError') != isinstance(got, str):
        c.violation('rules/clash', rules=rules)
    else:
      compare(c, 'rules', union @ got, words, rules,
              lambda w, want=want: fold(w, [sorted(x) for x in want]))
      n += len(words)
    got = rule.fst_from_cascading_rule_file(path, sigma)
    compare(c, 'cascade', union @ got, words, rules, lambda w, rules=rules: fold(w, [[r] for r in rules]))
    n += len(words)
    states += 2
  c.count('rewrites', states, n, depth=depth)


def fold(w, steps):
  for step in steps:
    w = leftmost(w, step)
  return w


def compare(c, part, relation, words, what, model):
  """All pairs of the relation: exactly one output for each word."""
  got = {}
  for i, o, _ in relation.paths().items() if relation.start() != -1 else ():
    got.setdefault(i, set()).add(o)
  for w in words:
    if got.get(w) != {model(w)}:
      c.violation(part, rules=what, input=w, got=sorted(got.get(w, [])), expected=model(w))
      return


def compositions(c, rewrite, pynini):
  """Sequences of up to four transducers of different sizes, in every order."""
  sigma = pynini.union('a', 'b').optimize()
  star = sigma.star.optimize()
  ops = {'id': star, 'a>b': pynini.cdrewrite(pynini.cross('a', 'b'), '', '', star),
         'b>aa': pynini.cdrewrite(pynini.cross('b', 'aa'), '', '', star),
         'ab>ba': pynini.cdrewrite(pynini.cross('ab', 'ba'), '', '', star),
         'aba>': pynini.cdrewrite(pynini.cross('aba', ''), '', '', star)}
  model = {'id': [], 'a>b': [('a', 'b')], 'b>aa': [('b', 'aa')], 'ab>ba': [('ab', 'ba')],
           'aba>': [('aba', '')]}
  words = list(texts('ab', 6))
  union = pynini.union(*words).optimize()
  n = 0
  for k in range(1, 5 if c.thorough else 4):
    for seq in itertools.product(ops, repeat=k):
      n += 1
      got = rewrite.ComposeFsts([ops[x].copy() for x in seq])
      compare(c, 'compose', union @ got, words, seq, lambda w, seq=seq: fold(w, [model[x] for x in seq]))
      got = rewrite.ComposeFsts(ops[x].copy() for x in seq)
      compare(c, 'compose/iterator', union @ got, words[:20], seq,
              lambda w, seq=seq: fold(w, [model[x] for x in seq])) if k < 3 else None
  if rewrite.ComposeFsts([]).start() != -1:
    c.violation('compose/nothing')
  if not pynini.equivalent(rewrite.ComposeFsts([], star), star):
    c.violation('compose/default')
  compare(c, 'compose/no rules', union @ rewrite.RewriteAndComposeFsts([], sigma), words, [],
          lambda w: w)
  # Rewriting in context.
  for left, right in itertools.product(['', 'a', 'b', 'ab'], repeat=2):
    for x, y in (('a', 'b'), ('ab', ''), ('b', 'aa')):
      n += 1
      fst = rewrite.Rewrite(pynini.cross(x, y), sigma, left, right)

      def within(w, x=x, y=y, left=left, right=right):
        out, i = '', 0
        while i < len(w):
          if out.endswith(left) and w.startswith(x + right, i):
            out += y
            i += len(x)
          else:
            out += w[i]
            i += 1
        return out
      compare(c, 'rewrite', union @ fst, words, (x, y, left, right), within)
  c.count('compositions', n, n * len(words))


# --- alphabets --------------------------------------------------------------------


def alphabets(c, char):
  path = [os.path.join(c.scratch, x) for x in ('one.tsv', 'two.tsv')]
  rows = ['a\tb', 'cd\te', '\u0995\u09cd\u0995\tf', 'g', '# h\ti', '', 'a\tb\tj', 'k m\tn']
  n = 0
  for one in itertools.chain.from_iterable(itertools.permutations(rows, k) for k in range(4)):
    for two in [()] + [(r,) for r in rows]:
      for files, rs in zip(path, (one, two)):
        with open(files, 'w', encoding='utf8') as f:
          f.write(''.join(r + '\n' for r in rs))
      for both, source in (([path[0]], [path[1]]), ([], path), (path, []), ([path[1]], [path[0]]),
                           ([], [])):
        n += 1
        want = set()
        for files, k in ((both, 2), (source, 1)):
          for f in files:
            for r in (one, two)[path.index(f)]:
              if not r.startswith('#'):
                want.update(''.join(r.split('\t')[:k]))
        got = char.derive_chars(both_sides=both, input_side=source)
        if got != want:
          c.violation('characters', one=one, two=two, both=both, input_side=source,
                      got=sorted(got), expected=sorted(want))
  pool = ['a', '\u0995', '\u09cd', '\U00011440', '\\', '\u00e9', '\u200d']
  joiners = {'\u200b', '\u200c', '\u200d'}
  for k in range(len(pool) + 1):
    for chars in itertools.combinations(pool, k):
      n += 1
      got = char.derive_sigma(set(chars))
      if set(got.paths().ostrings()) != set(chars) | joiners:
        c.violation('sigma', chars=chars, got=sorted(got.paths().ostrings()))
      if any(float(str(w)) != 0 for w in got.paths().weights()):
        c.violation('sigma/weight', chars=chars)
  c.count('alphabets', n, n)


def safe(c, uf, func, pynini):
  path = os.path.join(c.scratch, 'strings.tsv')
  n = 0
  for lines in itertools.chain.from_iterable(
      itertools.permutations(['a', 'b\tc', 'ab', '\u0995\td'], k) for k in range(5)):
    n += 1
    with open(path, 'w', encoding='utf8') as f:
      f.write(''.join(x + '\n' for x in lines))
    fst = uf.StringFile(path)
    want = {tuple((x + '\t' + x).split('\t')[:2]) for x in lines}
    got = set() if fst.start() == -1 else {(i, o) for i, o, _ in fst.paths().items()}
    if got != want:
      c.violation('string file', lines=lines, got=sorted(got))
    default = uf.StringFile(path, pynini.accep('q'))
    got = {(i, o) for i, o, _ in default.paths().items()}
    if got != (want or {('q', 'q')}):
      c.violation('string file/default', lines=lines)
    ques = uf.QuesSafe(fst)
    if {(i, o) for i, o, _ in ques.paths().items()} != want | {('', '')}:
      c.violation('optional', lines=lines)
    star = uf.StarSafe(fst)
    pairs = {('', '')}
    for _ in range(2):
      pairs |= {(i + x, o + y) for i, o in pairs for x, y in want}
    words = sorted({i for i, _ in pairs}) + ['zz', 'ba' if not lines else 'q']
    for w in words:
      good = bool(uf.StarSafe(fst).copy()) and (pynini.accep(w) @ star).start() != -1
      if good != (w in {i for i, _ in pairs}):
        c.violation('repeated', lines=lines, input=w)
  # Functions applied one after another.
  fns = {'+1': lambda v: v + 1, '*2': lambda v: v * 2, '-': lambda v: -v}
  for k in range(5):
    for seq in itertools.product(fns, repeat=k):
      n += 1
      want = 3
      for x in seq:
        want = fns[x](want)
      if func.ComposeFn1(*[fns[x] for x in seq])(3) != want:
        c.violation('functions', sequence=seq)
  c.count('safe', n, n)


if __name__ == '__main__':
  check.run('P27', main)
