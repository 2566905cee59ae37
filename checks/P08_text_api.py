"""P08: the text functions apply the grammars to exactly the text they are given."""
import importlib, itertools, os, re, string, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check
from mc.engine import Machine, text

PIECES = ['\u0915', '\u094d', '\u093e', '\u093c', '\u0310', '\u200c', '[', ']', '\\', 'x', '[x]']


def main(c):
  c.build(['brahmic/visual_norm.far', 'brahmic/wellformed.far', 'brahmic/iso.far', 'brahmic/nfc.far',
           'brahmic/visual_norm_utf8.far', 'brahmic/sigma_utf8.far', 'brahmic/fixed.far'])
  from nisaba.scripts import brahmic
  from nisaba.scripts.utils import far as far_mod
  load = lambda p, k: c.machine('brahmic/' + p, k)  # pylint: disable=unnecessary-lambda-assignment
  vn, wf = load('visual_norm.far', 'DEVA'), load('wellformed.far', 'DEVA')
  depth = 5 if c.thorough else 4
  memo = {}

  def best(m, s):
    k = (m.name, s)
    if k not in memo:
      memo[k] = [bytes(x).decode('utf8') for x in m.apply(list(s.encode('utf8')))]
    return memo[k]

  def same(site, s, want, fn):
    """fn(s) gives want (a set of values or an exception class)."""
    c.evaluations += 1
    try:
      got = fn(s)
    except Exception as e:  # pylint: disable=broad-except
      got = type(e)
    if isinstance(want, type):
      ok = isinstance(got, type) and issubclass(got, want)
    else:
      ok = got in want
    if not ok:
      c.violation('%s: %s' % (site, ascii(s)), input=s, expected=want, got=got)

  def strings(pieces, n):
    for k in range(n + 1):
      for t in itertools.product(pieces, repeat=k):
        yield ''.join(t)

  # 1. One grammar on every text up to the bound: brackets and backslashes are ordinary
  # characters, and a text the grammar does not map is an error of its own kind.
  count = 0
  cases = [('VisualNorm', brahmic.VisualNorm('Deva'), vn, False),
           ('visualnorm', brahmic.VisualNorm('deva'), vn, False),
           ('WellFormed', brahmic.WellFormed('Deva'), wf, True)]
  nfc = load('nfc.far', 'BRAHMIC')
  cases.append(('Nfc', brahmic.Nfc(), nfc, False))
  for s in dict.fromkeys(strings(PIECES, depth - 1)):
    for name, api, m, acceptor in cases:
      o = best(m, s)
      count += 1
      if acceptor:
        same(name, s, {bool(o)}, api.AcceptText)
      else:
        same(name, s, set(o) if o else far_mod.FstInputError, api.ApplyOnText)
  back, to = brahmic.IsoTo('Deva'), load('iso.far', 'TO_DEVA')
  for s in dict.fromkeys(strings(['k', 'a', '\u0101', '-', '.', '\u02d8', '[', '\\', '\u0915'], depth - 1)):
    o = best(to, s)
    count += 1
    same('IsoTo', s, set(o) if o else far_mod.FstInputError, back.ApplyOnText)
  c.count('one text', states=count, transitions=count)

  # 2. Lines: words between the ignored characters are normalized one by one, the rest is
  # copied; the first bad word rejects the line.
  word_pieces = ['\u0915', '\u093c', '\u094d', '\u0310', '[', ' ', '\n', ';']
  count = 0
  ignores = {'default': None, 'semicolon': ';', 'odd': ']^-\\;[', 'letter': '\u093c '}
  for name, ign in ignores.items():
    acc = brahmic.NormalizingAcceptor('Deva') if ign is None else brahmic.NormalizingAcceptor('Deva', ign)
    ign = string.whitespace if ign is None else ign
    for line in dict.fromkeys(strings(word_pieces, depth)):
      want, word, bad = '', '', None
      for ch in line + '\0':
        if ch in ign or ch == '\0':
          if word:
            o = best(vn, word)
            if not o:
              bad = bad or far_mod.FstInputError
            elif not best(wf, o[0]):
              bad = bad or brahmic.IllFormedError
            else:
              want += o[0]
          word = ''
          want += ch if ch != '\0' else ''
        else:
          word += ch
      count += 1
      same('NormalizingAcceptor/' + name, line, bad or {want}, acc.ApplyOnText)
  c.count('lines', states=count, transitions=count)
  for bad in ('Latn', 'xx', '', 'Deva '):
    same('NormalizingAcceptor/script', bad, brahmic.ScriptError, brahmic.NormalizingAcceptor)

  # 3. Histories: what a call returns does not depend on the calls before it.
  w = '\u0915\u093c\u0940'
  ops = [
      ('VisualNorm Deva', lambda b: b.VisualNorm('Deva').ApplyOnText('\u0958\u0940')),
      ('VisualNorm Beng', lambda b: b.VisualNorm('BENG').ApplyOnText('\u0995\u09cd\u200d')),
      ('VisualNorm bn', lambda b: b.VisualNorm('bn').ApplyOnText('\u0995\u09f0')),
      ('WellFormed Deva', lambda b: b.WellFormed('Deva').AcceptText(w)),
      ('WellFormed Beng', lambda b: b.WellFormed('Beng').AcceptText(w)),
      ('ToIso', lambda b: b.ToIso().ApplyOnText('a ' + w)),
      ('IsoTo Deva', lambda b: b.IsoTo('Deva').ApplyOnText('q\u012b')),
      ('IsoTo Mlym', lambda b: b.IsoTo('mlym').ApplyOnText('k\u012b')),
      ('Nfc', lambda b: b.Nfc().ApplyOnText('\u0958')),
      ('acceptor', lambda b: b.NormalizingAcceptor('Deva').ApplyOnText(w + ' ' + w)),
      ('bad acceptor', lambda b: b.NormalizingAcceptor('Latn')),
      ('bad text', lambda b: b.IsoTo('Deva').ApplyOnText('?')),
  ]

  def outcome(b, f):
    try:
      return f(b)
    except Exception as e:  # pylint: disable=broad-except
      return type(e).__name__
  fresh = {}
  for n, f in ops:
    fresh[n] = outcome(importlib.reload(brahmic), f)
  want = {'VisualNorm Deva': '\u0915\u093c\u0940', 'VisualNorm Beng': '\u0995\u09cd', 'WellFormed Deva': True,
          'WellFormed Beng': False, 'ToIso': 'a q\u012b', 'IsoTo Deva': '\u0915\u093c\u0940',
          'IsoTo Mlym': '\u0d15\u0d40', 'Nfc': '\u0915\u093c', 'acceptor': w + ' ' + w,
          'bad acceptor': 'ScriptError', 'bad text': 'FstInputError'}
  for n, x in want.items():
    if fresh[n] != x:
      c.violation('history/' + n, expected=x, got=fresh[n])
  count = steps = 0
  for h in itertools.permutations(ops, 3 if c.thorough else 2):
    b = importlib.reload(brahmic)
    count += 1
    for k, (n, f) in enumerate(h + h[:1]):
      steps += 1
      got = outcome(b, f)
      if got != fresh[n]:
        c.violation('history/%s after %s' % (n, [x[0] for x in h[:k]]), expected=fresh[n], got=got)
  c.count('histories', states=count, transitions=steps)
  c.traces += c.evaluations + steps
  c.sample({'histories': count, 'operations': [n for n, _ in ops]})


check.run('P08', main)
