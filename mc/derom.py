"""Reference model of deromanization: Latin a-z to ISO, rule by rule.

A Latin letter is itself; a Brahmic token is one private character.
"""
import string

from mc.natural import GLYPHS, Rule

_glyph = {t: g for g, t in GLYPHS.items()}
_ids, PRINT = {}, {}


def B(names):
  """Tokens of Brahmic characters by name."""
  return ''.join(_ids.setdefault(n, chr(0xE000 + len(_ids))) for n in names.split())


def _print(name):
  if name == 'vir':
    return ''
  if name.endswith('_i'):
    return '.' + _print(name[:-2])
  if name in ('ai', 'au'):
    return name
  if len(name) == 2 and name[1] == 'h' and name not in _glyph:
    return _glyph[name[0]] + '\u02b0'
  return _glyph[name]


SCHWA_BEARING = 'b bh c ch d dh f g gh h j jh k kh l lr m n p ph r rr s sh t th v y z'
VOWELS = 'a aa ai au e ee i ii o oo u uu'
for _n in (SCHWA_BEARING + ' ' + VOWELS).split() + [v + '_i' for v in VOWELS.split()] + ['vir', 'ans']:
  PRINT[B(_n)] = _print({'sh': 'sh'}.get(_n, _n))
CONS = '[%s]' % B(SCHWA_BEARING)
VIR = B('vir')
LATIN_V = '[aeiou]'
LATIN_C = '[b-df-hj-np-tv-z]'
LONG = {'a': 'aa', 'e': 'ee', 'i': 'ii', 'o': 'oo', 'u': 'uu'}
ASP = {x: x + 'h' for x in 'b c d g j k p t'.split()}
BOW, EOW = r'\A', r'\Z'


def R(pairs, left=None, right=None):
  return Rule(pairs, left, right, skip=False)


class Letter:
  """A romanized consonant and what it stands for."""

  def __init__(self, rom, brh, foreign=None):
    self.rom, self.foreign = rom, foreign
    self.brh = B(brh)
    self.last = brh.split()[-1]
    self.twice = [rom * 2] + ([rom[0] + rom] if len(rom) > 1 else [])
    self.asp = B(ASP[brh]) if brh in ASP else None


class Deromanizer:

  def __init__(self, schwa_deletion, long_vowels, diphthongs, aspirated, drops, plain, gem_only,
               foreign, high, anusvara):
    self.bare = schwa_deletion  # Consonants carry no virama until the end.
    r = []
    for x in high:
      r += self.cons([x])
    if anusvara:
      r.append(R([('m', B('ans'))], LATIN_V, '[bp]'))
      r.append(R([('n', B('ans'))], LATIN_V, '(?:[b-df-hj-lp-tv-z]|%s)' % EOW))
    r += self.pairs([(t, B(x.foreign), 2) for x in foreign for t in x.twice])
    r += self.pairs([(x.rom, B(x.foreign), 1) for x in foreign])
    for size in (2, 1):
      some = [x for x in drops if len(x.rom) == size]
      r += self.pairs([((x.rom + 'h') * 2, x.brh, 2) for x in some])
      r += self.pairs([(x.rom + 'h', x.brh, 1) for x in some])
    for size in (2, 1):
      some = [x for x in aspirated if len(x.rom) == size]
      if self.bare:  # pph
        r.append(R([(t + 'h', x.brh + VIR + x.asp) for x in some for t in x.twice]))
      r += self.pairs([((x.rom + 'h') * 2, x.asp, 2) for x in some])
      r += self.pairs([(x.rom + 'h', x.asp, 1) for x in some])
    r += self.pairs([(t, x.brh, 2) for x in gem_only for t in x.twice])
    everything = aspirated + drops + plain + gem_only + foreign
    for size in (2, 1):
      r += self.cons([x for x in everything if len(x.rom) == size])
    vowels = sorted(LONG)
    r += self.vowels([(v * 2, LONG[v]) for v in vowels])
    r += self.vowels(diphthongs)
    r += self.vowels([(v, LONG[v]) for v in long_vowels])
    r += self.vowels([(v, v) for v in vowels])
    if schwa_deletion:
      r += [R([('', VIR)], BOW + CONS, CONS), R([(B('a'), B('aa'))], None, EOW),
            R([('', VIR)], CONS, CONS + EOW)]
    # The inherent vowel, written.
    signs = '[%s]' % (B(VOWELS) + VIR)
    r += [R([('', B('a'))], CONS), R([(B('a'), '')], None, signs),
          R([(B(v + '_i'), B(v)) for v in VOWELS.split()], BOW)]
    self.rules = r

  def pairs(self, triples):
    """(Latin, token, how often): one rule, or two where the virama is already needed."""
    if not triples:
      return []
    dead = lambda b, k: VIR.join([b] * k)
    if self.bare:
      return [R([(a, dead(b, k)) for a, b, k in triples])]
    return [R([(a, dead(b, k)) for a, b, k in triples], None, LATIN_V),
            R([(a, dead(b, k) + VIR) for a, b, k in triples])]

  def cons(self, letters):
    return (self.pairs([(t, x.brh, 2) for x in letters for t in x.twice]) +
            self.pairs([(x.rom, x.brh, 1) for x in letters]))

  def vowels(self, pairs):
    return [R([(a, B(b)) for a, b in pairs], CONS), R([(a, B(b + '_i')) for a, b in pairs])] if pairs else []

  def __call__(self, word):
    """The set of ISO outputs."""
    rows = {word}
    for r in self.rules:
      new = set()
      for s in rows:
        new.update(r(s))
      rows = new
    return {''.join(PRINT[c] for c in s) for s in rows if all(c in PRINT for c in s)}


def _letters(text):
  return [Letter(*x.replace('+', ' ').split('=')) for x in text.split()]


_X = [Letter('x', 'k vir s')]
FOREIGN = [Letter('f', 'ph', 'f'), Letter('z', 'j', 'z')]
HI = Deromanizer(
    True, 'eo', [('ai', 'ai'), ('au', 'au')],
    _letters('b=b ch=c d=d g=g j=j k=k p=p t=t'), [],
    _letters('c=c h=h l=l m=m n=n q=k r=r s=s sh=sh v=v w=v y=y') + _X, [], FOREIGN, [], True)
TA = Deromanizer(
    False, '', [('ai', 'ai'), ('au', 'au'), ('ae', 'ee'), ('oa', 'oo')],
    [], _letters('b=p ch=c d=t g=k j=j k=k p=p t=t'),
    _letters('c=c h=h l=l m=m n=n q=k r=r s=s sh=sh v=v w=v y=y') + _X, _letters('tr=rr'),
    FOREIGN, _letters('zh=lr'), False)
ALPHABET = string.ascii_lowercase
