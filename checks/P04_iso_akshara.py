"""P04: romanization follows the akshara structure and the letter tables."""
import os, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, fsa, rewrite, traces
from mc.engine import CapReached, text

BIG = ['Deva', 'Knda', 'Sinh', 'Beng']


ISO_SCRIPTS = ('Beng', 'Deva', 'Gujr', 'Guru', 'Knda', 'Mlym', 'Newa', 'Orya', 'Takr', 'Taml',
               'Telu', 'Tirh')
ISO_CONSONANTS = {
    'KA': 'k', 'KHA': 'k\u02b0', 'GA': 'g', 'GHA': 'g\u02b0', 'NGA': '\u1e45',
    'CA': 'c', 'CHA': 'c\u02b0', 'JA': 'j', 'JHA': 'j\u02b0', 'NYA': '\u00f1',
    'TTA': '\u1e6d', 'TTHA': '\u1e6d\u02b0', 'DDA': '\u1e0d', 'DDHA': '\u1e0d\u02b0', 'NNA': '\u1e47',
    'TA': 't', 'THA': 't\u02b0', 'DA': 'd', 'DHA': 'd\u02b0', 'NA': 'n',
    'PA': 'p', 'PHA': 'p\u02b0', 'BA': 'b', 'BHA': 'b\u02b0', 'MA': 'm',
    'YA': 'y', 'RA': 'r', 'LA': 'l', 'LLA': '\u1e37', 'VA': 'v',
    'SHA': '\u015b', 'SSA': '\u1e63', 'SA': 's', 'HA': 'h'}
ISO_VOWELS = {
    'A': 'a', 'AA': '\u0101', 'I': 'i', 'II': '\u012b', 'U': 'u', 'UU': '\u016b',
    'VOCALIC R': 'r\u0325', 'E': 'e', 'EE': '\u0113', 'AI': 'ai', 'O': 'o', 'OO': '\u014d', 'AU': 'au'}
ISO_CODAS = {'ANUSVARA': '\u1e41', 'VISARGA': '\u1e25', 'CANDRABINDU': 'm\u0310'}


def reference(t):
  """The romanization of one script, cheapest reading first."""
  x = {n: (fsa.string_map(getattr(t, n)) if getattr(t, n) else fsa.EMPTY) for n in t.NAMES}
  cost = lambda w: fsa.cross('', '', w)  # pylint: disable=unnecessary-lambda-assignment
  inherent = fsa.union(*[fsa.cross('', a) for a, _ in t.inherent_vowel]) if t.inherent_vowel else fsa.EMPTY
  vir = [a for a, _ in t.virama]
  no_vowel = fsa.union(*[fsa.cross(v, '') for v in vir]) if vir else fsa.EMPTY
  breve = fsa.union(*[fsa.cross(v, '\u02d8') for v in vir]) if vir else fsa.EMPTY
  more = fsa.concat(fsa.cross('', '.'), x['vowel'])  # an independent vowel inside a word
  cons = fsa.concat(x['consonant'], fsa.opt(x['subjoined_consonant']))
  rest = lambda w: fsa.union(cost(w), fsa.plus(more))  # pylint: disable=unnecessary-lambda-assignment
  unit = fsa.union(
      fsa.concat(cons, x['vowel_sign'], rest(0.)),
      fsa.concat(cons, inherent, rest(1.)),
      fsa.concat(cons, no_vowel, rest(1.)),
      fsa.concat(x['vowel'], fsa.star(more), cost(1.)),
      fsa.concat(x['coda'], cost(1.)),
      x['dead_consonant'],
      x['vowel_length_sign'],
      fsa.concat(x['standalone'], cost(1.)),
      fsa.concat(fsa.cross('', '-'), x['vowel_sign'], fsa.star(more), cost(1.)),
      fsa.concat(breve, cost(2.)),
      fsa.string_map(t.symbol))
  return fsa.make(fsa.star(unit), 'reference/' + t.script)


def main(c):
  c.build(['brahmic/iso.far', 'brahmic/iso_utf8.far', 'brahmic/sigma_utf8.far'])
  scripts = sorted(mb.scripts(), key=lambda s: (s not in BIG, BIG.index(s) if s in BIG else 0, s))
  tabs = mb.load(c)

  def one(s):
    f = c.machine('brahmic/iso_utf8.far', 'FROM_' + s.upper())
    t = tabs[s]
    labels = sorted(map(ord, t.chars()))
    nfc = rewrite.unordered(t.nfc, labels, 'nfc')
    ref = nfc.compose(reference(t))

    def differ(w):
      a, b = [[text(x, 0) for x in m.apply(w)] for m in (ref, f)]
      if sorted(a) != sorted(b):
        return {'expected': a, 'got': b}
      return None
    # The same cheapest outputs, on the same strings: both machines in lockstep.
    r = f.best(ref, 9)
    c.decide(s, r, False, differ)
    return f

  fs = dict(zip(scripts, c.each(one, scripts)))

  # The core letters of ISO 15919, by their Unicode names.
  n = 0
  for s in ISO_SCRIPTS:
    api, f = None, fs[s]
    pre = unicodedata.name(tabs[s].consonant[0][0][0]).split(' LETTER ')[0]

    def letter(kind, name):
      try:
        ch = unicodedata.lookup('%s %s %s' % (pre, kind, name))
      except KeyError:
        return None
      # a letter the script's tables have
      return ch if ch in tabs[s].chars() else None

    def expect(word, iso):
      nonlocal n
      n += 1
      got = [text(x, 0) for x in f.apply(word)]
      if got != [iso]:
        c.violation('%s/ISO 15919: %s' % (s, ascii(word)), input=word, expected=iso, got=got)

    vir = tabs[s].virama[0][0]
    ka = letter('LETTER', 'KA')
    long_eo = s in ('Deva', 'Beng', 'Gujr', 'Newa', 'Orya', 'Takr', 'Tirh')
    for name, iso in ISO_CONSONANTS.items():
      ch = letter('LETTER', name)
      if ch:
        expect(ch, iso + 'a')
        expect(ch + vir, iso)
        expect(ka + vir + ch, 'k' + iso + 'a')
    for name, iso in ISO_VOWELS.items():
      if name in ('E', 'O') and long_eo or s == 'Guru' and name in ('EE', 'OO'):
        iso = {'E': '\u0113', 'O': '\u014d', 'EE': '\u0113', 'OO': '\u014d'}[name]
      if s == 'Mlym' and name == 'AU':
        continue
      ch, sign = letter('LETTER', name), letter('VOWEL SIGN', name)
      if ch:
        expect(ch, iso)
        if name != 'A':
          expect(ka + ch, 'ka.' + iso)
      if sign:
        expect(ka + sign, 'k' + iso)
        expect(sign, '-' + iso)
    for name, iso in ISO_CODAS.items():
      ch = letter('SIGN', name)
      if s == 'Taml' and name == 'VISARGA':
        iso = '\u1e35'  # the aytham
      if ch:
        expect(ka + ch, 'ka' + iso)
  c.count('ISO 15919 core letters', states=n, transitions=n)
  from nisaba.scripts.utils import far as ufar
  import pathlib
  store = ufar.Far(pathlib.Path('com_google_nisaba/nisaba/scripts/brahmic/iso.far'))
  # The API gives the model's answer on a transition cover.
  for s in mb.scripts():
    api = store.Fst('FROM_' + s.upper())
    for w in traces.cover(fs[s], None if c.thorough else 700):
      want = [text(x, 0) for x in fs[s].apply(w)]
      got = api.ApplyOnText(w)
      c.traces += 1
      if want != [got]:
        c.violation('%s/api: %s' % (s, ascii(w)), input=w, model=want, got=got)
    c.sample({'script': s, 'input': w, 'romanized': got})


check.run('P04', main)
