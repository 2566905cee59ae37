"""P03: the romanizer for all Brahmic scripts at once."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, fsa, traces
from mc.engine import Machine, sigma_star, text


def site(t, where, w):
  """Names a failing text; a consonant written as a vowel and a mark is one place,
  whatever comes before it."""
  vowels = {a for a, _ in t.vowel}
  for a, _ in t.consonant:
    if a[:-1] in vowels and a in w[1:]:
      return '%s: %s after other text' % (t.script, ascii(a))
  return '%s/%s: %s' % (t.script, where, ascii(w))


def pick(t, extra):
  """A small alphabet with a character of each class of the script."""
  out = []
  for n in ('consonant', 'vowel', 'vowel_sign', 'virama', 'coda', 'dead_consonant', 'standalone',
            'subjoined_consonant', 'vowel_length_sign'):
    rows = [a for a, _ in getattr(t, n)]
    for a in rows[:2 if n in ('consonant',) else 1]:
      out += [x for x in a if x not in out]
  for a, b in t.nfc[:1]:
    out += [x for x in a if x not in out]
  return out[:11] + extra


def main(c):
  c.build(['brahmic/iso.far', 'brahmic/iso_utf8.far', 'brahmic/nfc_utf8.far'])
  from nisaba.scripts import brahmic
  api = brahmic.ToIso()
  tabs = mb.load(c)
  g8 = c.machine('brahmic/iso_utf8.far', 'FROM_BRAHMIC')
  gb = c.machine('brahmic/iso.far', 'FROM_BRAHMIC')

  # Never fails: every string is accepted.  For utf8: over the characters of the scripts
  # and of the romanization; for bytes: any bytes at all.
  chars = sorted(set().union(*[set(map(ord, t.chars())) for t in tabs.values()]))
  c.accepts('utf8 total', sigma_star(chars), g8)
  c.accepts('byte total', Machine.make(0, {0}, [(0, b, b, 0., 0) for b in range(1, 256)], 'bytes'), gb,
            byte=True)

  # Text without Brahmic characters comes out as it went in, for every string.
  other = ([chr(x) for x in range(1, 128)] + [chr(x) for x in range(0xa0, 0x300)] +
           list('\u03b1\u0416\u05d0\u0627\u4e00\U0001f600'))
  # (the joiners are Brahmic data)
  o = sigma_star(list(map(ord, other)), 'other text').expand()
  plain = gb_best(c, o, gb)

  # Alone, a script's text is romanized as its own romanizer does: all short strings.
  def script(s):
    f = c.machine('brahmic/iso_utf8.far', 'FROM_' + s.upper())
    n = bad = 0
    def one(w, byte_too):
      want = {tuple(x) for x in f.apply(w)}
      if not want:
        return  # not in the language of the script's romanizer
      got = {tuple(x) for x in g8.apply(w)}
      if not want & got:
        c.violation(site(tabs[s], 'utf8', w), input=w, script=[text(x, 0) for x in want],
                    generic=[text(x, 0) for x in got])
      if byte_too:
        b = {text(x, 1) for x in gb.apply(w.encode())}
        if b & {text(x, 0) for x in want} == set():
          c.violation(site(tabs[s], 'byte', w), input=w, script=[text(x, 0) for x in want],
                      generic=sorted(b))
    allc = sorted(tabs[s].chars())
    for w in itertools.chain(allc, map(''.join, itertools.product(allc, repeat=2))):
      one(w, True)
      n += 1
    small = pick(tabs[s], [])
    for d in range(3, 5 + int(c.thorough)):
      for w in map(''.join, itertools.product(small, repeat=d)):
        one(w, d == 3)
        n += 1
    c.count(s + '/short strings', states=n, transitions=n, alphabet=len(small))
  c.each(script, mb.scripts())

  # The API: one answer, the script's own, also inside other text and next to another script.
  from nisaba.scripts.utils import far as ufar
  import pathlib
  store = ufar.Far(pathlib.Path('com_google_nisaba/nisaba/scripts/brahmic/iso.far'))
  scr = mb.scripts()
  n = 0
  for k, s in enumerate(scr):
    own = store.Fst('FROM_' + s.upper())
    f = c.machine('brahmic/iso_utf8.far', 'FROM_' + s.upper())
    small = pick(tabs[s], [])
    t2 = scr[(k + 1) % len(scr)]
    f2 = c.machine('brahmic/iso_utf8.far', 'FROM_' + t2.upper())
    alien = tabs[t2].consonant[0][0]
    if not f2.apply(alien):
      alien += tabs[t2].vowel_sign[0][0]
    alien_iso = store.Fst('FROM_' + t2.upper()).ApplyOnText(alien)
    words = [''.join(w) for d in range(1, 4) for w in itertools.product(small, repeat=d)]
    words += traces.cover(f, 3000 if c.thorough else 300)
    if not c.thorough:
      words = words[:len(small) + len(small)**2] + words[len(small) + len(small)**2::2]
    for w in words:
      if not f.apply(w):
        continue
      want = own.ApplyOnText(w)
      n += 1
      got = api.ApplyOnText(w)
      if got != want:
        c.violation(site(tabs[s], 'api', w), input=w, script=want, generic=got)
      if n % 8 == 0:
        mixed = 'ab [%s], %s \u03b1\\' % (w, alien)
        got = api.ApplyOnText(mixed)
        if got != 'ab [%s], %s \u03b1\\' % (want, alien_iso):
          c.violation(site(tabs[s], 'api mixed', w), input=mixed, got=got,
                      script=[want, alien_iso])
    c.traces += len(words)
    c.sample({'script': s, 'input': w, 'romanized': want})


def gb_best(c, lang, g):
  """Machine lang maps to itself under the best path of g."""
  r = lang.best(g, 4 | 2)
  return c.decide('other text unchanged', r, True,
                  lambda w: {'generic': [text(x, 1) for x in g.apply(w)]})


check.run('P03', main)
