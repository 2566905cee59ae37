"""P14: Arabic script reading normalization, and word by word normalization of lines."""
import itertools, os, string, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import abjad, check, rewrite, traces
from mc import brahmic as mb
from mc.engine import sigma_star, text

LANGS = 'ar azb bal ckb fa ks ms pa prs ps sd ug ur uz'.split()


def main(c):
  c.build(['abjad_alphabet/reading_norm%s.Arab.%s.far' % (u, l) for u in ('', '_utf8')
           for l in LANGS] + ['abjad_alphabet/' + x for x in (
               'nfc_utf8.far', 'nfc.far', 'reading_norm.far', 'visual_norm.far')])
  from nisaba.scripts import abjad_alphabet as aa
  from nisaba.scripts.utils import far
  t = abjad.Abjad(c.ws)
  nfc = c.machine('abjad_alphabet/nfc_utf8.far', 'ARAB')
  labels = mb.labels(nfc)

  def reading(lang):
    ref = rewrite.unordered(t.lang(lang, 'reading_norm'), labels)
    m = c.machine('abjad_alphabet/reading_norm_utf8.Arab.%s.far' % lang, lang.upper())
    c.same_function(lang, ref, m)
    e = ref.expand()
    for path in ('abjad_alphabet/reading_norm.Arab.%s.far' % lang,
                 'abjad_alphabet/reading_norm.far'):
      c.same_function(path, e, c.machine(path, lang.upper()), byte=True)
    return lang, ref

  for lang, ref in c.each(reading, LANGS):
    f = aa.ReadingNorm(lang)
    for w in traces.cover(ref, 400):
      if not w:
        continue
      c.traces += 1
      want, got = [text(x, 0) for x in ref.apply(w)], f.ApplyOnText(w)
      if [got] != want:
        c.violation('%s/api: %s' % (lang, ascii(w)), input=w, expected=want, got=got)

  # Lines: every text of a few pieces, with several sets of ignored characters.
  langs = LANGS if c.thorough else ['ur', 'pa', 'ug', 'ar']
  words = ['\u0643', '\u06cc\u0627', '\u0627\u0653', '\ufef4']
  depth = 5 if c.thorough else 4
  n = 0
  for lang in langs:
    visual, memo = aa.VisualNorm(lang), {}
    canon = aa.Nfc()

    def word(w):
      if w not in memo:
        memo[w] = visual.ApplyOnText(canon.ApplyOnText(w))
      return memo[w]
    final = t.lang(lang, 'visual_norm_final_isolated') + t.lang(lang, 'visual_norm_isolated')
    pieces = words[:2] + [a for a, _ in final[:1]]
    for ignore in (None, ' .', ']^-', '\\', 'd\u06d4', '\U0001f600 '):
      norm = aa.Normalizer(lang) if ignore is None else aa.Normalizer(lang, ignore)
      drop = string.whitespace if ignore is None else ignore
      gaps = sorted({' ', '.'} | set('\n' if ignore is None else ignore))
      for k in range(depth + 1):
        for line in itertools.product(pieces + gaps, repeat=k):
          s = ''.join(line)
          want, run = '', ''
          for x in s + '\0':
            if x in drop or x == '\0':
              want += word(run) if run else ''
              want += x if x != '\0' else ''
              run = ''
            else:
              run += x
          n += 1
          got = norm.ApplyOnText(s)
          if got != want:
            c.violation('%s/line: %s ignoring %s' % (lang, ascii(s), ascii(drop)), input=s,
                        expected=want, got=got)
          if s and not set(s) & set(drop) and norm.ApplyOnWord(s) != want:
            c.violation('%s/word: %s' % (lang, ascii(s)), input=s, expected=want,
                        got=norm.ApplyOnWord(s))
    for bad in ('[', 'a[', '\u0915', '\u0627\u0915'):
      for f in (norm.ApplyOnText, norm.ApplyOnWord):
        n += 1
        try:
          got = f(bad)
          c.violation('%s/foreign: %s' % (lang, ascii(bad)), input=bad, got=got)
        except far.FstInputError:
          pass
  for tag in ('xx', '', 'Arab', 'hi', 'ur '):
    n += 1
    try:
      aa.Normalizer(tag)
      c.violation('tag: %r' % tag, input=tag, expected='TagError')
    except aa.TagError:
      pass
  for tag in LANGS:
    for x in (tag, tag.upper(), tag.title()):
      n += 1
      if aa.Normalizer(x).ApplyOnText('\u0643') != aa.VisualNorm(tag).ApplyOnText('\u0643'):
        c.violation('tag: %r' % x, input=x)
  c.count('lines', states=n, transitions=n, depth=depth, languages=langs)
  c.traces += n


check.run('P14', main)
