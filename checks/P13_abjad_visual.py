"""P13: Arabic script visual normalization applies its rules in order, by position in the word."""
import concurrent.futures as cf
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import abjad, check, fsa, rewrite, traces
from mc import brahmic as mb
from mc.engine import Machine, sigma_star, text

LANGS = 'ar azb bal ckb fa ks ms pa prs ps sd ug ur uz'.split()


def spread(table, rep, chars):
  """The machine of a table in which rep stands for all chars, which nothing mentions."""
  def step(s, x):
    if x in table.chars:
      r = table.step(s, x)
      if r and rep in r[1]:
        raise ValueError('%r written without being read' % rep)
      return r
    d, o = table.step(s, rep)
    if o.count(rep) != 1 or not o.endswith(rep):
      raise ValueError('%r is not neutral' % rep)
    return d, o[:-1] + x
  return fsa.machine_of_steps(table.start, step, table.finish, chars, cap=5_000_000)


def reference(t, lang, labels):
  """(machine, states explored): presentation forms; canonical forms; script; language."""
  forms = dict(t.presentation_forms)
  tabs = [t.nfc, t.visual_norm] + [t.lang(lang, n) for n in abjad.LANG if n != 'reading_norm']
  used = {x for r in tabs for a, b in r for x in a + b}
  if used & set(forms) or any(len(a) != 1 for a in forms):
    raise ValueError('the rules do not keep presentation forms apart')
  first = fsa.make(fsa.star(fsa.string_map(
      [(chr(l), forms.get(chr(l), chr(l))) for l in labels])))
  rest = [l for l in labels if chr(l) not in forms]
  rep = next(chr(l) for l in rest if chr(l) not in used)
  models = rewrite.unordered_models(t.nfc) + rewrite.unordered_models(t.visual_norm)
  tab = rewrite.fold(models + abjad.language(t, lang, map(ord, sorted(used) + [rep])),
                     sorted(used) + [rep])
  tab.chars = used
  second = spread(tab, rep, rest)
  return first.compose(second), tab.explored, sorted(map(ord, used)) + [ord(rep)]


def main(c):
  c.build(['abjad_alphabet/visual_norm%s.Arab.%s.far' % (u, l) for u in ('', '_utf8')
           for l in LANGS] + ['abjad_alphabet/' + x for x in (
               'nfc_utf8.far', 'nfc.far', 'visual_norm.far')])
  from nisaba.scripts import abjad_alphabet as aa
  from nisaba.scripts.abjad_alphabet import util
  if sorted(util.LANGS) != LANGS:
    c.violation('languages', expected=LANGS, got=sorted(util.LANGS))
  t = abjad.Abjad(c.ws)
  nfc = c.machine('abjad_alphabet/nfc_utf8.far', 'ARAB')
  labels = mb.labels(nfc)

  def one(lang):
    ref, explored, small = reference(t, lang, labels)
    c.count(lang + '/reference', explored, explored * len(labels), least=ref.states())
    # One character of the whole alphabet in any text of the characters of the rules.
    some = fsa.machine_of_steps(
        0, lambda s, x: (s, x) if ord(x) in small else (1, x) if not s else None,
        lambda s: '', labels)
    close = sigma_star(small)
    m = c.machine('abjad_alphabet/visual_norm_utf8.Arab.%s.far' % lang, lang.upper())
    c.same_function(lang, ref, m, domain=False)
    c.accepts(lang + '/total', some if c.thorough else close, m)
    del m
    # Bytes.
    b = c.machine('abjad_alphabet/visual_norm.Arab.%s.far' % lang, lang.upper())
    e, near = ref.expand(), (some if c.thorough else close).expand()
    if c.thorough:
      c.same_function(lang + '/bytes', e, b, byte=True, domain=False)
    n = near.compose(b)
    c.same_function(lang + '/bytes/one', near.compose(e), n, byte=True, domain=False)
    c.accepts(lang + '/bytes/total', near, n, byte=True)
    return lang, close.compose(ref)

  with cf.ThreadPoolExecutor(3 if c.thorough else 4) as ex:
    done = list(ex.map(one, LANGS))

  # The API, on inputs that take every transition.
  for lang, m in done:
    f = aa.VisualNorm(lang)
    m = m.reduce()
    for w in traces.cover(m, 4000 if c.thorough else 300):
      if not w:
        continue
      want = [text(x, 0) for x in m.apply(w)]
      got = f.ApplyOnText(w)
      c.traces += 1
      if [got] != want:
        c.violation('%s/api: %s' % (lang, ascii(w)), input=w, expected=want, got=got)
    c.sample({'language': lang, 'input': w, 'normalized': got})



check.run('P13', main)
