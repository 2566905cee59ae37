"""P09: The natural transliteration archives: one total function, the same everywhere."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check, fsa, local, natural, traces
from mc.engine import Machine, sigma_star, text

LANGS = 'bn gu hi kn ml mr pa ta te'.split()
E2E = 'hi kn ml ta te'.split()
NT = 'natural_translit/'
KINDS = {'ISO_TO_IPA': NT + 'g2p/%s_iso_ipa%s.far', 'ISO_TO_NAT': NT + 'romanization/%s_iso_nat%s.far',
         'ISO_TO_PSAF': NT + 'romanization/%s_iso_psaf%s.far',
         'ISO_TO_PSAC': NT + 'romanization/%s_iso_psac%s.far'}
# Sounds that the doubling of the Punjabi addak can take in two ways, after a silent sign.
SILENT = [g for g, t in natural.GLYPHS.items() if natural.SOUND[t] == natural.P('sil')]
DOUBLE = 'cjp'


def avoiding_addak(labels):
  """Texts without c, j or p after a silent sign."""
  def step(q, x):
    if x in SILENT:
      return 1, x
    if q and x in DOUBLE:
      return None
    return 0, x
  return fsa.machine_of_steps(0, step, lambda s: '', labels)


def main(c):
  import pynini
  fars = {(l, k, u): p % (l, u) for l in LANGS for k, p in KINDS.items() for u in ('', '_utf8')}
  e2e = {(l, u): NT + 'languages/%s_e2e%s.far' % (l, u) for l in E2E for u in ('', '_utf8')}
  c.build(list(fars.values()) + list(e2e.values()))
  keys = {}
  for l in E2E:
    keys[l] = {x.split('_')[-1] for x, _ in pynini.Far(c.far(e2e[l, '']))}
    if not keys[l] >= {'IPA', 'PSAF', 'PSAC'}:
      c.violation('%s/e2e/keys' % l, keys=sorted(keys[l]))
  letters = sorted(ord(x) for x in natural.GLYPHS)
  words = sigma_star(letters)
  print_latin = sigma_star([ord(x) for x in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'])
  print_ipa = sigma_star(sorted({ord(x) for v in natural.IPA.values() for x in v}))

  def one(job):
    l, k = job
    part = '%s/%s' % (l, k)
    m = c.machine(fars[l, k, '_utf8'], k)
    b = c.machine(fars[l, k, ''], k)
    c.accepts(part + '/total', words, m)
    c.decide(part + '/only ISO', m.included_in(words), False,
             lambda w: {'outputs': [text(o, False) for o in m.apply(w)]})
    c.decide(part + '/letters of the output', m.invert().included_in(
        print_ipa if k == 'ISO_TO_IPA' else print_latin), False, lambda w: {'output': text(w, 0)})
    dom = sigma_star(letters)
    if l == 'pa':
      dom = avoiding_addak(letters)
      for w in ('\u02d6c', '\u02d6p\u02b0', '\u02d6j'):
        o = sorted({text(x, False) for x in m.apply(w)})
        if len(o) > 1:
          c.violation('%s/two outputs after a silent sign: %s' % (part, ascii(w)), outputs=o)
    mm = dom.compose(m)
    c.function(part + '/one output', mm)
    c.same_function(part + '/bytes', dom.expand().compose(b), mm.expand(), byte=True)
    if l == 'pa':  # Elsewhere too, the same strings.
      x, y = m.expand(), b
      c.decide(part + '/bytes/a in b', x.included_in(y), True, lambda w: {})
      c.decide(part + '/bytes/b in a', y.included_in(x), True, lambda w: {})
    if l in E2E and (k != 'ISO_TO_NAT' or 'NAT' in keys[l]):
      for u, s in (('_utf8', m), ('', b)):
        e = c.machine(e2e[l, u], k)
        c.same_function('%s/e2e%s' % (part, u), e, s, byte=not u)
    return mm

  jobs = [(l, k) for l in LANGS for k in KINDS]
  made = c.each(one, jobs)
  # The archives as a program reads them say what the explored machines say.
  from nisaba.scripts.utils import far
  from pynini.lib import rewrite
  for (l, k), mm in zip(jobs, made):
    for u in ('',):
      fst = far.Far(c.far(fars[l, k, u])).Fst(k)
      for w in traces.cover(mm, 60):
        c.traces += 1
        try:
          got = fst.ApplyOnText(w)
        except rewrite.Error as e:
          got = repr(e)
        want = text(mm.apply(w)[0], False)
        if got != want:
          c.violation('%s/%s/program: %s' % (l, k, ascii(w)), got=got, expected=want)
  c.sample({'languages': LANGS, 'letters': len(letters)})


if __name__ == '__main__':
  check.run('P09', main)
