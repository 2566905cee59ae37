"""P11: fixed rule romanization: the rules in order, then the ISO 15919 reading."""
import os, string, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, rewrite, traces
from mc.engine import Ambiguous, sigma_star, text

# Mozhi, by its published letter table.
MOZHI = {'amma': '\u0d05\u0d2e\u0d4d\u0d2e', 'malayaaLam': '\u0d2e\u0d32\u0d2f\u0d3e\u0d33\u0d02',
         'kaaryam': '\u0d15\u0d3e\u0d30\u0d4d\u0d2f\u0d02', 'izha': '\u0d07\u0d34', 'ila': '\u0d07\u0d32',
         'iLa': '\u0d07\u0d33', 'kha': '\u0d16', 'ga': '\u0d17', 'gha': '\u0d18', 'cha': '\u0d1a',
         'ja': '\u0d1c', 'Ta': '\u0d1f', 'Da': '\u0d21', 'tha': '\u0d24', 'da': '\u0d26', 'pa': '\u0d2a',
         'ba': '\u0d2c', 'bha': '\u0d2d', 'ya': '\u0d2f', 'ra': '\u0d30', 'va': '\u0d35', 'sa': '\u0d38',
         'ha': '\u0d39', 'Sa': '\u0d36', 'sha': '\u0d37', 'n': '\u0d7b', 'l': '\u0d7d', 'L': '\u0d7e',
         'm': '\u0d02'}


def main(c):
  c.build(['brahmic/fixed.far', 'brahmic/fixed_utf8.far', 'brahmic/iso_utf8.far',
           'brahmic/sigma_utf8.far'])
  from nisaba.scripts.brahmic import util
  from nisaba.scripts.utils import far
  ascii_ = sorted(set(map(ord, string.printable)) - set(map(ord, '[]')))
  for s in util.FIXED_RULE_SCRIPTS:
    t = mb.load(c, [s])[s]
    f = c.machine('brahmic/fixed_utf8.far', s.upper())
    to = c.machine('brahmic/iso_utf8.far', 'TO_' + s.upper())
    labels = sorted(set(ascii_) | {ord(x) for a, b in t.fixed for x in a + b} |
                    set(map(ord, mb.JOINERS)))
    table = rewrite.fold([rewrite.Rewriter([p]) for p in t.fixed], labels)
    c.count(s + '/rules', table.explored, table.explored * len(labels), least=len(table))
    ref = sigma_star(ascii_).compose(table.machine('rules')).compose(to)

    def differ(w):
      a, b = [sorted(text(x, 0) for x in m.apply(w)) for m in (ref, f)]
      return {'expected': a, 'got': b} if a != b else None
    c.decide(s, f.best(ref, 9), False, differ)
    b = c.machine('brahmic/fixed.far', s.upper())
    fb = f.expand()

    def differ_b(w):
      x, y = [sorted(text(o, 1) for o in m.apply(w)) for m in (fb, b)]
      return {'utf8': x, 'byte': y} if x != y else None
    c.decide(s + '/bytes', fb.best(b, 9), True, differ_b)
    try:
      r = f.reduce()
      c.count(s + '/one best', r.explored, r.explored * len(ascii_), least=r.states())
    except Ambiguous:
      c.violation(s + '/one best', machine=f.name)
      r = ref
    api = far.Far(c.far('brahmic/fixed.far').split(os.path.dirname(c.ws) + '/')[-1]).Fst(s.upper())
    for w in traces.cover(r, 4000 if c.thorough else 800):
      c.traces += 1
      want, got = [text(x, 0) for x in ref.apply(w)], api.ApplyOnText(w)
      if got not in want:
        c.violation('%s/api: %s' % (s, ascii(w)), input=w, expected=want, got=got)
    for w, want in MOZHI.items() if s == 'Mlym' else ():
      c.traces += 1
      if api.ApplyOnText(w) != want:
        c.violation('%s/mozhi: %s' % (s, w), expected=want, got=api.ApplyOnText(w))
    c.sample({'script': s, 'input': w, 'native': want})


check.run('P11', main)
