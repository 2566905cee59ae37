"""P07: well-formed text is exactly the sequences of aksharas of the script."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, fsa, traces
from mc.engine import text


def reference(t):
  """The akshara grammar, over the native side of the letter tables."""
  def one(name, more=()):
    items = {a for a, _ in getattr(t, name)} | set(more)
    return fsa.strings(sorted(items)) if items else fsa.EMPTY
  cons = fsa.concat(one('consonant'), fsa.opt(one('subjoined_consonant')))
  virama, dead = one('virama'), one('dead_consonant')
  link = fsa.union(virama, one('preserve'))
  cluster = fsa.concat(fsa.star(fsa.concat(cons, link)), cons)
  sign = one('vowel_sign')
  vowelled = fsa.concat(cluster, sign if t.no_inherent_vowel else fsa.opt(sign))
  open_ = fsa.union(one('vowel'), vowelled)
  full = fsa.concat(open_, fsa.opt(one('vowel_length_sign')), fsa.opt(one('coda')), fsa.opt(dead))
  closed = fsa.concat(cluster, virama, fsa.opt(dead))
  return fsa.make(fsa.star(fsa.union(full, closed, one('standalone'), one('accept'))),
                  'aksharas/' + t.script)


def main(c):
  c.build(['brahmic/wellformed.far', 'brahmic/wellformed_utf8.far', 'brahmic/iso_utf8.far',
           'brahmic/sigma_utf8.far', 'brahmic/nfc_utf8.far'])
  tabs = mb.load(c)

  def one(s):
    ref = reference(tabs[s])
    w = c.machine('brahmic/wellformed_utf8.far', s.upper())
    # Nothing but recognition: the output is the input.
    c.same_function(s, ref, w)
    b = c.machine('brahmic/wellformed.far', s.upper())
    c.same_function(s + '/bytes', ref.expand(), b, byte=True)
    return s, ref

  done = c.each(one, sorted(mb.scripts()))

  from nisaba.scripts import brahmic
  for s, ref in done:
    api = brahmic.WellFormed(s)
    det = ref.reduce()
    seen = set()
    words = traces.cover(det, 2000 if c.thorough else 400)
    # Members, and what one deleted, repeated or foreign character makes of them.
    for w in words:
      for x in [w] + [w[:i] + w[i + 1:] for i in range(len(w))] + [w + w[-1:], w + 'x']:
        if x in seen:
          continue
        seen.add(x)
        want = bool(det.apply(x))
        got = api.AcceptText(x)
        c.traces += 1
        if got != want:
          c.violation('%s/api: %s' % (s, ascii(x)), input=x, expected=want, got=got)
    c.sample({'script': s, 'word': w})


check.run('P07', main)
