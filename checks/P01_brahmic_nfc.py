"""P01: Brahmic NFC is Unicode NFC."""
import os, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, fsa, traces, ucd
from mc.stepper import Stepper
from mc.engine import sigma_star, text


class PassThrough:
  """The reference model for text that may hold characters of other scripts."""

  def __init__(self, own, labels):
    self.m = ucd.Nfc(own)
    self.own = {chr(x) for x in own}
    self.labels = labels
    self.start = self.m.start

  def step(self, state, ch):
    if ch in self.own:
      return self.m.step(state, ch)
    return self.m.start, self.m.finish(state) + ch

  def finish(self, state):
    return self.m.finish(state)


def across(w):
  """The first pair that canonical composition joins across other marks."""
  for i, a in enumerate(w):
    for j in range(i + 2, len(w)):
      if ucd.compose_pair(a, w[j]) and all(0 < ucd.ccc(x) < ucd.ccc(w[j]) for x in w[i + 1:j]):
        return ord(a), ord(w[j])
  return None


def main(c):
  c.build(['brahmic/nfc.far', 'brahmic/nfc_utf8.far', 'brahmic/sigma_utf8.far'])
  tabs = mb.load(c)
  own = {s: sorted(map(ord, t.chars())) for s, t in tabs.items()}
  own['BRAHMIC'] = sorted(set().union(*own.values()))
  ascii_ = [chr(x) for x in range(32, 127)]
  foreign = set(map(ord, ascii_)) | {0xe9, 0x3b1, 0x4e2d, 0x1f600, 0x25cc}

  def one(s):
    # Every character of the tables, in every order: accepted, one output, NFC of it.
    ref = ucd.Nfc(own[s])
    labels = sorted({ord(x) for x in ref.decomp})
    inner = [l for l in labels if l in set(own[s])]
    r = fsa.machine_of_steps(ref.start, ref.step, ref.finish, inner, 'Unicode NFC/' + s)
    n = c.machine('brahmic/nfc_utf8.far', s.upper())
    sig = sigma_star(own[s])
    c.accepts(s + '/utf8 total', sig, n)
    c.function(s + '/utf8', n)
    agree(s + '/utf8=Unicode', r, n, False)
    b = c.machine('brahmic/nfc.far', s.upper())
    every = sorted(set(own[s]) | foreign | set(own['BRAHMIC']))
    p = PassThrough(own[s], every)
    br = fsa.machine_of_steps(p.start, p.step, p.finish, every, 'Unicode NFC+rest/' + s).expand()
    c.accepts(s + '/byte total', sigma_star(every).expand(), b, byte=True)
    agree(s + '/byte=Unicode', br, b, True)
    # NFC of NFC
    nn = n.compose(n)
    c.same_function(s + '/idempotent', n, nn)
    return r

  def agree(part, ref, n, byte):
    """Outputs agree for all strings the reference model covers."""
    def describe(w):
      a, b = [[text(o, byte) for o in m.apply(w)] for m in (ref, n)]
      if len(a) == 1 and a != b:
        return {'expected': a, 'got': b, 'names': [traces.name(x) for x in text(w, byte)]}
    c.decide(part, ref.agree(n), byte, describe)
    c.decide(part + '/domain', ref.included_in(n), byte,
             lambda w: {'rejected': True} if ref.apply(w) and not n.apply(w) else None)

  refs = dict(zip(own, c.each(one, list(own))))

  # Sequences the step model leaves out (marks not in canonical order, composition
  # across a mark): every short string over the characters normalization can touch.
  for s in own:
    if s == 'BRAHMIC':
      continue
    ref = ucd.Nfc(own[s])
    chars = {x for x in ref.decomp if ref.decomp[x] != x or ref.base.get(x)}
    chars |= {y for x in chars for y in ref.decomp[x]}
    chars |= {x for x in map(chr, own[s]) if ucd.ccc(x)}
    chars |= {tabs[s].consonant[0][0][0]}
    chars = sorted(chars & set(map(chr, own[s])))
    depth = (5 if len(chars) <= 12 else 4 if len(chars) <= 26 else 3) + int(c.thorough)
    st = Stepper(c.machine('brahmic/nfc_utf8.far', s.upper()))
    n = 0
    for w, outs in st.walk([ord(x) for x in chars], depth):
      n += 1
      want = unicodedata.normalize('NFC', w)
      if outs == {want}:
        continue
      got = sorted(outs)
      same = len(got) == 1 and unicodedata.normalize('NFC', got[0]) == want
      pairs = [(a, b) for a, b in zip(w, w[1:]) if ucd.ccc(a) > ucd.ccc(b) > 0]
      if same and pairs:
        site = '%s: U+%04X U+%04X not reordered' % (s, ord(pairs[0][0]), ord(pairs[0][1]))
      elif same and across(w):
        site = '%s: U+%04X U+%04X not composed across a mark' % ((s,) + across(w))
      else:
        site = '%s: %s' % (s, ascii(w))
      c.violation(site, input=w, expected=want, got=got)
    c.count(s + '/short strings', states=n, transitions=max(0, n - 1), alphabet=len(chars), depth=depth)

  # The public API does what the machine does, on a cover of the reference model.
  from nisaba.scripts import brahmic
  api = brahmic.Nfc()
  for w in traces.cover(refs['BRAHMIC'], None if c.thorough else 12000):
    want = unicodedata.normalize('NFC', w)
    got = api.ApplyOnText(w)
    c.traces += 1
    if got != want:
      c.violation('api: ' + ascii(w), input=w, expected=want, got=got)
  c.sample({'input': w, 'nfc': got})


check.run('P01', main)
