"""P12: Arabic script NFC is canonical and stable; reversible romanization loses nothing."""
import itertools, os, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import abjad, check, fsa, local, rewrite, traces
from mc import brahmic as mb
from mc.engine import sigma_star, text


def few_marks(labels, marks, most):
  """Texts with at most so many marks in a row."""
  def step(k, x):
    if x not in marks:
      return 0, x
    return (k + 1, x) if k < most else None
  return fsa.machine_of_steps(0, step, lambda s: '', labels)


def taken_apart(w, nfc, to):
  """Romanizations of w in pieces."""
  out = set()
  for cut in itertools.product((0, 1), repeat=len(w) - 1):
    o, piece = '', w[0]
    for x, k in zip(w[1:], cut):
      if k:
        o, piece = o + text(to.apply(piece)[0], 0), ''
      piece += x
    out.add(o + text(to.apply(piece)[0], 0))
  return out


def main(c):
  c.build(['abjad_alphabet/' + x for x in (
      'nfc.far', 'nfc_utf8.far', 'reversible_roman.far', 'reversible_roman_utf8.far')])
  t = abjad.Abjad(c.ws)
  nfc = c.machine('abjad_alphabet/nfc_utf8.far', 'ARAB')
  to = c.machine('abjad_alphabet/reversible_roman_utf8.far', 'FROM_ARAB')
  back = c.machine('abjad_alphabet/reversible_roman_utf8.far', 'TO_ARAB')
  labels = mb.labels(nfc)
  letters = sorted({ord(x) for a, _ in t.reversible_roman for x in a})
  missing = sorted(set(letters) - set(labels))
  if missing:
    c.violation('alphabet', missing=[hex(x) for x in missing])

  # NFC: total, one output, stable, and the rules of its table.
  c.accepts('nfc/total', sigma_star(labels), nfc)
  c.same_function('nfc', rewrite.unordered(t.nfc, labels, 'rules'), nfc)
  # The rules reorder pairs of marks once; longer runs of marks are a known finding.
  marks = {x for a, b in t.nfc for x in a + b if unicodedata.combining(x)}
  few, seen = few_marks(labels, marks, 2), []
  while len(seen) < 60:
    part = local.avoiding(set(seen), labels).compose(few) if seen else few
    once = part.compose(nfc)
    r = once.agree(once.compose(nfc))
    c.count('nfc/stable', r.states, r.transitions)
    if r.ok:
      break
    def fails(x):
      return nfc.apply(x) != nfc.apply(nfc.apply(x)[0])
    w = next(w for w in (text(x, 0) for x in r.witnesses()) if fails(w))
    seen.append(local.minimal(w, fails))
    c.violation('nfc/stable: %s' % ascii(seen[-1]), input=seen[-1],
                got=text(nfc.apply(seen[-1])[0], 0))
  r = nfc.agree(nfc.compose(nfc))
  c.count('nfc/stable, any marks', r.states, r.transitions)
  if not r.ok:
    w = r.witnesses()[0]
    c.violation('nfc/stable: three or more marks on a letter', input=text(w, 0),
                got=text(nfc.apply(w)[0], 0))
  chars = sorted({x for a, b in t.nfc for x in a + b} | {'\u0628', '\u06d2'})
  depth = 4 if c.thorough else 3
  n = 0
  for k in range(1, depth + 1):
    for w in itertools.product(chars, repeat=k):
      w = ''.join(w)
      n += 1
      o = text(nfc.apply(w)[0], 0)
      if unicodedata.normalize('NFD', o) != unicodedata.normalize('NFD', w):
        c.violation('nfc/canonical: %s' % ascii(w), input=w, got=o)
  c.count('nfc/canonical', states=n, transitions=n, alphabet=len(chars), depth=depth)

  # Reversible romanization.
  c.accepts('romanization/total', sigma_star(letters), to)
  c.function('romanization/one output', to)
  c.function('way back/one output', back)
  ref = rewrite.unordered(t.nfc, labels, 'rules').compose(
      fsa.make(fsa.star(fsa.string_map(t.reversible_roman))))
  c.same_function('romanization/table', ref, to)
  rt = to.compose(back)
  script = sigma_star(letters).compose(nfc)
  c.same_function('round trip/canonical form', script, sigma_star(letters).compose(rt))
  there = back.compose(to)
  c.decide('way back and forth', there.compose(back).agree(back.compose(nfc)), False, lambda w: {
      'back': [text(x, 0) for x in back.apply(w)], 'again': [text(x, 0) for x in there.apply(w)]})

  # Byte archives.
  for name, m, far, key in (('nfc', nfc, 'nfc', 'ARAB'), ('to', to, 'reversible_roman', 'FROM_ARAB'),
                            ('back', back, 'reversible_roman', 'TO_ARAB')):
    b = c.machine('abjad_alphabet/%s.far' % far, key)
    e = m.expand()
    c.accepts(name + '/bytes/total', e, b, byte=True)
    c.decide(name + '/bytes', e.agree(b), True, lambda w, e=e, b=b: {
        'utf8': [text(x, 1) for x in e.apply(w)], 'byte': [text(x, 1) for x in b.apply(w)]})

  # The API: text of other scripts passes through.
  from nisaba.scripts import abjad_alphabet as aa
  f, g, h = aa.ToReversibleRoman(), aa.FromReversibleRoman(), aa.Nfc()
  cov = traces.cover(sigma_star(letters).compose(to), 6000 if c.thorough else 800)
  for w in cov:
    c.traces += 1
    want = [text(x, 0) for x in to.apply(w)]
    got = f.ApplyOnText(w)
    n = text(nfc.apply(w)[0], 0)
    if [got] != want and got in taken_apart(w, nfc, to):
      c.violation('api/to: reorders only within parts of the text', input=w, expected=want, got=got)
    elif [got] != want:
      c.violation('api/to: %s' % ascii(w), input=w, expected=want, got=got)
    elif g.ApplyOnText(got) != n:
      c.violation('api/back: %s' % ascii(w), input=w, romanized=got, expected=n, got=g.ApplyOnText(got))
    if h.ApplyOnText(w) != n:
      c.violation('api/nfc: %s' % ascii(w), input=w, expected=n, got=h.ApplyOnText(w))
  pieces = ['\u0627', '\u0653', '\u06cc', '\u0628', 'x', ' ', '[', '\\', '\u00e9', '\u0915', '\U0001f600']
  table = dict(t.reversible_roman)
  n = 0
  for k in range(1, (4 if c.thorough else 3) + 1):
    for ws in itertools.product(pieces, repeat=k):
      s = ''.join(ws)
      n += 1
      want, run_ = {''}, ''
      for x in s + '\0':
        if x in table:
          run_ += x
          continue
        if run_:
          want = {y + z for y in want for z in taken_apart(run_, nfc, to)}
        run_ = ''
        want = {y + x.strip('\0') for y in want}
      got = f.ApplyOnText(s)
      if got not in want:
        c.violation('api/mixed: %s' % ascii(s), input=s, expected=sorted(want), got=got)
  c.count('mixed text', states=n, transitions=n, pieces=pieces)
  c.traces += n
  c.sample({'input': s, 'romanized': got})


check.run('P12', main)
