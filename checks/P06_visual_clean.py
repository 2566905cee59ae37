"""P06: what visual normalization accepts is clean: stable, composed, joiner-free, readable."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, fsa, local, rewrite, traces
from mc.engine import Ambiguous, sigma_star, text

JOINERS = mb.JOINERS
LIMIT = 40  # findings per script


def main(c):
  c.build(['brahmic/visual_norm.far', 'brahmic/visual_norm_utf8.far', 'brahmic/wellformed.far',
           'brahmic/wellformed_utf8.far', 'brahmic/nfc_utf8.far', 'brahmic/iso_utf8.far',
           'brahmic/iso.far', 'brahmic/sigma_utf8.far'])
  from nisaba.scripts.brahmic import util
  tabs = mb.load(c)
  jobs = [(s, '') for s in sorted(mb.scripts(), key=lambda s: s != 'Deva')]
  jobs += list(util.VISUAL_NORM_LANGS)

  def one(job):
    s, lang = job
    t, tag = tabs[s], (lang or s)
    chars = t.chars()
    labels = sorted(map(ord, chars))
    plain = [l for l in labels if chr(l) not in JOINERS]
    shipped = c.machine('brahmic/visual_norm_utf8.far', tag.upper())
    # One output for every string.
    c.accepts(tag + '/total', sigma_star(labels), shipped)
    if not c.function(tag + '/one output', shipped):
      return None
    v = shipped.reduce()
    c.count(tag + '/reduced', v.explored, v.explored * len(labels), least=v.states())
    nfc = c.machine('brahmic/nfc_utf8.far', s.upper())
    wf = c.machine('brahmic/wellformed_utf8.far', s.upper())
    # Canonically equivalent spellings have one normal form.
    c.same_function(tag + '/spelling does not matter', nfc.compose(v), v)
    # Joiners are left only where they are kept: between two consonants.
    cons, keep = {a for a, _ in t.consonant}, [a for a, _ in t.preserve]
    if keep:
      mark = rewrite.Rewriter([(p, '\ue000') for p in keep], cons, cons).machine(labels)
    else:
      mark = rewrite.identity(labels)
    left = local.containing(set(JOINERS), labels + [0xe000])
    bad = v.compose(mark).compose(left)
    c.decide(tag + '/joiners', bad.included_in(fsa.make(fsa.EMPTY)), False,
             lambda w: {'normalized': [text(x, 0) for x in v.apply(w)]})
    # Accepted text can be romanized.
    iso = c.machine('brahmic/iso_utf8.far', 'FROM_' + s.upper())
    acc = v.compose(wf)
    c.accepts(tag + '/accepted can be romanized', acc, acc.compose(iso))

    # Accepted text is normal already (no joiners in the input).
    def once(w):
      o = acc.apply(w)
      return text(o[0], 0) if o else None

    def again(x):
      return text(v.apply(x)[0], 0)
    clean = sigma_star(plain).compose(v).compose(wf).reduce()
    c.count(tag + '/accepted', clean.explored, clean.explored * len(plain))
    unstable = []
    while len(unstable) < LIMIT:
      a = clean.compose(local.avoiding(set(unstable), labels)) if unstable else clean
      r = a.agree(clean.compose(v))
      c.count(tag + '/stable', r.states, r.transitions)
      if r.ok:
        break
      w = next(w for w in r.witnesses() if once(w) is not None and again(once(w)) != once(w))
      m = local.minimal(once(w), lambda x: again(x) != x)
      unstable.append(m)
      c.violation('%s: accepted %s is not stable' % (tag, ascii(m)), input=text(w, 0),
                  normalized=once(w), again=again(once(w)))

    # Well-formed text without joiners is accepted.
    def lost(x):
      return bool(wf.apply(x)) and not acc.apply(x)
    rejected = []
    while len(rejected) < LIMIT:
      lang_ = sigma_star(plain).compose(wf)
      if rejected:
        lang_ = local.avoiding(set(rejected), plain).compose(wf)
      r = lang_.included_in(acc)
      c.count(tag + '/well-formed is accepted', r.states, r.transitions)
      if r.ok:
        break
      w = next(x for x in (text(y, 0) for y in r.witnesses()) if lost(x))
      m = local.minimal(w, lost)
      rejected.append(m)
      c.violation('%s: well-formed %s becomes ill-formed' % (tag, ascii(m)), input=w,
                  normalized=again(w))
    return tag, s, clean

  done = [x for x in c.each(one, jobs) if x]

  from nisaba.scripts import brahmic
  for tag, s, clean in done:
    norm, wf, iso = brahmic.VisualNorm(tag), brahmic.WellFormed(s), brahmic.ToIso()
    back = brahmic.IsoTo(s)
    for w in traces.cover(clean, 3000 if c.thorough else 300):
      if not w:
        continue
      got = norm.ApplyOnText(w)
      want = text(clean.apply(w)[0], 0)
      c.traces += 1
      if got != want or not wf.AcceptText(got):
        c.violation('%s/api: %s' % (tag, ascii(w)), input=w, expected=want, got=got)
        continue
      r = iso.ApplyOnText(got)
      if back.ApplyOnText(r) != got:
        b = back.ApplyOnText(r)
        if norm.ApplyOnText(b) != norm.ApplyOnText(got):
          c.violation('%s/api round trip: %s' % (tag, ascii(w)), input=w, normalized=got,
                      romanized=r, back=b)
    c.sample({'script': tag, 'input': w, 'normalized': got})


check.run('P06', main)
