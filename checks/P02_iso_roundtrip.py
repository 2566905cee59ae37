"""P02: ISO 15919 romanization loses nothing."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, traces
from mc.engine import text

BIG = ['Deva', 'Knda', 'Sinh', 'Beng']  # first, for packing


def main(c):
  c.build(['brahmic/iso.far', 'brahmic/iso_utf8.far', 'brahmic/nfc_utf8.far',
           'brahmic/nfc.far', 'brahmic/wellformed_utf8.far'])
  scripts = sorted(mb.scripts(), key=lambda s: (s not in BIG, BIG.index(s) if s in BIG else 0, s))
  tabs = mb.load(c)

  def one(s):
    f = c.machine('brahmic/iso_utf8.far', 'FROM_' + s.upper())
    t = c.machine('brahmic/iso_utf8.far', 'TO_' + s.upper())
    n = c.machine('brahmic/nfc_utf8.far', s.upper())
    wf = c.machine('brahmic/wellformed_utf8.far', s.upper())

    def bad(w):
      """Replays an input: NFC text -> romanization -> text."""
      want = [text(x, 0) for x in n.apply(w)]
      iso = [text(x, 0) for x in f.apply(w)]
      back = sorted({text(x, 0) for i in iso for x in t.apply(i)})
      if iso and (back != want or len(iso) > 1):
        return {'nfc': want, 'romanized': iso, 'back': back}
      return None

    # Short strings first: the plainest counterexamples.
    k = 0
    chars = sorted(tabs[s].chars())
    for m in range(1, 3):
      for w in itertools.product(chars, repeat=m):
        k += 1
        what = bad(list(map(ord, w)))
        if what:
          c.violation('%s: %s' % (s, ascii(''.join(w))), input=''.join(w), **what)
          return
    c.count(s + '/strings up to 2', states=k, transitions=k)

    # Each has one best output for every string.
    def tie(m):
      return lambda w: (lambda o: {'machine': m.name, 'outputs': o} if len(o) > 1 else None)(
          [text(x, 0) for x in m.apply(w)])
    ok = c.decide(s + '/from: one best output', f.best(f, 12), False, tie(f))
    ok = c.decide(s + '/to: one best output', t.best(t, 12), False, tie(t)) and ok
    if not ok:
      return
    fd, td = f.reduce(), t.reduce()
    c.count(s + '/least machines', states=fd.explored + td.explored,
            transitions=fd.arcs() + td.arcs())
    rt = fd.compose(td)
    c.decide(s + '/round trip', rt.agree(n), False, bad)
    c.decide(s + '/romanized text converts back', fd.included_in(rt), False, bad)
    c.accepts(s + '/well-formed text is romanized', wf, fd)
    # What comes back is in normal form.
    tn = td.compose(n)
    c.decide(s + '/back is NFC', tn.agree(td), False,
             lambda w: {'to': [text(x, 0) for x in td.apply(w)],
                        'nfc': [text(x, 0) for x in tn.apply(w)]})
    # Converting back, romanizing and converting back again changes nothing.
    tft = td.compose(rt)
    c.decide(s + '/back and forth', tft.agree(td), False,
             lambda w: {'to': [text(x, 0) for x in td.apply(w)],
                        'again': [text(x, 0) for x in tft.apply(w)]})
    # The byte archive does the same.
    fb = c.machine('brahmic/iso.far', 'FROM_' + s.upper())
    tb = c.machine('brahmic/iso.far', 'TO_' + s.upper())
    for x, y in ((fd, fb), (td, tb)):
      xe, yr = x.expand(), y.reduce()
      c.decide(s + '/byte ' + x.name, xe.agree(yr), True,
               lambda w, xe=xe, y=y: {'utf8': [text(v, 1) for v in xe.apply(w)],
                                      'byte': [text(v, 1) for v in y.apply(w)]})
      c.accepts(s + '/byte domain ' + x.name, xe, yr, True)

  c.each(one, scripts)

  # The public API does the same on a transition cover of the romanizers.
  from nisaba.scripts import brahmic
  from nisaba.scripts.utils import far as ufar
  import pathlib
  store = ufar.Far(pathlib.Path('com_google_nisaba/nisaba/scripts/brahmic/iso.far'))
  nfc = ufar.Far(pathlib.Path('com_google_nisaba/nisaba/scripts/brahmic/nfc.far'))
  for s in mb.scripts():
    f = c.machine('brahmic/iso_utf8.far', 'FROM_' + s.upper())
    a, b, n = store.Fst('FROM_' + s.upper()), brahmic.IsoTo(s), nfc.Fst(s.upper())
    for w in traces.cover(f, None if c.thorough else 400):
      iso = a.ApplyOnText(w)
      back, want = b.ApplyOnText(iso), n.ApplyOnText(w)
      model = [text(x, 0) for x in f.apply(w)]
      c.traces += 1
      if back != want or model != [iso]:
        c.violation('%s/api: %s' % (s, ascii(w)), input=w, romanized=iso, back=back,
                    nfc=want, model=model)
    c.sample({'script': s, 'input': w, 'romanized': iso, 'back': back})


check.run('P02', main)
