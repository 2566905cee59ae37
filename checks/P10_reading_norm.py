"""P10: reading normalization applies the script's and then the language's rules."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, rewrite, tables, traces
from mc.engine import sigma_star, text

# A few readings that the rules state in words (homorganic nasals, Hindi).
WORDS = {'HI': [('\u0938\u0902\u092c\u0902\u0927', None), ('\u0939\u093f\u0928\u094d\u0926\u0940', '\u0939\u093f\u0902\u0926\u0940')]}


def main(c):
  c.build(['brahmic/reading_norm.far', 'brahmic/reading_norm_utf8.far', 'brahmic/sigma_utf8.far'])
  from nisaba.scripts.brahmic import util
  from nisaba.scripts.utils import far
  jobs = list(util.READING_NORM_LANGS)
  tabs = mb.load(c, sorted({s for s, _ in jobs}))

  def one(job):
    s, lang = job
    t, tag = tabs[s], (lang or s).upper()
    labels = sorted(map(ord, t.chars()))
    v = c.machine('brahmic/reading_norm_utf8.far', tag)
    parts = rewrite.unordered_models(t.reading_norm)
    if lang:
      parts += rewrite.unordered_models(t.lang(c.ws, lang, 'reading_norm'))
    extra = sorted({ord(x) for p in parts for a, b in p.pairs.items() for x in a + b} - set(labels))
    if extra:
      c.violation('%s: rules outside the alphabet' % tag, characters=[hex(x) for x in extra])
    table = rewrite.fold(parts or [rewrite.Rewriter([])], labels)
    ref = table.machine('documented/' + tag)
    c.count(tag + '/reference', states=table.explored, transitions=table.explored * len(labels),
            least=len(table))
    c.accepts(tag + '/total', sigma_star(labels), v)
    c.same_function(tag, ref, v)
    b = c.machine('brahmic/reading_norm.far', tag)
    # The byte archive: the same on this alphabet.
    c.accepts(tag + '/bytes/total', ref.expand(), b, byte=True)
    c.decide(tag + '/bytes', ref.expand().agree(b), True, lambda w: {
        'expected': [text(x, 1) for x in ref.expand().apply(w)], 'got': [text(x, 1) for x in b.apply(w)]})
    return tag, v, ref

  done = c.each(one, jobs)
  for tag, v, ref in done:
    api = far.Far(c.far('brahmic/reading_norm.far').split(os.path.dirname(c.ws) + '/')[-1]).Fst(tag)
    for w in traces.cover(ref, 4000 if c.thorough else 600):
      want = [text(x, 0) for x in ref.apply(w)]
      c.traces += 1
      for x, y in ((w, want), ('[' + w + ' z\u00e9', ['[' + want[0] + ' z\u00e9'])):
        got = api.ApplyOnText(x)
        if [got] != y:
          c.violation('%s/api: %s' % (tag, ascii(x)), input=x, expected=y, got=got)
    for a, b in WORDS.get(tag, ()):
      if b and api.ApplyOnText(a) != b:
        c.violation('%s/word: %s' % (tag, ascii(a)), expected=b, got=api.ApplyOnText(a))
    c.sample({'tag': tag, 'input': w, 'normalized': got})


check.run('P10', main)
