"""P05: visual normalization rewrites, de-duplicates and cleans joiners as documented."""
import os, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import brahmic as mb
from mc import check, fsa, rewrite, traces
from mc.engine import text

JOINERS = mb.JOINERS


def reference(t, ws, lang, labels):
  """The documented pipeline, as step models one after another."""
  marks = set(JOINERS) | {x for x in map(chr, labels) if unicodedata.category(x) == 'Mn'}
  cons = {a for a, _ in t.consonant}
  # Joiner sequences to keep between consonants are replaced by private characters
  # while the other joiners are deleted.
  keep = {a: chr(0xE000 + k) for k, (a, _) in enumerate(t.preserve)}
  parts = rewrite.unordered_models(t.nfc) + [rewrite.Dedup(marks)]
  parts += rewrite.unordered_models(t.visual_rewrite)
  if keep:
    parts.append(rewrite.Rewriter(list(keep.items()), cons, cons))
  parts.append(rewrite.Rewriter([(j, '') for j in JOINERS] + [(y, x) for x, y in keep.items()]))
  if lang:
    before, after = t.lang(ws, lang, 'before_consonant'), t.lang(ws, lang, 'after_consonant')
    parts += [rewrite.Rewriter(before, None, cons), rewrite.Rewriter(after, cons, None)]
  return parts


def main(c):
  c.build(['brahmic/visual_norm.far', 'brahmic/visual_norm_utf8.far', 'brahmic/sigma_utf8.far'])
  from nisaba.scripts.brahmic import util
  tabs = mb.load(c)
  jobs = [(s, '') for s in sorted(mb.scripts(), key=lambda s: s != 'Deva')]
  jobs += list(util.VISUAL_NORM_LANGS)

  def one(job):
    s, lang = job
    t = tabs[s]
    tag = (lang or s).upper()
    labels = sorted(map(ord, t.chars()))
    v = c.machine('brahmic/visual_norm_utf8.far', tag)
    table = rewrite.fold(reference(t, c.ws, lang, labels), labels)
    ref = table.machine('documented/' + tag)
    c.count(tag + '/reference', states=table.explored, transitions=table.explored * len(labels),
            least=len(table))
    c.same_function(tag, ref, v)
    return tag, v, ref

  done = c.each(one, jobs)

  from nisaba.scripts import brahmic
  for tag, v, ref in done:
    api = brahmic.VisualNorm(tag)
    for w in traces.cover(ref, 4000 if c.thorough else 500):
      want = sorted({text(x, 0) for x in ref.apply(w)})
      got = api.ApplyOnText(w)
      c.traces += 1
      if [got] != want:
        c.violation('%s/api: %s' % (tag, ascii(w)), input=w, expected=want, got=got)
    c.sample({'script': tag, 'input': w, 'normalized': got})


check.run('P05', main)
