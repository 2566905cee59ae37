"""What the abjad / alphabet checks share."""
import os

from mc import rewrite, tables

SHARED = ('nfc', 'presentation_forms', 'reversible_roman', 'visual_norm')
LANG = ('reading_norm', 'visual_norm', 'visual_norm_final_isolated', 'visual_norm_isolated',
        'visual_norm_nonfinal')


class Abjad:
  """The tables of the Arabic script."""

  def __init__(self, ws):
    self.dir = os.path.join(ws, 'nisaba/scripts/abjad_alphabet/data/Arab')
    for n in SHARED:
      setattr(self, n, self._read(n))

  def _read(self, name):
    head, tail = os.path.split(os.path.join(self.dir, name))
    for n in ('combined_' + tail, tail):
      p = os.path.join(head, n + '.textproto')
      if os.path.exists(p):
        return tables.read(p)
    return []

  def lang(self, lang, name):
    return self._read('%s/%s' % (lang, name))


class Whole:
  """Replaces texts that are exactly one of the left hand sides."""

  def __init__(self, pairs):
    self.pairs = dict(pairs)
    self.pre = {a[:k] for a in self.pairs for k in range(len(a) + 1)}
    self.start = ''

  def step(self, s, c):
    if s is False:
      return False, c
    if s + c in self.pre:
      return s + c, ''
    return False, s + c

  def finish(self, s):
    return '' if s is False else self.pairs.get(s, s)


class Last:
  """Replaces a left hand side at the end of the text, when something stands before it."""

  def __init__(self, pairs):
    self.pairs = dict(pairs)
    self.keep = max([len(a) for a in self.pairs] or [0])
    self.start = (False, '')

  def step(self, st, c):
    more, pend = st
    pend += c
    out = pend[:-self.keep] if self.keep else pend
    pend = pend[len(out):]
    # Only what may still become a left hand side is kept back.
    while pend and not any(a.startswith(pend) for a in self.pairs):
      out += pend[0]
      pend = pend[1:]
    return (more or bool(out), pend), out

  def finish(self, st):
    more, pend = st
    out = ''
    while pend:
      if pend in self.pairs and (more or out):
        return out + self.pairs[pend]
      out += pend[0]
      pend = pend[1:]
    return out


def common(t):
  """Presentation forms, canonical forms and the script's own rules."""
  parts = []
  for n in ('presentation_forms', 'nfc', 'visual_norm'):
    parts += rewrite.unordered_models(getattr(t, n))
  return parts


def language(t, lang, labels):
  """The language's rules: anywhere, before another letter, at the end, alone."""
  parts = rewrite.unordered_models(t.lang(lang, 'visual_norm'))
  parts.append(rewrite.Rewriter(t.lang(lang, 'visual_norm_nonfinal'), None, set(map(chr, labels))))
  final = t.lang(lang, 'visual_norm_final_isolated')
  return parts + [Last(final), Whole(final + t.lang(lang, 'visual_norm_isolated'))]
