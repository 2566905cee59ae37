"""Unicode normalization form C as a step function, from the character database only.

For strings in canonical order (no combining mark follows one of a higher class);
on those NFC is decomposition followed by composition, with no reordering.
"""
import unicodedata


def ccc(c):
  return unicodedata.combining(c)


def compose_pair(a, b):
  """The primary composite of a and b, or ''."""
  x = unicodedata.normalize('NFC', a + b)
  if len(x) == 1 and unicodedata.normalize('NFD', x) == unicodedata.normalize('NFD', a + b):
    return x
  return ''


class Nfc:
  """Reference model over an alphabet (closed under decomposition by the model)."""

  def __init__(self, labels):
    chars = set(map(chr, labels))
    for c in list(chars):
      chars |= set(unicodedata.normalize('NFD', c)) | set(unicodedata.normalize('NFC', c))
    # starters that compose with something, with the marks they compose with
    base, todo = {}, list(chars)
    while todo:
      a = todo.pop()
      if a in base:
        continue
      base[a] = {b: x for b in chars for x in [compose_pair(a, b)] if x}
      todo += base[a].values()
    self.base = base
    self.decomp = {c: unicodedata.normalize('NFD', c) for c in chars}
    self.start = ('', False, 0)

  # state: (starter that may still compose or '', has it been written, class of the
  # last mark).  A mark that would compose with a starter over another mark between
  # them (discontiguous composition) is outside the model: rejected.
  def step(self, state, c):
    d = self.decomp[c]
    if ccc(d[0]) and ccc(d[0]) < state[2]:
      return None  # not in canonical order
    s, written, cls = state
    out = ''
    for x in d:
      k = ccc(x)
      comp = self.base.get(s, {}).get(x) if s else None
      if comp and not written:
        s = comp
        if not self.base.get(s):
          out += s
          s = ''
      elif comp and k > cls > 0:
        return None
      elif k == 0:
        if s and not written:
          out += s
        s, written = x, False
        if not self.base.get(s):
          out += s
          s = ''
      else:
        if s and not written:
          out += s
          written = True
        out += x
      cls = k
    if s and written and not any(ccc(b) > cls for b in self.base[s]):
      s, written = '', False
    return (s, written, cls), out

  def finish(self, state):
    return '' if state[1] else state[0]
