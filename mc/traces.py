"""Traces through a machine for replay on the implementation."""
import collections
import unicodedata


def cover(machine, limit=None, complete=True):
  """Strings that together take every transition of the machine that lies on an
  accepting path, shortest access and completion; at most `limit`, spread evenly."""
  start, finals, arcs = machine.export()
  out, back = collections.defaultdict(list), collections.defaultdict(list)
  for s, i, _, _, d in arcs:
    out[s].append((i, d))
    back[d].append((i, s))
  access = {start: ''}
  q = collections.deque([start])
  while q:
    s = q.popleft()
    for i, d in out[s]:
      if d not in access:
        access[d] = access[s] + (chr(i) if i else '')
        q.append(d)
  comp = {s: '' for s in finals}
  q = collections.deque(sorted(finals))
  while q:
    s = q.popleft()
    for i, p in back[s]:
      if p not in comp:
        comp[p] = (chr(i) if i else '') + comp[s]
        q.append(p)
  words = {}
  for s, i, _, _, d in arcs:
    if s in access and d in comp:
      w = access[s] + (chr(i) if i else '') + (comp[d] if complete else '')
      words.setdefault(w)
  words = list(words)
  if limit and len(words) > limit:
    k = len(words) / limit
    words = [words[int(j * k)] for j in range(limit)]
  return words


def scalar(labels):
  """Only labels that are Unicode scalar values."""
  return [l for l in labels if not 0xD800 <= l < 0xE000 and l < 0x110000]


def name(c):
  return unicodedata.name(c, hex(ord(c)))
