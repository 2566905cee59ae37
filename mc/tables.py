"""The repository's data tables, read independently of its converters.

Parses the (concatenated) UnicodeStrings textprotos and resolves the character
names with the character database.
"""
import os
import re
import unicodedata

_TOKEN = re.compile(r'''\s+|\#[^\n]*|"((?:[^"\\]|\\.)*)"|'((?:[^'\\]|\\.)*)'|([A-Za-z_]\w*)|([\[\]{}:,;])''')


def _tokens(s):
  pos = 0
  while pos < len(s):
    m = _TOKEN.match(s, pos)
    if not m:
      raise ValueError('textproto: ' + s[pos:pos + 40])
    pos = m.end()
    if m.group(1) is not None or m.group(2) is not None:
      v = m.group(1) if m.group(1) is not None else m.group(2)
      if '\\' in v:
        v = re.sub(r'\\(.)', lambda x: {'n': '\n', 't': '\t'}.get(x.group(1), x.group(1)), v)
      yield 'str', v
    elif m.group(3):
      yield 'id', m.group(3)
    elif m.group(4) and m.group(4) not in ',;':
      yield 'p', m.group(4)


def parse(s):
  """A list of (field, value); value: str or such a list."""
  toks = list(_tokens(s))
  pos = 0

  def message(depth):
    nonlocal pos
    out = []
    while pos < len(toks):
      k, v = toks[pos]
      if k == 'p' and v == '}':
        pos += 1
        return out
      assert k == 'id', toks[pos]
      name = v
      pos += 1
      if toks[pos] == ('p', ':'):
        pos += 1
      if toks[pos] == ('p', '{'):
        pos += 1
        out.append((name, message(depth + 1)))
      elif toks[pos] == ('p', '['):
        pos += 1
        while toks[pos] != ('p', ']'):
          if toks[pos] == ('p', '{'):
            pos += 1
            out.append((name, message(depth + 1)))
          else:
            out.append((name, toks[pos][1]))
            pos += 1
        pos += 1
      else:
        x = toks[pos][1]
        pos += 1
        if toks[pos - 1][0] == 'str':
          while pos < len(toks) and toks[pos][0] == 'str':
            x += toks[pos][1]
            pos += 1
        out.append((name, x))
    return out
  return message(0)


def lookup(prefixes, name):
  found = set()
  for p in list(prefixes) + ['']:
    try:
      found.add(unicodedata.lookup((p + ' ' + name).strip()))
    except KeyError:
      pass
  found = {c for c in found if unicodedata.category(c) != 'Cc'}
  if len(found) != 1:
    raise ValueError('name %r with %r: %r' % (name, prefixes, found))
  return found.pop()


def read(path):
  """[(source, destination or '')] of a UnicodeStrings textproto; [] if there is none."""
  if not os.path.exists(path):
    return []
  with open(path, encoding='utf8') as f:
    pb = parse(f.read())
  pre = [v for k, v in pb if k == 'uname_prefix']
  topre = [v for k, v in pb if k == 'to_uname_prefix'] or pre
  out = []
  for k, item in pb:
    if k != 'item':
      continue
    g = {}
    for a, b in item:
      g.setdefault(a, []).append(b)
    src = g.get('raw', [''])[0] or ''.join(lookup(pre, n) for n in g.get('uname', []))
    dst = g.get('to_raw', [''])[0] or ''.join(lookup(topre, n) for n in g.get('to_uname', []))
    if not src:
      raise ValueError('item without a source: %r' % (item,))
    out.append((src, dst))
  return out


class Brahmic:
  """The tables of one script."""

  NAMES = ('accept', 'coda', 'consonant', 'dead_consonant', 'fixed', 'inherent_vowel', 'nfc',
           'preserve', 'reading_norm', 'standalone', 'subjoined_consonant', 'virama',
           'visual_rewrite', 'vowel', 'vowel_length_sign', 'vowel_sign')

  def __init__(self, ws, script):
    self.script = script
    d = os.path.join(ws, 'nisaba/scripts/brahmic/data')
    for n in self.NAMES:
      setattr(self, n, read('%s/%s/combined_%s.textproto' % (d, script, n)))
    self.symbol = read('%s/combined_symbol.textproto' % d)
    self.no_inherent_vowel = False
    p = '%s/%s/script_config.textproto' % (d, script)
    if os.path.exists(p):
      with open(p, encoding='utf8') as f:
        self.no_inherent_vowel = ('no_inherent_vowel', 'true') in parse(f.read())

  def lang(self, ws, lang, name):
    return read('%s/nisaba/scripts/brahmic/data/%s/%s/combined_%s.textproto' %
                (ws, self.script, lang, name))

  def chars(self):
    """The characters the tables name on the native side, and the joiners."""
    out = set('\u200b\u200c\u200d')
    for n in ('accept', 'coda', 'consonant', 'dead_consonant', 'standalone',
              'subjoined_consonant', 'virama', 'vowel', 'vowel_length_sign', 'vowel_sign'):
      for a, _ in getattr(self, n):
        out.update(a)
    for n in ('nfc', 'reading_norm', 'visual_rewrite'):
      for a, b in getattr(self, n):
        out.update(a + b)
    return out
