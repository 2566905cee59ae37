"""P29: the decoder gives, for each word of a line, the outputs of its models with their probability."""
import concurrent.futures as cf
import itertools
import math
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build as mcbuild
from mc import check, cpp, pairlm

X, Y, Z, W = (ord(x) for x in 'xyzw')
A, B, C = (ord(x) for x in 'abc')
EXTRA = ('<UNK>', '97;98;99')

# Unigrams, the start, and what each bigram arc may add.
UNIGRAMS = {(A, X): 1.13, (A, Y): 1.91, (B, Y): 0.77, (C, Z): 1.57, (C, X): 2.39, (B, W): 2.71}
BIGRAMS = [(0, (A, Y), 0.31), (0, (B, W), 0.43), (2, (B, Y), 0.19), (2, (B, 0), 0.53), (2, (0, Y), 0.97),
           (3, (C, X), 0.23), (3, (A, X), 2.83), (4, (A, X), 0.37)]
AFTER = {(A, X): 2, (B, Y): 3, (C, Z): 4}


def model(subset, finals=(None, 1.03, 0.61, None, None)):
  """A model with the bigrams of the subset; state 0 is the start, 1 the unigrams."""
  back = [(1, 0.17), None, (1, 0.29), (1, 0.11), (1, 0.41)]
  states = [({}, back[s], finals[s]) for s in range(5)]
  states[1] = ({l: (AFTER.get(l, 1), w) for l, w in UNIGRAMS.items()}, None, finals[1])
  for i in subset:
    s, l, w = BIGRAMS[i]
    states[s][0][l] = (AFTER.get(l, 1), w)
  m = pairlm.PairModel(states)
  m.insertions = 3
  return m


def language(symbols, order=2, finals=True):
  """Bigram model over the symbols: 0 start, 1 unigrams, then one state for each but the last."""
  costs = lambda i, j: 0.37 + 0.61 * ((3 * i + 5 * j + 2) % 7) + 0.013 * i + 0.0071 * j
  syms = list(symbols)
  dest = {s: (2 + i if order > 1 and i + 1 < len(syms) else 1) for i, s in enumerate(syms)}
  states = [({}, (1, 0.23), None),
            ({s: (dest[s], costs(0, i)) for i, s in enumerate(syms)}, None, 1.21)]
  for i, s in enumerate(syms[:-1]) if order > 1 else ():
    arcs = {x: (dest[x], costs(i + 1, j)) for j, x in enumerate(syms) if (i + j) % 2 == 0}
    states.append((arcs, (1, 0.31 + 0.07 * i), 0.83 + 0.1 * i if i % 2 == 0 else None))
  if order > 1:
    states[0] = ({x: (dest[x], costs(9, j)) for j, x in enumerate(syms) if j % 2}, (1, 0.23), None)
  return pairlm.NGram(states)


TRANSDUCER = pairlm.Transducer(
    [(0, 0, A, X, 0.7), (0, 0, A, Y, 1.3), (0, 1, A, 0, 0.4), (1, 0, B, Z, 0.6), (1, 0, 0, Z, 1.9),
     (0, 0, B, Y, 0.9), (0, 2, C, X, 0.8), (2, 0, B, Y, 0.25), (2, 3, 0, W, 0.55)],
    {0: 0.33, 2: 1.1, 3: 0.2})

EXTERNAL = {
    'some': {'a': {'x': 0.5, 'q': 0.9}, 'ab': {'zz': 0.1}, '#': {'!': 0.3, '?': 1.2},
             'a#': {'x!': 0.2, 'x#': 2.0}, 'bc': {'yx': 1.0, 'r': 0.2, 's': 3.1}},
    'certain': {'b': {'y': 0.0}, 'ca': {'x': 7.5}, '##': {'#': 0.4}},
    'many': {'a': {'x': 0.2, 'y': 0.5, 'z': 0.9, 'p': 1.6, 'q': 2.2}, 'c': {'u': 3, 'v': 5.5}},
}


class Config:

  def __init__(self, name, model=None, external=None, lm=None, lm_symbols=(), extra=EXTRA, **o):
    self.name, self.model, self.external, self.lm = name, model, external, lm
    self.lm_symbols, self.extra, self.o = tuple(lm_symbols), extra, o

  def reference(self):
    o = dict(self.o)
    o['symbols'] = set(self.lm_symbols)
    o.setdefault('oov', '<UNK>')
    return pairlm.Reference(self.model, EXTERNAL.get(self.external), self.lm, **o)

  def script(self, base):
    """Commands that write the models, and the text of the options."""
    o, out = self.o, []
    text = []
    say = lambda key, value: text.append('%s: %s' % (key, value))
    quoted = lambda s: '"%s"' % s
    if self.model is not None:
      if isinstance(self.model, pairlm.Transducer):
        out += self.model.script(base + '.fst')
        say('pairlm_is_transducer', 'true')
      else:
        labels = sorted({l for arcs, _, _ in self.model.states for l in arcs})
        out += self.model.script(base + '.fst', labels, self.extra)
      say('pairlm_file', quoted(base + '.fst'))
      if o.get('invert'):
        say('invert_pairlm', 'true')
    if self.external:
      with open(base + '.tsv', 'w', encoding='utf8') as f:
        for w, d in EXTERNAL[self.external].items():
          for x, cost in d.items():
            f.write('%s\t%s\t%r\n' % (w, x, cost))
      say('translit_cands_file', quoted(base + '.tsv'))
      if o.get('override'):
        say('translit_cands_override', 'true')
    if self.lm is not None:
      out += self.lm.script(base + '.lm', self.lm_symbols)
      say('lm_file', quoted(base + '.lm'))
      say('oov_symbol', quoted(o['oov'])) if 'oov' in o else None
      if o.get('closure'):
        say('apply_closure_to_lm', 'true')
      if o.get('word_level'):
        say('apply_lm_at_word_level', 'true')
      if 'pieces' in o:
        with open(base + '.wp', 'w', encoding='utf8') as f:
          f.write(''.join(p + '\n' for p in o['pieces']))
        say('word_piece_model', quoted(base + '.wp'))
        if 'word_initial' in o:
          say('word_piece_word_initial_prefix', quoted(o['word_initial']))
      if 'internal' in o:
        say('word_piece_internal_prefix', quoted(o['internal']))
    for key in ('pairlm_translit_weight', 'oov_cost', 'max_word_cands', 'word_cand_thresh',
                'min_cand_posterior', 'add_to_cache', 'max_parallel_tokens', 'sample_from_k_best',
                'random_seed'):
      if key in o:
        say(key, str(o[key]).lower())
    if 'max_parallel_tokens' not in o:
      say('max_parallel_tokens', 1)
    return out, ' '.join(text)


def words(alphabet, least, most):
  return [''.join(w) for n in range(least, most + 1) for w in itertools.product(alphabet, repeat=n)]


def explore(job):
  """Every line, with a new decoder for each, for each k: what was covered, and what is wrong."""
  exe, scratch, number, config, lines, ks, judge = job
  base = os.path.join(scratch, 'p29_%d' % number)
  head, options = config.script(base)
  ref = config.reference()
  script, cases = list(head), []
  for k in ks:
    for line in lines:
      script += ['decoder\t' + options, 'line\t%d\t%s' % (k, line)]
      cases.append((k, line))
  out, status, err = pairlm.run(exe, script, base + '.script')
  wrong = []
  if out is None or status != 0 or len(out) != len(cases) + 1:
    k, line = cases[min(len(out or []), len(cases) - 1)]
    return 0, 0, 0, [(line, dict(k=k, line=line, options=options, status=status, message=err[-300:]))]
  skipped = checked = items = 0
  for (k, line), text in zip(cases, out):
    try:
      want = ref.line(line, k)
    except pairlm.Skip:
      skipped += 1
      continue
    checked += 1
    if text.startswith('violation: '):
      bad = text
    else:
      bad = (judge or pairlm.differs)(text, *want)
      items += text.count('\n')
    if bad:
      wrong.append((line, dict(k=k, line=line, options=options, got=text, want=str(want[1]), what=bad)))
  for x in os.listdir(scratch):
    if x.startswith('p29_%d.' % number):
      os.unlink(os.path.join(scratch, x))
  return checked, items, skipped, wrong[:20]


def one_path(text, ws, want):
  """The result is one of the candidates of each word."""
  got = pairlm.parse(text)
  if sorted(got) != list(range(len(ws))):
    return 'positions %s' % sorted(got)
  for i, (w, d) in enumerate(zip(ws, want)):
    if len(got[i]) != 1 or got[i][0][0] != w or got[i][0][1] not in d:
      return 'sampled %s for %s' % (got[i], w)
  return None


def proportional(text, ws, want):
  """Word by word the costs agree but for a constant, in each position."""
  got = pairlm.parse(text)
  if sorted(got) != list(range(len(ws))):
    return 'positions %s' % sorted(got)
  for i, (w, d) in enumerate(zip(ws, want)):
    have = {g[1]: g[2] for g in got[i]}
    if len(have) != len(got[i]) or set(have) != set(d) or {g[0] for g in got[i]} != {w}:
      return '%s gives %s and not %s' % (w, sorted(have), sorted(d))
    shift = [have[x] + math.log(m) for x, m in d.items()]
    if max(shift) - min(shift) > pairlm.TOLERANCE:
      return '%s: costs %s and not %s' % (w, have, {x: -math.log(m) for x, m in d.items()})
  return None


class Threshold:
  """A judge of pruned results: all within the limit and the k best are there, nothing else but outputs."""

  def __init__(self, model, limit, k):
    self.model, self.limit, self.k = model, limit, k

  def __call__(self, text, ws, want):
    del want
    model, limit, k = self.model, self.limit, self.k
    got = pairlm.parse(text)
    for i, w in enumerate(ws):
      have = {g[1]: g[2] for g in got[i]}
      full = model.outputs(w, False)
      if not full:
        if set(have) != {w}:
          return '%s gives %s' % (w, sorted(have))
        continue
      order = sorted((v, x) for x, v in full.items())
      best = order[0][0]
      sure = {x for v, x in order[:k] if v < best + limit - 1e-2}
      may = {x for v, x in order if v < best + limit + 1e-2}
      if not sure <= set(have) or len(have) > k or not set(have) <= set(full):
        return '%s gives %s, with %s at least' % (w, sorted(have), sorted(sure))
      first = have[order[0][1]]
      for x, v in have.items():
        d = v - first - (full[x] - best)
        if (abs(d) > 5e-3) if x in may else d < -5e-3:
          return '%s to %s costs %f more than the best, and not %f' % (w, x, v - first, full[x] - best)
    return None


LM_WORDS = ['x', 'y', 'z', 'xy', 'yx', 'xx', '<UNK>']
LM_PIECES = ['\u2581', '\u2581x', 'x', 'y', 'xy', 'z', '<UNK>']
PIECES = ['\u2581x', 'xy', '\u2581xy', 'yx', 'zy']
LM_INTERNAL = ['x', 'y', 'xy', '@', '@x', '@y', '@yx', '@xyz', '<UNK>']


def main(c):
  c.scratch = mcbuild.scratch()
  c.root = '/repo'
  exe = pairlm.build(c)
  t = c.thorough
  jobs = []
  add = lambda *a: jobs.append((exe, c.scratch, len(jobs)) + a + (None,) * (4 - len(a)))
  all_words = words('abc#', 1, 4 if t else 3)
  ks = (1, 2, 3, 5, 20) if t else (1, 2, 5)
  # Pair models: every subset of the bigrams.
  n = len(BIGRAMS) if t else 6
  for mask in range(1 << n):
    subset = [i for i in range(n) if mask >> i & 1] + ([] if t else [6] if mask & 1 else [7])
    add(Config('pair models / %d' % mask, model(subset)), words('abc#', 1, 3), ks)
  for i, finals in enumerate(itertools.product((None, 1.03), (0.61,), (0.45, None), (0.3, None), (None, 0.9))):
    add(Config('final costs / %d' % i, model(range(8), finals)), words('abc#', 1, 3), ks)
  full = model(range(8))
  add(Config('pair model / longer words', full), all_words + words('ab', 4, 6 if t else 5), ks)
  add(Config('inverted / pair model', full, invert=True), words('xyzw#', 1, 3), ks)
  add(Config('transducer / plain', TRANSDUCER), all_words + words('ab', 4, 5), ks)
  add(Config('transducer / inverted', TRANSDUCER, invert=True), words('xyzw#', 1, 3), ks)
  # Candidates from a file, mixed or instead.
  for name in EXTERNAL:
    add(Config('file / %s alone' % name, None, name), all_words, ks)
    for over in (False, True):
      for weight in (None, 0.5, 0.1, 0.8):
        o = {} if weight is None else {'pairlm_translit_weight': weight}
        for kind, m in (('model', full), ('transducer', TRANSDUCER)):
          add(Config('mixture / %s %s %s %s' % (name, over, weight, kind), m, name, override=over, **o),
              all_words, ks)
  # Lines of words, with every kind of space.
  some = ['a', 'ab', '#', 'a#', 'b#c', 'cab']
  spaces = [' ', '\u3000', ' \xa0 ', '\x0b']
  lines = [s.join(w) for s in spaces[:2] for w in itertools.product(some, repeat=2)]
  lines += [p + s.join(w) + q for s in spaces for p in ('', ' ', '\u2003') for q in ('', '\x85', '  ')
            for w in itertools.product(some[:2], repeat=2)]
  lines += [' '.join(w) for w in itertools.product(some[:5] if t else some[:4], repeat=3)]
  lines += ['', ' ', '\u3000']
  for name in (None, 'some'):
    for tokens in (1, 2, 3):
      for cache in (True, False):
        add(Config('lines / %s %d %s' % (name, tokens, cache), full, name, max_parallel_tokens=tokens,
                   add_to_cache=cache), lines, (1, 3))
  # Posteriors.
  for least in (0.1, 0.3, 0.45, 0.6):
    add(Config('least posterior / %s' % least, full, 'some', min_cand_posterior=least), all_words, ks)
  # A language model over words, word pieces, prefixes; for lines or words.
  sentences = [' '.join(w) for m in (1, 2) for w in itertools.product(some, repeat=m)]
  sentences += [' '.join(w) for w in itertools.product(['a', 'ab', 'a#'], repeat=3)]
  kinds = {
      'words': (LM_WORDS, {}), 'unigrams': (LM_WORDS, {'order': 1}),
      'pieces': (LM_PIECES, {'pieces': PIECES}),
      'pieces prefix': ([p.replace('\u2581', '^') for p in LM_PIECES],
                        {'pieces': [p.replace('\u2581', '^') for p in PIECES], 'word_initial': '^'}),
      'internal': (LM_INTERNAL, {'internal': '@'}),
  }
  for kind, (syms, o) in kinds.items():
    o = dict(o)
    lm = language(syms, o.pop('order', 2))
    for ext in (None, 'some'):
      for cands in (None, 1, 2, 3):
        for closure in (False, True):
          for least in (None, 0.2):
            more = dict(o)
            if cands:
              more['max_word_cands'] = cands
            if closure:
              more['closure'] = True
            if least:
              more['min_cand_posterior'] = least
            name = 'language models / %s %s %s %s %s' % (kind, ext, cands, closure, least)
            add(Config(name, full, ext, lm, syms, **more), sentences, (1, 2, 5))
      for k in (1, 3):
        add(Config('word by word / %s %s' % (kind, ext), full, ext, lm, syms, word_level=True,
                   max_word_cands=4), sentences, (k,), proportional)
    add(Config('unknown cost / %s' % kind, full, 'many', lm, syms, oov_cost=1.5), sentences, (1, 3))
  other = ['OOV' if s == '<UNK>' else s for s in LM_WORDS]
  add(Config('unknown symbol / words', full, 'many', language(other), other, oov='OOV'), sentences, (1, 3))
  # Pruning by cost, and sampling.
  for limit in (0.5, 1.0, 2.0, 3.5):
    for k in (2, 3, 6):
      add(Config('cost limit / %s' % limit, full, word_cand_thresh=limit), words('abc', 1, 4), (k,),
          Threshold(full, limit, k))
  for seed in range(1, 9):
    add(Config('one of the best / %d' % seed, full, 'some', sample_from_k_best=True, random_seed=seed),
        lines[:40] + all_words[:40], (1, 3), one_path)
  sums = {}
  with cf.ProcessPoolExecutor(c.jobs) as pool:
    for job, (checked, items, skipped, wrong) in zip(jobs, pool.map(explore, jobs, chunksize=1)):
      name = job[3].name
      for i, n in enumerate((checked, items, skipped)):
        sums.setdefault(name.split(' /')[0], [0, 0, 0])[i] += n
      for line, what in wrong:
        c.violation('%s: %s' % (name, line), **what)
  for part, (checked, items, skipped) in sums.items():
    c.count(part, states=checked, transitions=items, undecided_by_ties=skipped)
  c.direct = True
  c.sample({'line': 'a# ab', 'k': 2})


if __name__ == '__main__':
  check.run('P29', main)
