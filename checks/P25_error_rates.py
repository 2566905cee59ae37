"""P25: error rates and expected error rates are minimal edit distances."""
import itertools, json, math, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build as mcbuild
from mc import check, cpp

SPACES = '\x0b \x85\xa0\u1680\u2003\u2028\u3000'
LINE = re.compile(r'reference length=(\S+) substitutions=(\S+) deletions=(\S+) insertions=(\S+)$')


def words(alphabet, lo, hi):
  return [''.join(w) for n in range(lo, hi + 1) for w in itertools.product(alphabet, repeat=n)]


def tokens(s, split):
  w = re.split('[\t-\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+', s)
  w = [x for x in w if x]
  return tuple(' '.join(w)) if split else tuple(w)


_DIST = {}


def distance(a, b):
  """The least number of single edits between two sequences."""
  if (a, b) not in _DIST:
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
      old, row[0] = row[0], i + 1
      for j, y in enumerate(b):
        old, row[j + 1] = row[j + 1], min(old + (x != y), row[j] + 1, row[j + 1] + 1)
    _DIST[a, b] = row[-1]
  return _DIST[a, b]


def write(path, lists):
  with open(path, 'w', encoding='utf8', newline='\n') as f:
    for i, entries in lists:
      for e in entries:
        f.write('\t'.join([str(i)] + [str(x) for x in e]) + '\n')


def transport(p1, p2, cost, pieces):
  """The least cost of moving p1 to p2, both multiples of 1/pieces (all ways tried)."""
  left = [round(p * pieces) for p in p1]
  right = tuple(round(p * pieces) for p in p2)
  memo = {}

  def go(i, right):
    if i == len(left):
      return 0
    if (i, right) not in memo:
      best = None
      for move in itertools.product(*(range(r + 1) for r in right)):
        if sum(move) == left[i]:
          v = sum(m * c for m, c in zip(move, cost[i])) + go(
              i + 1, tuple(r - m for r, m in zip(right, move)))
          best = v if best is None else min(best, v)
      memo[i, right] = best
    return memo[i, right]
  return go(0, right) / pieces


class Run:

  def __init__(self, c, exe):
    self.c, self.exe, self.ids = c, exe, itertools.count()
    self.bad = {}

  def violation(self, kind, **detail):
    self.bad[kind] = self.bad.get(kind, 0) + 1
    if self.bad[kind] <= 3:
      self.c.violation(kind, **detail)

  def tool(self, items, split, pairwise):
    """items: (references, outputs); an item may have neither. Returns the lines written."""
    p = os.path.join(self.c.scratch, 'er%d' % next(self.ids))
    write(p + 'r', enumerate(r for r, _ in items))
    write(p + 't', enumerate(h for _, h in items))
    r = subprocess.run([self.exe, p + 'r', p + 't', p + 'o', '01'[split], '01'[pairwise]],
                       capture_output=True, text=True, timeout=800, check=False)
    if r.returncode:
      self.violation('the program fails', status=r.returncode, stderr=r.stderr[-500:],
                     items=str(items[:3]), split=split, pairwise=pairwise)
      return None, None
    with open(p + 'o', encoding='utf8', newline='\n') as f:
      lines = f.read().split('\n')
    for x in 'rto':
      os.unlink(p + x)
    if lines[-1]:
      self.violation('the last line has no end', got=lines[-1])
    return lines[:-1], float(r.stdout)

  def rates(self, part, items, split):
    lines, rate = self.tool(items, split, False)
    self.c.count('rates: ' + part, states=len(items), transitions=sum(
        len(r) * len(h) for r, h in items), evaluations=len(items))
    if lines is None:
      return
    named = [x for x in items if x[0]]
    if len(lines) != len(named) + 3:
      self.violation('one line for each example and a summary', part=part, got=len(lines),
                     want=len(named) + 3)
      return
    total = [0, 0, 0, 0]
    for (refs, hyps), line in zip(named, lines):
      m = LINE.match(line)
      if not m:
        self.violation('form of a line', line=line)
        continue
      n, s, d, i = (float(x) for x in m.groups())
      total = [a + b for a, b in zip(total, (n, s, d, i))]
      hyp = tokens(min(hyps, key=lambda h: h[1] if len(h) > 1 else 0.)[0], split) if hyps else ()
      opts = [(tokens(r[0], split)) for r in refs]
      best = min(distance(r, hyp) / len(r) for r in opts)
      ok = [(len(r), distance(r, hyp)) for r in opts
            if abs(distance(r, hyp) / len(r) - best) < 1e-12]
      if (n, s + d + i) not in ok:
        self.violation('length and edits of the best reference', part=part, refs=refs, hyps=hyps,
                       line=line, want=ok)
      elif min(s, d, i) < 0 or d - i != n - len(hyp) or s > min(n, len(hyp)):
        self.violation('deletions less insertions are the difference in length', part=part,
                       refs=refs, hyps=hyps, line=line)
    label = 'CER' if split else 'WER'
    m = LINE.search(lines[-2])
    want = (total[1] + total[2] + total[3]) / total[0]
    if lines[-3] != 'Summary ' + label or not lines[-2].startswith('total statistics: ') or not m or \
        any(abs(float(x) - y) > 1e-5 * y for x, y in zip(m.groups(), total)):
      self.violation('the summary adds up the lines', part=part, got=lines[-3:], want=total)
    m = re.fullmatch('overall %s: (.*)' % label, lines[-1])
    if not m or abs(float(m.group(1)) - want) > 1e-5 * want or abs(rate - want) > 1e-9:
      self.violation('the overall rate is all edits by all lengths', part=part, got=lines[-1],
                     want=want)

  def pairwise(self, part, items, split, pieces=0):
    """pieces: if set, probabilities are multiples of 1/pieces, and expectations are checked."""
    lines, _ = self.tool(items, split, True)
    self.c.count('pairs: ' + part, states=len(items), transitions=sum(
        len(r) * len(h) for r, h in items), evaluations=len(items))
    if lines is None:
      return []
    named = [x for x in items if x[0]]
    if len(lines) != len(named):
      self.violation('one line for each example', part=part, got=len(lines), want=len(named))
      return []
    out = []
    for (refs, hyps), line in zip(named, lines):
      try:
        j = json.loads(line)
      except ValueError:
        self.violation('every line is JSON', part=part, refs=refs, hyps=hyps, line=line)
        continue
      if not hyps:
        hyps = [('', 0.)]
      e = [math.exp(-(h[1] if len(h) > 1 else 0.)) for h in hyps]
      k = [r[1] if len(r) > 1 else 1. for r in refs]
      ph, pr = [x / sum(e) for x in e], [x / sum(k) for x in k]
      th = [tokens(h[0], split) for h in hyps]
      tr = [tokens(r[0], split) for r in refs]
      zh, zr = [0] * len(hyps), [0] * len(refs)
      cost = [[distance(r, h) for r in tr] for h in th]
      want = {'p1': ph + zr, 'p2': zh + pr, 'L': zh + [len(r) for r in tr]}
      for key, w in want.items():
        g = j.get(key)
        if not isinstance(g, list) or len(g) != len(w) or any(
            abs(x - y) > 1e-5 for x, y in zip(g, w)):
          self.violation('value of ' + key, part=part, refs=refs, hyps=hyps, got=g, want=w)
      d = [zh + row for row in cost] + [[row[i] for row in cost] + zr for i in range(len(refs))]
      if j.get('D') != d:
        self.violation('value of D', part=part, refs=refs, hyps=hyps, got=j.get('D'), want=d)
      names = [h[0] for h in hyps]
      if '' in names:
        names = None  # how an empty output is named is not said
      for key, w, p in (('hyp', names, ph), ('ref', [r[0] for r in refs], pr)):
        if w is not None and (list(j.get(key, ())) != w or any(
            abs(x - y) > 1e-5 for x, y in zip(j[key].values(), p))):
          self.violation('value of ' + key, part=part, refs=refs, hyps=hyps, got=j.get(key), want=w)
      if pieces:
        out.append((line, transport(ph, pr, cost, pieces),
                    sum(p * len(r) for p, r in zip(pr, tr))))
    return out


def expectations(c, run, rows):
  """Earth mover's distance of every written line, against all ways of moving."""
  code = ('import sys, json, warnings; warnings.simplefilter("ignore")\n'
          'from nisaba.translit.tools import emd_cer\n'
          'for l in sys.stdin:\n'
          '  e, n = emd_cer.emd_error_and_length(json.loads(l)); print(repr(float(e)), repr(float(n)))\n')
  r = subprocess.run([mcbuild.PY, '-c', code], input=''.join(x[0] + '\n' for x in rows),
                     capture_output=True, text=True, timeout=800, check=False,
                     env=dict(os.environ, PYTHONPATH=c.root, PYTHONDONTWRITEBYTECODE='1'))
  got = [tuple(map(float, l.split())) for l in r.stdout.splitlines()]
  if len(got) != len(rows):
    c.violation('expected error rate fails', stderr=r.stderr[-500:])
    return
  for (line, edits, length), (e, n) in zip(rows, got):
    if abs(e - edits) > 1e-4 or abs(n - length) > 1e-4:
      run.violation('expected edits and length', line=line, got=[e, n], want=[edits, length])
  c.count('expected edits', states=len(rows), transitions=len(rows), evaluations=2 * len(rows))


def main(c):
  c.scratch = mcbuild.scratch()
  c.root = '/repo'
  port = cpp.REPO + '/nisaba/port/'
  objs = cpp.compile_all(c, [
      ('error_rate_mc', cpp.CPP + '/error_rate_mc.cc', cpp.REPO_FLAGS),
      ('error_rate', cpp.REPO + '/nisaba/translit/tools/calculate_error_rate.cc', cpp.REPO_FLAGS)] + [
          (f, port + f + '.cc', cpp.REPO_FLAGS)
          for f in ('utf8_util', 'utf8_delimiters', 'unicode_properties', 'file', 'file_util')])
  exe = cpp.link(c, 'error_rate', objs.values(), ['-lfst', '-lprotobuf'] + cpp.absl_libs())
  run = Run(c, exe)
  t = c.thorough
  one = lambda refs, hyps: [([(r,)], [(h,)] if h else []) for r in refs for h in hyps]
  jobs = []
  add = lambda *a: jobs.append(a)
  # One reference, one output.
  two, three = words('ab', 1, 7 if t else 5), words('abc', 1, 5 if t else 4)
  for name, refs, hyps in (('two letters', two, [''] + two),
                           ('three letters', three, [''] + words('abc', 1, 5 if t else 4))):
    for i in range(0, len(refs), 40):
      add(run.rates, name, one(refs[i:i + 40], hyps), True)
  small = words('ab', 1, 3)
  add(run.pairwise, 'one of each', one(words('ab', 1, 4), [''] + words('ab', 1, 4)), True)
  # Characters of every length in UTF-8, and of JSON.
  chars = ['a', '\xe9', '\u0915', '\u0301', '\U00011111', '"', '\\', '/', '{', "'", '\x7f', '<']
  odd = words(chars, 1, 2)
  add(run.rates, 'odd characters', one(odd, ['a', '\u0915\\'] + chars), True)
  add(run.pairwise, 'odd characters', one(odd, ['a', '\u0915\\'] + chars), True)
  # Words, with every space between, before and after.
  spaced = [''.join(w) for n in (2, 3, 4) for w in itertools.product(['a', 'b', ' ', '\u2003'], repeat=n)
            if ''.join(w).strip()]
  many = ['%sa%sb%s' % (x, y, z) for x in ['', ' '] + list(SPACES[2:5]) for y in SPACES
          for z in ['', '\u3000', ' ']]
  phrases = [' '.join(w) for n in (1, 2, 3) for w in itertools.product(['a', 'b', 'ab', 'ba'], repeat=n)]
  for split in (True, False):
    add(run.rates, 'spaces', one(spaced[:180], ['a', 'a b', 'b  a ', ' ab', '\u2003b\u3000']), split)
    add(run.rates, 'kinds of spaces', one(many, ['a b', 'ab', '\u3000a\x85b']), split)
    add(run.rates, 'phrases', one(phrases, [""] + phrases[::3]), split)
    add(run.pairwise, 'phrases', one(phrases, [""] + phrases[::5]), split)
    add(run.pairwise, 'spaces', one(spaced[:180:3], ['a b', ' ab', '\u2003b\u3000']), split)
  # The reference that fits best, the output that costs least, in every order.
  for hyp in words('ab', 1, 3):
    add(run.rates, 'references', [([(x,), (y,)], [(hyp,)]) for x in small for y in small if x != y], True)
  three_refs = words('ab', 1, 2)
  add(run.rates, 'three references', [([(x,), (y,), (z,)], [(h,)]) for x, y, z in
                                      itertools.permutations(three_refs, 3) for h in small], True)
  costs = [None, 0., 0.5, 1, -0.25, 1e-3, 2.5]
  entry = lambda s, v: (s,) if v is None else (s, v)
  hyps = ['a', 'bb', 'aab']
  for n in (2, 3):
    for ref in ('aab', 'b'):
      add(run.rates, 'costs', [([(ref,)], [entry(h, v) for h, v in zip(hyps, vs)])
                               for vs in itertools.product(costs, repeat=n)], True)
  for ns in itertools.product([None, 1, 2, 3], repeat=2):
    refs = [entry(r, v) for r, v in zip(('ab', 'b'), ns)]
    add(run.pairwise, 'counts and costs',
        [(refs, [entry(h, v) for h, v in zip(hyps, vs)]) for k in (1, 2, 3)
         for vs in itertools.product(costs[:5], repeat=k)], True)
  # Examples without output, and without anything, at every position but the last.
  kinds = [([('ab',)], [('b',)]), ([('ab',), ('b',)], []), ([], []),
           ([('a',)], [('ab', 1.), ('a', .5)])]
  for n in (1, 2, 3, 4 if t else 3):
    for items in itertools.product(kinds, repeat=n):
      if items[-1][1] and items[-1][0]:
        for split in (True, False):
          add(run.rates, 'examples left out', list(items), split)
          add(run.pairwise, 'examples left out', list(items), split)
  # Expected edits: all matrices that arise, with weights in quarters.
  parts = {1: [(4,)], 2: [(1, 3), (2, 2), (3, 1)], 3: [(1, 1, 2), (1, 2, 1), (2, 1, 1)]}
  pool = ['a', 'ab', 'bba', 'abab', 'baaba']
  expected = []
  for nh, nr in itertools.product((1, 2, 3), repeat=2):
    items = [([(r, k) for r, k in zip(refs, wr)], [(h, -math.log(k / 4)) for h, k in zip(hs, wh)])
             for refs in itertools.permutations(pool, nr)
             for hs in itertools.combinations(['b', 'aab', 'abab', ''.join('bbbb')], nh)
             for wr in parts[nr] for wh in parts[nh]]
    expected.append(items)
  rows = []
  for r in c.each(lambda items: run.pairwise('expected', items, True, 4), expected):
    rows += r
  c.each(lambda a: a[0](*a[1:]), jobs)
  expectations(c, run, rows)
  c.direct = True
  c.sample({'refs': 'aab', 'hyp': 'b', 'edits': distance(tuple('aab'), tuple('b'))})


if __name__ == '__main__':
  check.run('P25', main)
