"""P30: what the decoder gives for a line depends on no schedule, on no other line, on no other word."""
import concurrent.futures as cf
import itertools
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import build as mcbuild
from mc import check, pairlm
import P29_decoder as p29


def configs(tokens):
  """Configurations that take every way through the caches."""
  m, t = p29.model(range(8)), p29.TRANSDUCER
  lm = p29.language(p29.LM_WORDS)
  make = lambda name, *a, **o: p29.Config(name, *a, max_parallel_tokens=tokens, **o)
  return [
      make('model', m), make('file', None, 'some'), make('mixture', m, 'some', pairlm_translit_weight=0.3),
      make('override', m, 'some', override=True), make('no cache', m, 'some', add_to_cache=False),
      make('transducer', t, 'many'),
      make('language model', m, 'some', lm, p29.LM_WORDS, max_word_cands=3),
      make('language model, no cache', m, 'many', lm, p29.LM_WORDS, max_word_cands=3,
           add_to_cache=False),
  ]


def compare(ref, lines, k, text, order):
  """None, or what is wrong with results in which every line has its number."""
  found, numbers = {}, []
  for l in text.split('\n'):
    if l:
      number, rest = l.split('\t', 1)
      numbers.append(int(number))
      found.setdefault(int(number), []).append(rest)
  if order and numbers != sorted(numbers):
    return 'lines are not in order: %s' % numbers
  if not set(numbers) <= set(range(len(lines))):
    return 'a line too many: %s' % numbers
  for i, line in enumerate(lines):
    try:
      want = ref.line(line, k)
    except pairlm.Skip:
      continue
    bad = pairlm.differs('\n'.join(found.get(i, [])), *want)
    if bad:
      return 'line %d: %s' % (i, bad)
  return None


def explore(job):
  """What was covered, and what is wrong, for one configuration and its commands."""
  exe, scratch, number, config, kind, items = job
  base = os.path.join(scratch, 'p30_%d' % number)
  head, options = config.script(base)
  ref = config.reference()
  script = list(head)
  cases = []
  for n, item in enumerate(items):
    if kind == 'history':
      k, lines = item
      script.append('decoder\t' + options)
      script += ['line\t%d\t%s' % (k, l) for l in lines]
      cases += [(k, lines[:i + 1], None) for i in range(len(lines))]
      continue
    script.append('decoder\t' + options)
    if kind == 'schedules':
      bound, limit, k, lines = item
      script.append('\t'.join(['explore', str(bound), str(limit), str(k)] + list(lines)))
      cases.append((k, lines, bound))
    else:
      bound, limit, k, workers, text = item
      path = '%s.%d.in' % (base, n)
      with open(path, 'w', encoding='utf8') as f:
        f.write(text)
      script.append('\t'.join(['runner', str(bound), str(limit), str(k), str(workers), path]))
      lines = [l for l in text.split('\n') if l and not l.startswith('#')]
      cases.append((k, lines, (bound, workers)))
  out, status, err = pairlm.run(exe, script, base + '.script')
  wrong = []
  if out is None or status != 0 or len(out) != len(cases) + 1:
    k, lines, how = cases[min(len(out or []), len(cases) - 1)]
    return 0, 0, 0, 0, [(' | '.join(lines), dict(k=k, lines=lines, how=how, options=options,
                                                  status=status, message=err[-300:]))]
  states = steps = incomplete = deepest = 0
  for (k, lines, how), r in zip(cases, out):
    if kind == 'history':
      states += 1
      steps += len(lines)
      try:
        want = ref.line(lines[-1], k)
      except pairlm.Skip:
        continue
      bad = r if r.startswith('violation: ') else pairlm.differs(r, *want)
      trace = []
    else:
      states += r['executions']
      steps += r['points']
      deepest = max(deepest, r['deepest'])
      incomplete += not r['complete'] and not r['violation']
      trace = r['trace']
      bad = r['violation'] or compare(ref, lines, k, r['output'], kind == 'runner')
    if bad:
      wrong.append((' | '.join(lines), dict(k=k, lines=lines, how=how, options=options, what=bad,
                                            trace=trace[-60:])))
  for x in os.listdir(scratch):
    if x.startswith('p30_%d.' % number):
      os.unlink(os.path.join(scratch, x))
  return states, steps, incomplete, deepest, wrong[:10]


def main(c):
  c.scratch = mcbuild.scratch()
  c.root = '/repo'
  exe = pairlm.build(c)
  t = c.thorough
  jobs = []
  limit = 3000000 if t else 60000

  def add(config, kind, items, size=1):
    items = list(items)
    for i in range(0, len(items), size):
      jobs.append((exe, c.scratch, len(jobs), config, kind, items[i:i + size]))
  words = ['ab', '#', 'a#', 'b#', 'b', 'ca']
  # Two words of a line side by side: every schedule with so many preemptions.
  for config in configs(2):
    main_one = config.name in ('mixture', 'language model')
    some = words if t else words[:4]
    add(config, 'schedules', [(2 if t or main_one else 1, limit, 2, [' '.join(w)])
                              for w in itertools.product(some, repeat=2)], 4)
    add(config, 'schedules', [(1, limit, 3, [' '.join(w)]) for w in itertools.product(
        words[:4] if t else words[:3] if main_one else words[:2], repeat=3)], 3)
    # A line after another, with the caches it left.
    add(config, 'schedules', [(1, limit, 2, [' '.join(v), ' '.join(w)]) for v in itertools.product(
        words[1:3], repeat=2) for w in itertools.product(words[:3], repeat=2)
                              if t or main_one or v[0] != v[1]], 4)
  if t:
    for config in configs(2):
      add(config, 'schedules', [(3, limit, 2, [' '.join(w)]) for w in (
          ('ab', 'ab'), ('a#', '#'), ('a#', 'b#'), ('#', '#'), ('ab', 'b'))])
      add(config, 'schedules', [(2, limit, 3, [' '.join(w)]) for w in itertools.product(
          words[:3], repeat=3)], 3)
    for config in configs(3):
      add(config, 'schedules', [(1, limit, 2, [' '.join(w)]) for w in itertools.product(
          words[:3], repeat=3)], 3)
  # Histories of lines, one after the other.
  pool = ['a', '#', 'a#', '# a#', 'a# #', 'ab a', '##', 'b#c bc', '']
  for config in configs(1):
    for k in (1, 3):
      rows = [(k, h) for n in ((1, 2, 3, 4) if t else (1, 2, 3))
              for h in itertools.product(pool if n < 4 else pool[:6], repeat=n)]
      add(config, 'history', [x for x in rows if t or k == 1 or len(x[1]) < 3 or x[1][0] != 'a'], 250)
  # The runner: lines side by side, in order, comments left out.
  files = ['%s\n%s\n' % x for x in itertools.product(['ab', '#', 'a#', ' # a#'], repeat=2)]
  files += ['#x\nab\n', 'ab\n#ab\n# b\na#\n', '', '\n', 'ab\n\nab', 'ab', '#', '\n#\nb#\n']
  for config in configs(1):
    add(config, 'runner', [(0, limit, k, w, f) for f in files for w in (1, 2, 3) for k in (1, 3)], 12)
    add(config, 'runner', [(0, limit, 2, 1, 'a#\nab\n\n #\n' * n) for n in (2, 3, 5)])
    some = files if t else files[:2] + files[9:11] if config.name in ('mixture', 'no cache') else files[:1]
    add(config, 'runner', [(1, limit, 2, 2, f) for f in some])
  if t:
    for config in configs(1)[2:5]:
      add(config, 'runner', [(2, limit, 2, 2, f) for f in ('ab\nab\n', ' #\na#\n', 'a#\nb#\n')])
      add(config, 'runner', [(1, limit, 2, 3, 'ab\nab\na#\n')])
    for config in configs(2)[2:4]:
      add(config, 'runner', [(1, limit, 2, 2, f) for f in ('ab\nab\n', 'ab b\na#\n')])
  sums = {}
  jobs.sort(key=lambda j: -len(j[5]) if j[4] == 'history' else -1000)
  with cf.ProcessPoolExecutor(c.jobs) as pool:
    for job, (states, steps, incomplete, deepest, wrong) in zip(
        jobs, pool.map(explore, jobs, chunksize=1)):
      s = sums.setdefault('%s: %s' % (job[4], job[3].name), [0, 0, 0, 0])
      for i, n in enumerate((states, steps, incomplete)):
        s[i] += n
      s[3] = max(s[3], deepest)
      for lines, what in wrong:
        c.violation('%s: %s: %s' % (job[4], job[3].name, lines), **what)
  for part, (states, steps, incomplete, deepest) in sums.items():
    c.count(part, states=states, transitions=steps, cut_short=incomplete, deepest=deepest)
  c.direct = True
  c.sample({'lines': ['a# #'], 'preemptions': 2})


if __name__ == '__main__':
  check.run('P30', main)
