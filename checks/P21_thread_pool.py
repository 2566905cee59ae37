"""P21: the thread pool runs every scheduled function once, in order, before it goes away."""
import itertools, json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import build as mcbuild
from mc import check, cpp

FIELDS = ('workers', 'before', 'after', 'producers', 'each', 'early', 'nested', 'meet', 'start',
          'preemptions')


def sc(workers, before=0, after=0, producers=0, each=0, early=0, nested=0, meet=0, start=1,
       bound=-1):
  return (workers, before, after, producers, each, early, nested, meet, start, bound)


def scenarios(thorough):
  out = []
  # Every interleaving of small programs.
  for w in range(0, 3):
    for b, a in itertools.product(range(4), repeat=2):
      if b + a <= (3 if w < 2 else 2):
        out.append(sc(w, b, a))
      if b + a <= 3:
        out.append(sc(w, b, a, start=0))
  for b, a in ((0, 0), (1, 0), (0, 1)):
    out.append(sc(3, b, a))
  out += [sc(2, 0, 3), sc(2, 3, 0), sc(1, 5, 5), sc(1, 0, 8), sc(1, 12, 0)]
  for early in (0, 1):
    out += [sc(1, 0, 0, 1, 1, early), sc(1, 1, 1, 1, 1, early), sc(1, 0, 0, 2, 1, early),
            sc(1, 0, 1, 1, 2, early), sc(1, 1, 0, 1, 2, early), sc(2, 0, 0, 1, 1, early),
            sc(1, 0, 0, 2, 2, early, bound=3)]
  out += [sc(1, 1, 0, nested=n) for n in (1, 2)] + [sc(1, 0, 2, nested=2), sc(2, 1, 0, nested=1)]
  out += [sc(2, 2, 0, meet=1), sc(2, 0, 2, meet=1), sc(2, 1, 1, meet=1)]
  out += [sc(2, b, 2 - b, meet=2) for b in range(3)] + [sc(2, 0, 3, meet=2)]
  out += [sc(3, b, 3 - b, meet=3, bound=1) for b in range(4)] + [sc(4, 1, 3, meet=3, bound=0)]
  # Larger programs, with a bounded number of preemptions.
  out += [sc(2, 2, 2, bound=2), sc(2, 0, 5, bound=2), sc(3, 1, 3, bound=1), sc(4, 2, 3, bound=1),
          sc(5, 3, 4, bound=0), sc(3, 0, 3, meet=1, bound=1), sc(2, 1, 1, 2, 2, 1, bound=1),
          sc(1, 40, 40, bound=1), sc(2, 30, 30, bound=0)]
  if thorough:
    out += [sc(2, b, 3 - b) for b in range(4)] + [sc(2, 0, 4), sc(2, 2, 2), sc(3, 0, 2), sc(3, 1, 1),
            sc(3, 2, 0), sc(2, 0, 0, 2, 1, 0), sc(2, 1, 0, 1, 1, 0), sc(2, 1, 0, nested=2),
            sc(2, 0, 2, nested=1, meet=1), sc(1, 1, 1, 2, 1, 1), sc(2, 0, 3, meet=1),
            sc(3, 0, 3, meet=3, bound=2), sc(3, 2, 2, meet=3, bound=2), sc(4, 0, 5, meet=3, bound=1),
            sc(3, 0, 4, bound=2), sc(4, 2, 3, bound=2), sc(2, 4, 4, bound=3),
            sc(2, 1, 1, 2, 2, 1, bound=2), sc(8, 6, 6, bound=0), sc(3, 0, 3, bound=3)]
  return list(dict.fromkeys(out))


def main(c):
  c.scratch = mcbuild.scratch()
  c.root = '/repo'
  inc = ['-I', cpp.CPP + '/sched', '-I', cpp.CPP + '/shim', '-I', cpp.CPP]
  objs = cpp.compile_all(c, [
      ('sched', cpp.CPP + '/sched/sched.cc', ['-O2'] + inc),
      ('monitor', cpp.CPP + '/thread_pool_monitor.cc', ['-O2'] + inc),
      ('pool', cpp.CPP + '/thread_pool_mc.cc',
       ['-O1', '-g', '-fsanitize=thread', '-w'] + inc +
       ['-I', cpp.REPO, '-include', cpp.CPP + '/sched/std_threads.h'])])
  exe = cpp.link(c, 'pool', objs.values())
  limit = '20000000' if c.thorough else '400000'

  def explore(s):
    try:
      r = subprocess.run([exe] + [str(x) for x in s] + [limit], capture_output=True, text=True,
                         timeout=600 if c.thorough else 150, check=False)
    except subprocess.TimeoutExpired:
      return s, None
    if r.returncode:
      return s, {'violation': 'the program ended with status %d: %s' % (
          r.returncode, r.stderr[-300:]), 'executions': 0, 'points': 0, 'steps': 0,
                 'complete': False, 'trace': []}
    return s, json.loads(r.stdout)
  c.direct = True
  todo = sorted(scenarios(c.thorough), key=lambda s: -(s[0] ** 3 * (s[1] + s[2] + 2 * s[3] * s[4])))
  for s, r in c.each(explore, todo):
    name = ' '.join('%s=%d' % kv for kv in zip(FIELDS, s) if kv[1] or kv[0] == 'workers')
    if r is None:
      c.count('threads/' + name, complete=False)
      continue
    c.count('threads/' + name, states=r['points'], transitions=r['steps'],
            executions=r['executions'], complete=r['complete'])
    c.traces += r['executions']
    if r['violation']:
      kind = r['violation'].split(':')[0]
      c.violation('threads: %s [%s]' % (kind if kind in ('deadlock', 'data race')
                                        else r['violation'], name),
                  what=r['violation'], scenario=dict(zip(FIELDS, s)), schedule=r['trace'])
    else:
      c.sample({'scenario': name, 'executions': r['executions']})


if __name__ == '__main__':
  check.run('P21', main)
