"""What every check shares: build, counters, verdicts, replay files, evidence."""
import concurrent.futures as cf
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from mc import build as mcbuild  # pylint: disable=wrong-import-position

MAX_REPORTED = 8


class Check:
  """One property's check. Use through run()."""

  def __init__(self, pid, level='model_checking'):
    self.pid = pid
    self.level = level
    tier = os.environ.get('VERIF_TIER', 'quick')
    self.tier = 'thorough' if tier == 'thorough' else 'quick'
    self.thorough = self.tier == 'thorough'
    try:
      self.seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
      self.seed = 1
    self.t0 = time.time()
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.direct = False  # Every state explored is an execution of the real code.
    self.evaluations = 0
    self.parts = []
    self.samples = []
    self.notes = {}
    self.violations = []
    self.known_hit = {}
    self.jobs = int(os.environ.get('MC_JOBS') or min(8, os.cpu_count() or 4))
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
      self.known = {x['site']: x for x in json.load(f)['findings']
                    if x['property'] == pid and x['status'] == 'open'}

  # --- building -----------------------------------------------------------
  def build(self, fars=()):
    """Builds the FARs ('brahmic/nfc.far'); makes the repository importable."""
    t = time.time()
    self.root = mcbuild.tree([mcbuild.far(x) for x in fars])
    self.ws = os.path.join(self.root, mcbuild.driver().WS)
    env = mcbuild.env(self.root)
    for k in ('LANG', 'LC_ALL', 'TZ', 'RUNFILES_DIR', 'TEST_SRCDIR',
              'TEST_WORKSPACE', 'TEST_TMPDIR', 'TMPDIR'):
      os.environ[k] = env[k]
    for p in reversed(env['PYTHONPATH'].split(':')):
      if p != VERIF and p not in sys.path:
        sys.path.insert(0, p)
    self.scratch = mcbuild.scratch()
    os.chdir(os.path.join(self.root, 'tmp'))
    self.notes['build_s'] = round(time.time() - t, 1)
    return self.ws

  def far(self, path):
    return os.path.join(self.ws, 'nisaba', 'scripts', path)

  def machine(self, path, key):
    """Engine machine for an entry of a FAR: machine('brahmic/nfc.far', 'DEVA')."""
    from mc.engine import Machine
    return Machine.from_far(self.far(path), key, self.scratch, '%s[%s]' % (path, key))

  # --- verdicts -----------------------------------------------------------
  def count(self, part, states=0, transitions=0, evaluations=0, **more):
    self.states += states
    self.transitions += transitions
    self.evaluations += evaluations
    d = {'part': part, 'states': states, 'transitions': transitions}
    if evaluations:
      d['evaluations'] = evaluations
    d.update(more)
    self.parts.append(d)

  def sample(self, x):
    if len(self.samples) < 12:
      self.samples.append(x)

  def violation(self, site, **what):
    """Records a violation; `site` names the input or place, for known findings."""
    if site in self.known:
      self.known_hit.setdefault(site, what)
      return
    if any(v['site'] == site for v in self.violations):
      return
    self.violations.append(dict(what, site=site))
    if len(self.violations) <= MAX_REPORTED:
      d = os.path.join(VERIF, 'replays')
      os.makedirs(d, exist_ok=True)
      path = os.path.join(d, '%s-%d.json' % (self.pid, len(self.violations)))
      with open(path, 'w') as f:
        json.dump(dict(property=self.pid, site=site, **what), f, indent=1,
                  ensure_ascii=True, default=str)
        f.write('\n')
      print('VIOLATION property=%s replay=%s' % (self.pid, path))
      print('  %s: %s' % (site, json.dumps(what, ensure_ascii=False, default=str)[:600]),
            flush=True)

  # --- all-strings decisions with the engine ------------------------------
  def decide(self, part, result, byte, describe):
    """Takes an engine result; on a violation, describe(input labels) -> dict or None."""
    from mc.engine import text
    self.count(part, result.states, result.transitions)
    if result.ok:
      return True
    for w in result.witnesses():
      what = describe(w)
      if what:
        self.violation('%s: %s' % (part, ascii(text(w, byte))), input=text(w, byte), **what)
        return False
    w = result.witnesses()[0]
    self.violation('%s: %s' % (part, ascii(text(w, byte))), input=text(w, byte),
                   kind=result.kind)
    return False

  def same_function(self, part, a, b, byte=False, domain=True):
    """For every string: a and b give the same output, each just one.

    domain: also that both accept the same strings.
    """
    from mc.engine import text

    def outs(w):
      return {m.name: [text(o, byte) for o in m.apply(w)] for m in (a, b)}

    def differ(w):
      o = outs(w)
      x = list(o.values())
      return {'outputs': o} if len(x) == 1 or x[0] != x[1] or len(x[0]) > 1 else None
    ok = self.decide(part + '/outputs', a.agree(b), byte, differ)
    if domain:
      ok = self.decide(part + '/a in b', a.included_in(b), byte,
                       lambda w: {'only accepted by': a.name, 'outputs': outs(w)}) and ok
      ok = self.decide(part + '/b in a', b.included_in(a), byte,
                       lambda w: {'only accepted by': b.name, 'outputs': outs(w)}) and ok
    return ok

  def function(self, part, a, byte=False):
    """For every string: at most one output."""
    from mc.engine import text
    return self.decide(
        part, a.functional(), byte,
        lambda w: (lambda o: {'outputs': o} if len(o) > 1 else None)(
            [text(x, byte) for x in a.apply(w)]))

  def accepts(self, part, lang, a, byte=False):
    """Every string of lang is accepted by a."""
    return self.decide(part, lang.included_in(a), byte, lambda w: {'rejected by': a.name})

  def each(self, fn, items):
    """Runs fn on the items in threads (the engine releases the GIL)."""
    with cf.ThreadPoolExecutor(self.jobs) as ex:
      return list(ex.map(fn, items))

  # --- the end ------------------------------------------------------------
  def finish(self):
    for site, what in sorted(self.known_hit.items()):
      print('KNOWN-FINDING: property=%s %s' % (self.pid, site))
    if self.direct:
      self.traces = self.traces or self.states
    wall = round(time.time() - self.t0, 1)
    cov = {'states': self.states, 'transitions': self.transitions,
           'traces_validated_against_impl': self.traces,
           'samples': self.samples, 'evaluations': self.evaluations,
           'parts': self.parts}
    cov.update(self.notes)
    cov['violations'] = len(self.violations)
    if os.environ.get('MC_SITES'):
      print('\n'.join(v['site'] for v in self.violations))
    cov['known_findings'] = sorted(self.known_hit)
    ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
          'level': self.level, 'coverage': cov, 'wall_s': wall}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', self.pid + '.json')
    with open(path + '.new', 'w') as f:
      json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
      f.write('\n')
    os.replace(path + '.new', path)
    print('%s %s: %d states, %d transitions, %d evaluations, %d traces replayed, '
          '%d violations, %.1f s' % (
              self.pid, self.tier, self.states, self.transitions, self.evaluations,
              self.traces, len(self.violations), wall), flush=True)
    return 1 if self.violations else 0


def raised_by_repo(e, c):
  """Where the code under test raised e, when a call of ours into it did not return."""
  root = getattr(c, 'root', None)
  if not root:
    return None
  where = None
  for f in traceback.extract_tb(e.__traceback__):
    name = os.path.realpath(f.filename)
    if name.startswith(VERIF + '/'):
      where = None
    elif f.filename.startswith(root + '/') or name.startswith(mcbuild.REPO + '/'):
      where = '%s:%s' % (os.path.basename(name), f.name)
  return where


def run(pid, fn, level='model_checking'):
  c = Check(pid, level)
  try:
    fn(c)
  except Exception as e:  # pylint: disable=broad-except
    if type(e).__name__ == 'CompileError':
      # The sources under test use an interface that is not available here, in
      # the compiler, the libraries or the stand-ins for them: nothing is decided.
      print('UNDECIDED: %s: the sources do not compile with the harness' % pid)
      print(str(e)[-1500:])
      c.notes['undecided'] = str(e)[-1500:]
      sys.exit(c.finish())
    traceback.print_exc()
    where = raised_by_repo(e, c)
    if where:
      c.violation('raised: %s in %s' % (type(e).__name__, where),
                  error=str(e)[:300], trace=traceback.format_exc()[-3000:])
    if not c.violations:
      sys.exit(2)
  code = c.finish()
  sys.stdout.flush()
  sys.exit(code)
