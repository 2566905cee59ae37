"""Rebuilds what a check needs from /repo's working tree, and lays out a tree to run it in.

Reuses the build recipe of this sandbox (/opt/vp/nis/driver.py, an interpreter of
the repository's own BUILD.bazel files) and its content-addressed output cache in
/opt/nisaba-build, restricted to the transitive closure of the outputs asked for.
"""
import atexit
import contextlib
import fcntl
import hashlib
import importlib.util
import io
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DRIVER = '/opt/vp/nis/driver.py'
PY = '/opt/venv/bin/python'

_driver = None
_scratch = None


def scratch():
  """A scratch directory, removed at exit."""
  global _scratch
  if _scratch is None:
    _scratch = tempfile.mkdtemp(prefix='nisaba_mc_')
    pid = os.getpid()

    def clean(path=_scratch):
      if os.getpid() == pid and not os.environ.get('MC_KEEP'):
        shutil.rmtree(path, ignore_errors=True)
    atexit.register(clean)
  return _scratch


def driver():
  global _driver
  if _driver is None:
    spec = importlib.util.spec_from_file_location('nisaba_driver', DRIVER)
    d = importlib.util.module_from_spec(spec)
    sys.dont_write_bytecode = True
    spec.loader.exec_module(d)
    with open(d.HERE + '/farconvert.py', 'rb') as f:
      d.KEY_SALT = hashlib.sha256(f.read()).digest()
    for p in (d.OUT, d.KEYS, d.TREES):
      os.makedirs(p, exist_ok=True)
    d.load_all()
    d.MC_ACTIONS = d.make_actions()
    _driver = d
  return _driver


class BuildError(Exception):
  pass


def far(path):
  """'brahmic/nfc.far' -> label."""
  pkg, name = path.rsplit('/', 1)
  return '//nisaba/scripts/%s:%s' % (pkg, name)


def build(labels):
  """Brings the given output labels up to date; returns their closure (labels)."""
  d = driver()
  producer = {o: a for a in d.MC_ACTIONS for o in a.outs}
  need, todo, outs = {}, list(labels), set()
  while todo:
    o = todo.pop()
    a = producer.get(o)
    if a is None:
      if o in d.OUTPUTS or not os.path.exists(d.real(o)):
        raise BuildError('nothing makes ' + o)
      continue
    outs.update(a.outs)
    if a.id not in need:
      need[a.id] = a
      todo += a.inputs
  actions = [a for a in d.MC_ACTIONS if a.id in need]
  with open(d.BASE + '/lock', 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = io.StringIO()
    with contextlib.redirect_stdout(log):
      failed = d.run_all(actions)
  if failed:
    sys.stdout.write(log.getvalue())
    raise BuildError('cannot build: ' + ' '.join(failed))
  return {o for o in outs if not o.endswith('.farconvert.tmp')}


def proto_labels():
  d = driver()
  return [o for t in d.TARGETS.values() if t['kind'] == 'py_proto_library'
          for o in t['outs']]


def tree(labels=(), name='tree'):
  """Builds labels and lays out a runfiles tree: /repo's sources + built files."""
  d = driver()
  outs = build(list(labels) + proto_labels())
  root = os.path.join(scratch(), name)
  ws = os.path.join(root, d.WS)
  os.makedirs(os.path.join(root, 'tmp'))
  for base, dirs, files in os.walk(os.path.join(REPO, 'nisaba')):
    dirs[:] = sorted(x for x in dirs if x != '__pycache__')
    rel = os.path.relpath(base, REPO)
    os.makedirs(os.path.join(ws, rel), exist_ok=True)
    for f in files:
      os.symlink(os.path.join(base, f), os.path.join(ws, rel, f))
  for o in outs:
    dst = os.path.join(ws, d.logical(o))
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.lexists(dst):
      os.remove(dst)
    if os.path.exists(d.real(o)):
      os.symlink(d.real(o), dst)
  return root


def env(root):
  """The environment to run the repository's Python code in."""
  e = dict(driver().env_for(root))
  for k in ('VERIF_SEED', 'VERIF_TIER', 'MC_KEEP', 'MC_JOBS'):
    if k in os.environ:
      e[k] = os.environ[k]
  e['TMPDIR'] = os.path.join(root, 'tmp')
  e['PYTHONPATH'] = e['PYTHONPATH'] + ':' + VERIF
  e['MC_TREE'] = root
  e['MC_SCRATCH'] = scratch()
  return e


