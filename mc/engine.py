"""Python face of the explicit-state engine (engine/fstmc.cc)."""
import ctypes
import hashlib
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXW = 4096


class Result(ctypes.Structure):
  _fields_ = [('verdict', ctypes.c_int32), ('states', ctypes.c_uint64),
              ('transitions', ctypes.c_uint64), ('n1', ctypes.c_int32),
              ('n2', ctypes.c_int32), ('w1', ctypes.c_int32 * MAXW),
              ('w2', ctypes.c_int32 * MAXW), ('kind', ctypes.c_int32),
              ('maxdelay', ctypes.c_uint64)]

  @property
  def ok(self):
    return self.verdict == 0

  def witnesses(self):
    """Candidate inputs (lists of labels) that show the violation."""
    w = [list(self.w1[:self.n1])]
    if self.n2:
      w.append(list(self.w2[:self.n2]))
    return w


def _library():
  src = os.path.join(VERIF, 'engine', 'fstmc.cc')
  with open(src, 'rb') as f:
    h = hashlib.sha256(f.read()).hexdigest()[:16]
  out = os.path.join(VERIF, 'build', 'fstmc-%s.so' % h)
  if not os.path.exists(out):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = '%s.%d' % (out, os.getpid())
    subprocess.run(['/usr/bin/g++', '-std=c++17', '-O2', '-fPIC', '-shared',
                    '-o', tmp, src], check=True)
    os.replace(tmp, out)
  lib = ctypes.CDLL(out)
  c = ctypes
  lib.mc_load.argtypes = [c.c_char_p, c.c_int64, c.c_int]
  lib.mc_make.argtypes = [c.c_int32, c.c_int32, c.c_void_p, c.c_int64, c.c_void_p,
                          c.c_void_p, c.c_void_p, c.c_void_p, c.c_void_p, c.c_int, c.c_int]
  lib.mc_arcs.restype = c.c_int64
  lib.mc_export.argtypes = [c.c_int] + [c.c_void_p] * 6
  lib.mc_agree.argtypes = [c.c_int, c.c_int, c.c_uint64, c.POINTER(Result)]
  lib.mc_incl.argtypes = [c.c_int, c.c_int, c.c_uint64, c.POINTER(Result)]
  lib.mc_best.argtypes = [c.c_int, c.c_int, c.c_int, c.c_uint64, c.c_int, c.POINTER(Result)]
  lib.mc_compose.argtypes = [c.c_int, c.c_int, c.c_uint64]
  lib.mc_determinize.argtypes = [c.c_int, c.c_uint64]
  lib.mc_reduce.argtypes = [c.c_int, c.c_uint64, c.POINTER(c.c_uint64)]
  lib.mc_apply.argtypes = [c.c_int, c.c_void_p, c.c_int, c.c_void_p, c.c_int, c.c_void_p]
  assert lib.mc_result_size() == ctypes.sizeof(Result)
  return lib


_lib = None


def lib():
  global _lib
  if _lib is None:
    _lib = _library()
  return _lib


class CapReached(Exception):
  pass


class Ambiguous(Exception):
  """A function was expected, but some input has two outputs."""


class Machine:
  """A transducer held by the engine."""

  def __init__(self, handle, name=''):
    if handle < 0:
      raise ValueError('engine error %d for %s' % (handle, name))
    self.h = handle
    self.name = name

  def __del__(self):
    if _lib is not None:
      _lib.mc_free(self.h)

  @classmethod
  def load(cls, path, expand=False, name=''):
    return cls(lib().mc_load(path.encode(), 0, int(expand)), name or path)

  @classmethod
  def from_far(cls, path, key, scratch, name=''):
    """Entry `key` of an FST archive."""
    import pynini
    f = pynini.Far(path)[key]
    return cls.from_pynini(f, scratch, name or '%s[%s]' % (os.path.basename(path), key))

  @classmethod
  def from_pynini(cls, f, scratch, name=''):
    tmp = os.path.join(scratch, 'fst.%d.%d' % (os.getpid(), id(f)))
    f.write(tmp)
    try:
      return cls.load(tmp, name=name)
    finally:
      os.remove(tmp)

  @classmethod
  def make(cls, start, finals, arcs, name=''):
    """arcs: (src, in, out, weight, dst); finals: set of states or {state: weight}."""
    import numpy as np
    n = 1 + max([start] + [max(a[0], a[4]) for a in arcs] + list(finals))
    fin = np.full(n, np.inf, dtype=np.float32)
    for s in finals:
      fin[s] = finals[s] if isinstance(finals, dict) else 0.
    cols = list(zip(*arcs)) if arcs else [(), (), (), (), ()]
    a = [np.ascontiguousarray(cols[k], dtype=np.float32 if k == 3 else np.int32)
         for k in range(5)]
    h = lib().mc_make(n, start, fin.ctypes.data, len(arcs), a[0].ctypes.data,
                      a[1].ctypes.data, a[2].ctypes.data, a[3].ctypes.data,
                      a[4].ctypes.data, 1, 0)
    return cls(h, name)

  def states(self):
    return lib().mc_states(self.h)

  def arcs(self):
    return lib().mc_arcs(self.h)

  def export(self):
    """(start, finals{state: w}, [(src, i, o, w, dst)])"""
    import numpy as np
    n, m = self.states(), self.arcs()
    fin = np.zeros(n, dtype=np.float32)
    a = [np.zeros(m, dtype=np.int32) for _ in range(3)]
    w = np.zeros(m, dtype=np.float32)
    dst = np.zeros(m, dtype=np.int32)
    lib().mc_export(self.h, fin.ctypes.data, a[0].ctypes.data, a[1].ctypes.data,
                    a[2].ctypes.data, w.ctypes.data, dst.ctypes.data)
    finals = {s: float(x) for s, x in enumerate(fin) if np.isfinite(x)}
    return (lib().mc_start(self.h), finals,
            list(zip(a[0].tolist(), a[1].tolist(), a[2].tolist(), w.tolist(), dst.tolist())))

  def expand(self):
    """The same relation over UTF-8 bytes."""
    return Machine(lib().mc_expand(self.h), self.name + '/bytes')

  def invert(self):
    return Machine(lib().mc_invert(self.h), self.name + '^-1')

  def compose(self, other, cap=200_000_000):
    h = lib().mc_compose(self.h, other.h, cap)
    if h == -1:
      raise CapReached('compose')
    return Machine(h, '%s o %s' % (self.name, other.name))

  def determinize(self, cap=5_000_000):
    """The function that maps each input to its cheapest output(s)."""
    h = lib().mc_determinize(self.h, cap)
    if h == -1:
      raise CapReached('determinize ' + self.name)
    return Machine(h, self.name)

  def reduce(self, cap=5_000_000):
    """The least sequential machine of that function; .explored: states visited for it.

    Raises Ambiguous if an input has two cheapest outputs.
    """
    n = ctypes.c_uint64()
    h = lib().mc_reduce(self.h, cap, ctypes.byref(n))
    if h == -1:
      raise CapReached('reduce ' + self.name)
    if h == -3:
      raise Ambiguous(self.name)
    m = Machine(h, self.name)
    m.explored = n.value
    return m

  def agree(self, other, cap=400_000_000):
    r = Result()
    lib().mc_agree(self.h, other.h, cap, ctypes.byref(r))
    if r.verdict == 2:
      raise CapReached('agree %s %s' % (self.name, other.name))
    return r

  def functional(self):
    return self.agree(self)

  def included_in(self, other, cap=400_000_000):
    """The domain of self is included in the domain of other."""
    r = Result()
    lib().mc_incl(self.h, other.h, cap, ctypes.byref(r))
    if r.verdict == 2:
      raise CapReached('incl %s %s' % (self.name, other.name))
    return r

  def best(self, other, mode=0, cap=50_000_000, depth=0):
    r = Result()
    lib().mc_best(self.h, other.h, mode, cap, depth, ctypes.byref(r))
    if r.verdict == 2:
      raise CapReached('best %s %s' % (self.name, other.name))
    return r

  def apply(self, labels):
    """All cheapest outputs for a string or a list of labels (as lists of labels)."""
    n = len(labels)
    inp = (ctypes.c_int32 * max(1, n))(*[ord(c) if isinstance(c, str) else c for c in labels])
    cap = 64 * n + 4096
    buf = (ctypes.c_int32 * cap)()
    w = ctypes.c_float()
    k = lib().mc_apply(self.h, inp, n, buf, cap, ctypes.byref(w))
    out, pos = [], 0
    for _ in range(k):
      m = buf[pos]
      out.append(list(buf[pos + 1:pos + 1 + m]))
      pos += 1 + m
    return out


def text(labels, byte):
  if byte:
    return bytes(labels).decode('utf-8', 'backslashreplace')
  return ''.join(map(chr, labels))


def sigma_star(labels, name='sigma*'):
  """Acceptor of all strings over labels."""
  return Machine.make(0, {0}, [(0, l, l, 0., 0) for l in sorted(labels)], name)
