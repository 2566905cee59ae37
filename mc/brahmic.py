"""What the Brahmic checks share."""
from mc import tables
from mc.engine import Machine

JOINERS = '\u200b\u200c\u200d'


def scripts():
  from nisaba.scripts.brahmic import util
  return list(util.SCRIPTS)


def load(c, names=None):
  return {s: tables.Brahmic(c.ws, s) for s in (names or scripts())}


def labels(machine):
  return sorted({a[1] for a in machine.export()[2] if a[1]})


def out_labels(machine):
  return sorted({a[2] for a in machine.export()[2] if a[2]})


def words(machine, items):
  """Acceptor of given strings (utf8)."""
  from mc import fsa
  return fsa.make(fsa.strings(items))
