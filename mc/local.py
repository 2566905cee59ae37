"""Languages of strings with or without given substrings."""
from mc import fsa


def _scan(bad):
  pre = {b[:k] for b in bad for k in range(len(b))} | {''}

  def step(s, c):
    """(state, whether a bad substring ends here)."""
    t = s + c
    if any(t.endswith(b) for b in bad):
      return '', True
    while t not in pre:
      t = t[1:]
    return t, False
  return step


def avoiding(bad, labels, name='avoiding'):
  """Acceptor of the strings over labels that contain none of the given strings."""
  scan = _scan(bad)

  def step(s, c):
    t, hit = scan(s, c)
    return None if hit else (t, c)
  return fsa.machine_of_steps('', step, lambda s: '', labels, name)


def containing(bad, labels, name='containing'):
  """Acceptor of the strings over labels that contain one of the given strings."""
  scan = _scan(bad)

  def step(s, c):
    if s is True:
      return True, c
    t, hit = scan(s, c)
    return (True, c) if hit else (t, c)
  return fsa.machine_of_steps('', step, lambda s: '' if s is True else None, labels, name)


def minimal(s, fails):
  """A shortest part of s for which fails() holds (s itself holds)."""
  for n in range(1, len(s) + 1):
    for i in range(len(s) - n + 1):
      if fails(s[i:i + n]):
        return s[i:i + n]
  return s
