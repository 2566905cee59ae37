"""P20: Deromanization and spelled letters."""
import itertools, multiprocessing, os, string, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check, derom, fsa, traces
from mc.engine import Machine, sigma_star, text

P = 'natural_translit/deromanization/'
KEYS = {'hi_deva': 'DEVA', 'hi_iso': 'ISO', 'ta_taml': 'TAML', 'ta_iso': 'ISO'}
SPACED, ZWNJ = ('ARAB',), ('KNDA', 'MLYM', 'TELU')
BRAHMIC = 'BENG DEVA GUJR GURU KNDA MLYM ORYA SINH TAML TELU'.split()
MODEL = {'hi': derom.HI, 'ta': derom.TA}
MACHINE = {}
# Letters that meet in rules, for longer words.
FEW = {'hi': ['aich', 'amnpt', 'kahs', 'fpha', 'aeoun', 'zhdnm', 'skshx', 'ncha'],
       'ta': ['trah', 'zhal', 'bach', 'aeoi', 'xgka', 'nsha', 'fpuh', 'dtrh']}


def words(job):
  lang, kind, x = job
  if kind == 'short':
    k, first = x
    ws = (first + ''.join(w) for w in itertools.product(derom.ALPHABET, repeat=k - len(first)))
  else:
    ws = (''.join(w) for w in itertools.product(*x))
  n, bad, f, m = 0, [], MACHINE[lang], MODEL[lang]
  for w in ws:
    n += 1
    got, want = {text(o, 0) for o in f.apply(w)}, m(w)
    if got != want:
      bad.append((w, sorted(got), sorted(want)))
      if len(bad) > 10:
        break
  return n, bad


def main(c):
  c.build([P + x + u + '.far' for x in list(KEYS) + ['en_spellout'] for u in ('', '_utf8')] +
          ['brahmic/%s_utf8.far' % x for x in ('iso', 'nfc', 'wellformed')])
  import pynini
  from nisaba.scripts.utils import far
  from pynini.lib import rewrite
  lower = sigma_star([ord(x) for x in string.ascii_lowercase])
  both = sigma_star([ord(x) for x in string.ascii_letters])

  def outs(m):
    return lambda w: {'outputs': [text(o, False) for o in m.apply(w)]}

  def archive(name, key, alphabet):
    m, b = c.machine(P + name + '_utf8.far', key), c.machine(P + name + '.far', key)
    c.accepts(name + '/total', alphabet, m)
    c.decide(name + '/only letters', m.included_in(alphabet), False, outs(m))
    c.function(name + '/one output', m)
    c.same_function(name + '/bytes', m.expand(), b, byte=True)
    program = far.Far(c.far(P + name + '.far')).Fst(key)
    for w in traces.cover(m, 1500 if c.thorough else 300):
      c.traces += 1
      try:
        got = program.ApplyOnText(w)
      except rewrite.Error as e:
        got = repr(e)
      o = m.apply(w)
      if not o or got != text(o[0], False):
        c.violation('%s/program: %s' % (name, ascii(w)), got=got, expected=[text(x, 0) for x in o])
    return m

  ms = {x: archive(x, k, lower) for x, k in KEYS.items()}
  # Native text: well-formed, in NFC, and the same text as the ISO one.
  for x, s, i in (('hi_deva', 'DEVA', 'hi_iso'), ('ta_taml', 'TAML', 'ta_iso')):
    wf = c.machine('brahmic/wellformed_utf8.far', s)
    nfc = c.machine('brahmic/nfc_utf8.far', s)
    c.decide(x + '/well-formed', ms[x].invert().included_in(wf), False,
             lambda w: {'output': text(w, False)})
    c.same_function(x + '/NFC', ms[x], ms[x].compose(nfc))
    frm = c.machine('brahmic/iso_utf8.far', 'FROM_' + s)
    to = c.machine('brahmic/iso_utf8.far', 'TO_' + s)
    c.same_function(x + '/romanized', ms[i], ms[x].compose(frm).reduce())
    c.same_function(x + '/from ISO', ms[x], ms[i].compose(to).reduce())

  # Spelled letters: one after the other, whatever the case.
  keys = sorted(k for k, _ in pynini.Far(c.far(P + 'en_spellout.far')))
  if len(keys) != 13:
    c.violation('en_spellout/keys', keys=keys)
  for key in keys:
    script = key.split('_')[1]
    m, name = archive('en_spellout', key, both), 'en_spellout/' + key
    say = lambda w: text((m.apply(w) or [[]])[0], False)
    gap = ' ' if script in SPACED else ''
    inside = {}
    for x in string.ascii_lowercase:
      alone = say(x)
      pair = say(x + 'a')
      inside[x] = pair[:len(pair) - len(say('a'))]
      allowed = {alone + gap} | ({alone + '\u200c'} if script in ZWNJ else set())
      if not alone or inside[x] not in allowed:
        c.violation('%s/letter %s' % (name, x), alone=alone, in_a_word=inside[x])
    spell = fsa.make(fsa.star(fsa.string_map(
        [(y, inside[x]) for x in inside for y in (x, x.upper())])))
    end = gap or ('\u200c' if script in ZWNJ else '')
    if end:
      sigma = sorted({ord(ch) for v in inside.values() for ch in v})

      def step(held, x):
        return (x == end, (end if held else '') + ('' if x == end else x))
      drop = fsa.machine_of_steps(False, step, lambda held: '', sigma)
      spell = spell.compose(drop)
    c.same_function(name + '/letter by letter', spell, m)
    if script in BRAHMIC:
      wf = c.machine('brahmic/wellformed_utf8.far', script)
      nfc = c.machine('brahmic/nfc_utf8.far', script)
      # A non-joiner before a vowel letter is more than the acceptor knows.
      once = both if script not in ZWNJ else fsa.make(fsa.strings(string.ascii_letters))
      c.decide(name + '/well-formed', once.compose(m).invert().included_in(wf), False,
               lambda w: {'output': text(w, False)})
      c.same_function(name + '/NFC', m, m.compose(nfc))

  # The rules, word by word.
  deep = 5 if c.thorough else 4
  long = 8 if c.thorough else 6
  jobs = []
  for l in MODEL:
    MACHINE[l] = ms[l + '_iso']
    for k in range(deep + 1):
      pre = min(k, 2)
      jobs += [(l, 'short', (k, ''.join(f))) for f in itertools.product(derom.ALPHABET, repeat=pre)]
    jobs += [(l, 'few', [x] + [a] * (n - 1))
             for a in FEW[l] for n in range(deep + 1, long + 1) for x in a]
  jobs.sort(key=lambda j: -26 ** (j[2][0] - 2) if j[1] == 'short' else -len(j[2][1]) ** len(j[2]))
  total = {}
  with multiprocessing.get_context('fork').Pool(c.jobs) as pool:
    for (l, kind, _), (n, bad) in zip(jobs, pool.imap(words, jobs, chunksize=4)):
      total[l, kind] = total.get((l, kind), 0) + n
      for w, got, want in bad:
        c.violation('%s/rules: %s' % (l, w), input=w, outputs=got, expected=want)
      if len(c.violations) > 60:
        pool.terminate()
        break
  for (l, kind), n in sorted(total.items()):
    c.count('%s rules/%s' % (l, kind), states=n, transitions=n)
    c.traces += n


if __name__ == '__main__':
  check.run('P20', main)
