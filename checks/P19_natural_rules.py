"""P19: Romanization and pronunciation follow the rules of the language, word by word."""
import itertools, multiprocessing, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import check, natural
from mc.engine import text

LANGS = 'bn gu hi kn ml mr pa ta te'.split()
FAR = 'natural_translit/%s/%s_iso_%s_utf8.far'
KEYS = {'IPA': ('g2p', 'ipa'), 'NAT': ('romanization', 'nat'),
        'PSAF': ('romanization', 'psaf'), 'PSAC': ('romanization', 'psac')}
# Letters that meet in rules: every word of them is tried.
FEW = ['akm\u0325r\u0101', 'ia\u1e41gny', '\u02b0j\u00f1ca\u0101', 'o\u014dma\u1e41\u0310',
       'n\u1e49\u1e5fra\u0101', 'aspkr', 'atdsy', 'ai\u1e8f\u014d|', '\u02d6apc\u02b0', 'av\u0304a\u1e41g',
       'aslw\u1e6d'.replace('w', 'v'), 'azhnm', 'ae\u1e3bv', '\u1e5b\u02b0al', 'a\u0304lr\u0325', 'auio\u02d1']
# A pair of letters anywhere in these.
FRAMES = ['%s', 'a%saka', 'aka%sa', 'ka%sa', 'k%saka', 'akta%s', '%sakama', 'amak%s', 'r\u0325%s',
          'a%sasra', '%sa\u1e41', 'n\u02b0%sa', '%sa', 'k%s', '\u1e6d%s\u0101']

LANG, MACHINE = {}, {}


def judge(job):
  """Words of one job in one language: (words, differences)."""
  lang, words = job
  model, bad, n = LANG[lang], [], 0
  for w in words:
    n += 1
    want = model(w)
    for k in KEYS:
      got = {text(x, False) for x in MACHINE[lang, k].apply(w)}
      if got != want[k]:
        bad.append((k, w, sorted(got), sorted(want[k])))
        if len(bad) > 20:
          return n, bad
  return n, bad


def expand(job):
  lang, kind, x = job
  g = ''.join(natural.GLYPHS)
  if kind == 'short':
    k, first = x
    words = (first + ''.join(w) for w in itertools.product(g, repeat=k - len(first)))
  elif kind == 'pairs':
    frame, first = x
    words = (frame % (first + y) for y in g)
  elif kind == 'few':
    alpha, n = x
    words = (''.join(w) for w in itertools.product(alpha, repeat=n))
  else:
    words = (''.join(w) for w in itertools.product(*x))
  n, bad = judge((lang, words))
  return kind, n, bad


def main(c):
  c.direct = True
  c.build([FAR % (d, l, k) for l in LANGS for d, k in KEYS.values()])
  for l in LANGS:
    LANG[l] = natural.Language(l)
    for key, (d, k) in KEYS.items():
      MACHINE[l, key] = c.machine(FAR % (d, l, k), 'ISO_TO_' + key)
  g = ''.join(natural.GLYPHS)
  most, deep = (3, 6) if c.thorough else (2, 5)
  jobs = []
  for l in LANGS:
    for k in range(most + 1):
      jobs += [(l, 'short', (k, f)) for f in (g if k > 1 else [''])]
    jobs += [(l, 'pairs', (f, x)) for f in FRAMES for x in g]
    jobs += [(l, 'few', (''.join(dict.fromkeys(a)), n)) for a in FEW for n in range(4, deep + 1)]
  names = natural.letter_names()
  later = [('.' if x[0] in 'aeio\u0101\u0113\u012b\u014d' else '') + x for x in names]
  jobs += [('hi', 'names', [[x], later] + ([later] if c.thorough else [])) for x in names]
  jobs += [('hi', 'names', [names, ['a', 'k', '\u0101', '.i', 'ka', 'li']])]
  # Big jobs first.
  jobs.sort(key=lambda j: -(len(j[2][0]) ** j[2][1] if j[1] == 'few' else 4761))
  total, seen = {}, 0
  with multiprocessing.get_context('fork').Pool(c.jobs) as pool:
    results = pool.imap(expand, jobs, chunksize=1)
    for (lang, _, _), (kind, n, bad) in zip(jobs, results):
      total[lang, kind] = total.get((lang, kind), 0) + n
      for k, w, got, want in bad:
        seen += 1
        c.violation('%s %s: %s' % (lang, k, ascii(w)), input=w, outputs=got, expected=want)
      if seen > 60:
        pool.terminate()
        break
  for (lang, kind), n in sorted(total.items()):
    c.count('%s/%s' % (lang, kind), states=n, transitions=4 * n)
  for w in ('kamala', 'am\u0323ga', 'r\u0325k\u1e63a'):
    c.sample({'input': w, 'outputs': {k: sorted(v) for k, v in LANG['hi'](w).items()}})


if __name__ == '__main__':
  check.run('P19', main)
