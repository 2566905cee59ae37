"""Reference model of natural transliteration: ISO text -> pronunciation -> IPA or Latin.

A word is a row of alignments `<grapheme>={phonemes}`; a language is a list of
rules on such rows, each applied from left to right at every place it can be,
left context tested on the text already written, right context on the text
still to come.  Each token (`<aa>`, `{a}`, `` `a` ``, `=`) is one character
here, so the rules are plain regular expressions.
"""
import re

# typ, ISO glyph, phonemes: what one ISO character is and how it sounds by default.
SINGLE = """
a a _
aa ā a :h | ac æ ae | an ạ a | e e e | ee ē e :h | ec ê ae | i i i | ii ī i :h
o o o | oo ō o :h | oc ô oh | u u u | uu ū u :h
b b b | c c t + sh | d d di | dd ḍ dd | f f f | g g g | gg ġ gh | h h h | j j d + zh
k k k | l l l | ll ḷ ll | lr ḻ rru | m m m | n n ni | ny ñ ny | ng ṅ ng | nn ṇ nn
na ṉ n | p p p | q q q | r r rt | rd ṛ rd | rr ṟ r | s s s | sh ś sh | ss ṣ ss | t t ti
tt ṭ tt | ta ṯ t | v v vu | x x kh | y y y | yy ẏ y H | z z z
avg ’ sil | nkt ˑ sil | vis ḥ h | vis_ta ḵ g | ans ṁ N | cnd_dia ̐ sil | upadh ḫ h
jihva ẖ h | add ˖ sil | tip ṃ N
asp ʰ H | vcl ̥ S | long ̄ sil | chl ⸯ sil | eye ̆ sil
ind . sil | sgn - sil | zwj + sil | zwn ZWN sil | ot õ o :h
"""
LONG_VOCALIC = {'llv': ('l vcl long', 'l S :h'), 'rrv': ('r vcl long', 'r S :h')}
TWO_SIGNS = {'lv': ('l vcl', 'l S'), 'rv': ('r vcl', 'r S'),
             'ai': ('a i', 'a + i'), 'au': ('a u', 'a + u')}
ASPIRATED = 'b c d dd g j k p rd t tt'.split()
DEAD = {'k_chl': ('k chl', 'k'), 'l_chl': ('l chl', 'l'), 'll_chl': ('ll chl', 'll'),
        'n_chl': ('n chl', 'n'), 'nn_chl': ('nn chl', 'nn'), 'rr_chl': ('rr chl', 'r'),
        'reph': ('r chl', 'rt'), 'r_eye': ('r eye', 'rt')}

# phoneme: IPA, Latin
PHONEMES = """
sil - DEL | Z ̯ DEL | N ~ n | :h ː DEL | H ʰ h | _ - DEL | V - DEL | S ̍ i
a a a | ae æ s_ae | e e e | ec ə a | eh ɛ e | i i i | o o o | oh ɔ o | u u u
a+i a͡i s_ai | a+u a͡u s_au
m m m | ni n̪ n | n n n | nn ɳ n | ny ɲ s_ny | ng ŋ s_ng
p p p | ti t̪ t | t t t | tt ʈ t | k k k | q q k | b b b | di d̪ d | d d d | dd ɖ d | g ɡ g
f f f | s s s | sh ʃ s_sh | ss ʂ s_sh | kh x s_kh | h h h | z z z | zh ʒ s_zh | gh ɣ g
t+sh t͡ʃ s_ch | d+zh d͡ʒ j | vu ʋ v | rru ɻ s_zh | y j y | l l l | ll ɭ l
r r r | rt ɾ r | rd ɽ s_rd
"""

_ids = {}


def tok(name):
  """One character for a token; '=' stays."""
  if name == '=':
    return '='
  c = _ids.get(name)
  if c is None:
    base = {'<': 0xE000, '{': 0xE800, '`': 0xF000}[name[0]]
    n = sum(1 for k in _ids if k[0] == name[0])
    c = _ids[name] = chr(base + n)
  return c


def show(s):
  names = {v: k for k, v in _ids.items()}
  return ''.join(names.get(c, c) for c in s)


def enc(text):
  """'<a>={a}{:h}' -> token characters."""
  return ''.join(tok(t) for t in re.findall(r'<[^>]*>|\{[^}]*\}|`[^`]*`|=', text))


def G(*names):
  return ''.join(tok('<%s>' % n) for n in names)


def P(text):
  return ''.join(tok('{%s}' % n) for n in text.replace('+', ' + ').split())


def T(*names):
  return ''.join(tok('`%s`' % n) for n in names)


def one(items):
  """Regular expression: one of the literal strings."""
  return '(?:%s)' % '|'.join(re.escape(x) for x in sorted(set(items), key=lambda v: (-len(v), v)))


def _rows(text):
  for row in re.split(r'[|\n]', text):
    f = row.split()
    if f:
      yield f

ISO = {}   # typ -> (glyph, phonemes)
for _f in _rows(SINGLE):
  ISO[_f[0]] = ('|' if _f[1] == 'ZWN' else _f[1], P(' '.join(_f[2:])))
SINGLE_TYPS = list(ISO)
GLYPHS = {g: t for t, (g, _) in ISO.items()}
SOUND = {t: p for t, (_, p) in ISO.items()}
SIGN = 'a aa ac an e ee ec i ii o oo oc u uu'.split()
CONS = SINGLE_TYPS[SINGLE_TYPS.index('b'):SINGLE_TYPS.index('z') + 1]
CODA = SINGLE_TYPS[SINGLE_TYPS.index('avg'):SINGLE_TYPS.index('tip') + 1] + ['cnd']
COMPOSE = []  # Tables of pairs, in order.
_long = {t: c.split() for t, (c, _) in LONG_VOCALIC.items()}
_two = {t: c.split() for t, (c, _) in TWO_SIGNS.items()}
_two['aan'] = ['an', 'long']
for _t, (_c, _p) in list(LONG_VOCALIC.items()) + list(TWO_SIGNS.items()):
  SOUND[_t] = P(_p)
SOUND['aan'] = P('a :h')
INDEP = {}
for _t in SIGN[1:] + ['ai', 'au', 'lv', 'rv', 'llv', 'rrv', 'a']:
  INDEP[_t + '_i'] = ['ind', _t]
  SOUND[_t + '_i'] = P('a') if _t == 'a' else SOUND[_t]
_cons = {}
for _t in ASPIRATED:
  _cons[_t + 'h'] = [_t, 'asp']
  SOUND[_t + 'h'] = SOUND[_t] + P('H')
for _t, (_c, _p) in DEAD.items():
  _cons[_t] = _c.split()
  SOUND[_t] = P(_p)
SOUND['cnd'] = P('N')
SOUND['om'] = P('o :h m')
ONSET_CONS = CONS + list(_cons)
SCH_CONS = CONS + [t + 'h' for t in ASPIRATED]
VOWEL_S = SIGN + ['lv', 'rv', 'ai', 'au', 'aan', 'llv', 'rrv']
VOCALIC = ['lv', 'rv', 'llv', 'rrv', 'lv_i', 'rv_i', 'llv_i', 'rrv_i']
tok('{+}')
for _t in list(SOUND) + ['cnd']:
  tok('<%s>' % _t)
IPA, LATIN = {}, {}
for _f in _rows(PHONEMES):
  IPA[P(_f[0])] = '' if _f[1] == '-' else _f[1]
  LATIN[P(_f[0])] = T(_f[2])

# Latin tokens and what they print.
LETTERS = 'aeioubcdfghjklmnpqrstvwxyz'
SUBS = 'ae ai au ch dh kh ng ny rd sh th zh'.split()
PRINT = {T('DEL'): ''}
for _c in LETTERS:
  PRINT[T(_c)] = _c
  PRINT[T('s_' + _c + _c)] = _c + _c
  PRINT[T(_c.upper() + '_uc')] = _c.upper()
for _s in SUBS:
  PRINT[T('s_' + _s)] = _s

GX = '[\ue000-\ue7ff]'
RX = '[\ue800-\uf7ff]'
LSKIP = '(?:%s*=)?' % GX
RSKIP = '(?:=%s*)?' % RX
SKIP = '(?:%s|%s)' % (LSKIP, RSKIP)
BOW = r'\A' + LSKIP
EOW = RSKIP + r'\Z'


# Classes of phonemes.
def ph(text):
  return [P(x) for x in text.split()]


_v = one(ph('_ V S a ae e ec eh i o oh u a+i a+u'))
VOWEL = '(?:%s%s*)' % (_v, one(ph('Z N :h')))
NASAL = ph('m ni n nn ny ng')
STOPS = ph('p ti t tt k q b di d dd g')
FRIC = ph('f s sh ss kh h z zh gh')
AFFR = ph('t+sh d+zh')
APPR = ph('vu rru y l ll')
TAPS = ph('r rt rd')
_h = '%s*' % P('H')
STOP = '(?:%s%s)' % (one(STOPS), _h)
AFFRICATE = '(?:%s%s)' % (one(AFFR), _h)
CONSONANT = '(?:%s%s)' % (one(NASAL + STOPS + FRIC + AFFR + APPR + TAPS), _h)
VOICED = one(ph('b di d dd g z zh gh d+zh'))
RHOTIC = one(TAPS + ph('rru'))
LIQUID = one(TAPS + ph('rru l ll'))
SIBILANT = one(ph('s z sh zh ss'))
ANY_PH = one(IPA)
PLACES = [('m', 'm b p'), ('ni', 'ni di ti'), ('ny', 'n d t'), ('ny', 'ny y'),
          ('nn', 'nn dd tt'), ('ng', 'ng g k')]


def after(a, b):
  """Sounds a then b, in one alignment or in adjacent ones."""
  return '(?:%s%s%s)' % (a, LSKIP, b)


class Rule:
  """Replacement of a text between contexts, wherever it can be, left to right."""

  def __init__(self, pairs, left=None, right=None, phi=None, skip=True):
    """pairs: literal -> replacement; phi: (regular expression, replacement)."""
    self.pairs = list(pairs)
    self.phi = re.compile(phi[0]) if phi else None
    self.phirep = phi[1] if phi else None
    sk = SKIP if skip else ''
    self.left = None if left is None else re.compile('(?:%s)%s\\Z' % (left, sk))
    self.right = None if right is None else re.compile('%s(?:%s)' % (sk, right))
    by = {}
    for a, b in self.pairs:
      by.setdefault(a[:1], []).append((a, b))
    self.insert = by.pop('', [])
    self.by = by
    self.first = re.compile('[%s]' % ''.join(map(re.escape, by))) if by else None
    self.memo = {}

  def _cands(self, s, i, out):
    found = []
    for a, b in self.by.get(s[i:i + 1], ()) if i < len(s) else ():
      if s.startswith(a, i):
        found.append((i + len(a), b))
    if self.phi:
      for j in range(i, len(s) + 1):
        if self.phi.fullmatch(s, i, j):
          found.append((j, self.phirep))
    for _, b in self.insert:
      found.append((i, b))
    if not found or (self.left and not self.left.search(out)):
      return []
    if self.right:
      found = [(j, b) for j, b in found if self.right.match(s, j)]
    return found

  def __call__(self, s):
    if self.first and not self.insert and not self.phi and not self.first.search(s):
      return (s,)
    r = self.memo.get(s)
    if r is None:
      if len(self.memo) > 200000:
        self.memo.clear()
      r = self.memo[s] = self._run(s)
    return r

  def _run(self, s):
    n = len(s)
    done, todo = set(), {(0, '', False)}
    while todo:
      i, out, ins = todo.pop()
      cands = self._cands(s, i, out)
      if ins:
        cands = [(j, b) for j, b in cands if j > i]
      if cands:
        for j, b in cands:
          todo.add((j, out + b, j == i))
      elif i == n:
        done.add(out)
      else:
        todo.add((i + 1, out + s[i], False))
    return tuple(sorted(done))


def rewrite(a, b, left=None, right=None):
  return Rule([(enc(a), enc(b))], left, right)


def sounds(pairs, left=None, right=None):
  return Rule([(P(a), P(b)) for a, b in pairs], left, right)


def assign(typ, old, new, left=None, right=None):
  """The grapheme's sound becomes another (phonemes) or Latin letters (`x`)."""
  g = G(*typ.split())
  b = enc(new) if '`' in new else P(new)
  return Rule([(g + '=' + P(old), g + '=' + b)], left, right)


def merge(t1, o1, t2, o2, new, left=None, right=None):
  b = enc(new) if '`' in new or '{' in new else P(new)
  r1 = enc(o1) if '`' in o1 else P(o1)
  r2 = enc(o2) if '`' in o2 else P(o2)
  return Rule([(G(t1) + '=' + r1 + G(t2) + '=' + r2, G(t1, t2) + '=' + b)], left, right)


def read(text):
  """Graphemes of an ISO text, or None."""
  out = []
  for c in text:
    t = GLYPHS.get(c)
    if t is None:
      return None
    out.append(G(t))
  return ''.join(out)


def _compose(table):
  return Rule([(G(*c), G(t)) for t, c in table.items()])


TYP = [
    _compose(_long), _compose(_two),
    # A vowel at the start of a word stands on its own.
    Rule([('', G('ind'))], BOW, one(G(t) for t in VOWEL_S if t != 'aan')),
    _compose(INDEP), _compose(_cons), _compose({'om': ['ot', 'm'], 'cnd': ['m', 'cnd_dia']}),
]


def align(s):
  names = {v: k[1:-1] for k, v in _ids.items() if k[0] == '<'}
  return ''.join(c + '=' + SOUND[names[c]] for c in s)


# --- pronunciation rules ----------------------------------------------------
def vocalic(v):
  return [sounds([('S', v)]), sounds([('S :h', v + ' :h')])]


def vocalic_rules(v):
  # Short first: what is left of a long one is the vowel and its length.
  return vocalic(v)


A_TO_EC = [sounds([('a', 'ec')]), sounds([('ec :h', 'a :h')]), sounds([('ec +', 'a +')])]
A_AE = [assign('a_i', 'a', 'ae')]
AI_EH = [sounds([('a+i', 'eh :h')])]
AU_OH = [sounds([('a+u', 'oh :h')])]


def nasal(typ):
  return [assign(typ, 'N', n, right=one(ph(c))) for n, c in PLACES]


ANS = nasal('ans')
TIP = nasal('tip')


def ans_default(n):
  return [assign('ans', 'N', n)]


ANS_FINAL = [Rule([(G('ans') + '=' + x, G('ans') + '=' + P('N')) for x in NASAL], right=EOW)]


def schwa(v):
  return [Rule([(P('_'), P(v)), (P('V'), P(v))])]


def deletion(onset, coda):
  coda_ = after(VOWEL, '(?:%s|%s)?' % (CONSONANT, coda))
  onset_ = after('(?:%s|%s)' % (CONSONANT, onset), VOWEL)

  def voc(left=None, right=None):
    return sounds([('_', 'V')], left, right)

  def silent(left, right):
    return sounds([('_', 'sil')], left, right)
  return [voc(right=one(G(t) for t in CODA)),
          voc(right=one(G(t) for t in INDEP)),
          voc(left=after('(?:%s%s?)' % (P('i'), P(':h')), P('y'))),
          silent(coda_, r'\Z'), silent(coda_, onset_)]


ONSET = '|'.join([
    after(P('k'), P('sh')), after(P('s'), one(ph('t rt ni y vu'))),
    after(one(ph('vu ni')), P('y')), after(one(ph('k p g di sh')), P('rt'))])


def coda(second):
  return '|'.join([
      after(CONSONANT, second), after(VOICED, one(NASAL)),
      after(one(x for x in FRIC if x != P('h')), one(x for x in NASAL if x != P('m'))),
      after(SIBILANT, P('m')), after('(?:%s|%s)' % (LIQUID, one(NASAL)), one(NASAL)),
      after(RHOTIC, RHOTIC)])


SCHWA = deletion(ONSET, coda(STOP))
SCHWA_BN = deletion(ONSET, coda('(?:%s|%s)' % (STOP, AFFRICATE)))


def jny(j, ny):
  return [Rule([(G('j') + '=' + P('d+zh') + G('ny') + '=' + P('ny'),
                 G('j') + '=' + P(j) + G('ny') + '=' + P(ny))])]


PHPH_FF = [Rule([((G('ph') + '=' + P('p H')) * 2, (G('ph') + '=' + P('f')) * 2)])]
PH_F = [assign('ph', 'p H', 'f')]
BH_V = [assign('bh', 'b H', 'vu', left=ANY_PH)]
B_V = [assign('b', 'b', 'vu', left=CONSONANT)]
YY_Y = [Rule([(P('H'), '')], left=G('yy'))]
OOYY_V = [merge('oo_i', 'o :h', 'yy', 'y', 'vu'),
          assign('a', 'oh', 'sil', right=G('oo_i', 'yy'))]
# The first of the two rewrites is the outer one: merge, then the inherent vowel.
GEMINATE_ASP = [Rule([(P('H'), '')], right='%s%s' % (ANY_PH, P('H')))]
RT_R = [sounds([('rt', 'r')])]
RR_TT = [merge('rr', 'r', 'rr', 'r', 't t')]
NR_NDR = [merge('na', 'n', 'rr', 'r', 'n d r')]
VIRAMA_U = [Rule([('', G('u') + '=' + P('u'))],
                 left='%s=%s*' % (one(G(t) for t in SCH_CONS), ANY_PH), right=EOW)]
H_ASP = [assign('h', 'h', 'H', left=one(ph('m ni vu l r')))]
ADDAK = [Rule(list({(SOUND[t], SOUND[t] * 2): 0 for t in ONSET_CONS}), left=P('sil'))]
_last = lambda g: '%s%s%s' % (g, SKIP, EOW)
AUM_AON = [assign('u_i', 'u', 'o', right=_last(G('ans')))]
OAM_AON = [merge('oo', 'o :h', 'aa_i', 'a :h', 'ec o', right=_last(G('ans')))]
ANSVA_AON = [merge('ans', 'N', 'v', 'vu', 'o N', right=_last(G('a')))]


def voicing(pairs, left, right=None):
  return [sounds(pairs, left, right)]


V5 = [('k', 'g'), ('p', 'b'), ('t', 'd'), ('ti', 'di'), ('tt', 'dd')]
_ml = '(?:%s|%s)' % (VOWEL, one(APPR + NASAL))
ML_VOICING = voicing(V5 + [('t+sh', 'd+zh')], _ml, after('%s?' % P('H'), _ml))
ML_POSTNASAL = voicing([('tt', 'dd')], one(NASAL))
_ta = '(?:%s|%s)' % (VOWEL, one(APPR + NASAL + TAPS))
TA_VOICING = voicing(V5 + [('t+sh', 's')], _ta, _ta)
TA_C_INITIAL = voicing([('t+sh', 's')], r'\A', _ta)
TA_NY_C = voicing([('t+sh', 'd+zh')], P('ny'), _ta)

TXN = {
    'hi': [AI_EH, AU_OH, A_TO_EC, vocalic_rules('i'), ANS, SCHWA, schwa('ec'),
           ans_default('ni'), ANS_FINAL, jny('g', 'y'), PHPH_FF],
    'bn': [A_AE, vocalic_rules('i'), SCHWA_BN, schwa('oh'), ans_default('ng'),
           jny('g', 'g'), YY_Y, OOYY_V, BH_V, B_V, PH_F],
    'gu': [A_TO_EC, vocalic_rules('u'), ANS, SCHWA, schwa('ec'), ans_default('ni'),
           jny('di', 'ny'), PH_F],
    'kn': [RT_R, vocalic_rules('u'), schwa('a'), ANS, ans_default('m'), jny('g', 'ny')],
    'ml': [VIRAMA_U, vocalic_rules('ec'), schwa('a'), ANS, ans_default('m'), RR_TT,
           ML_VOICING, ML_POSTNASAL, jny('sil', 'ny')],
    'mr': [AI_EH, AU_OH, A_TO_EC, vocalic_rules('u'), H_ASP, ANS, SCHWA, schwa('ec'),
           ans_default('ni'), jny('di', 'ny'), PH_F],
    'pa': [ADDAK, AI_EH, AU_OH, A_TO_EC, vocalic_rules('i'), ANS, TIP, AUM_AON, OAM_AON,
           ANSVA_AON, SCHWA, schwa('ec'), PH_F, GEMINATE_ASP],
    'ta': [vocalic_rules('ec'), schwa('a'), ANS, ans_default('m'), RR_TT, NR_NDR, TA_NY_C,
           TA_VOICING, TA_C_INITIAL, jny('sil', 'ny')],
    'te': [vocalic_rules('u'), schwa('a'), ANS, ans_default('m'), jny('g', 'ny')],
}

# --- Latin ------------------------------------------------------------------
SIBV_W = [Rule([(P('vu'), T('w'))], left=SIBILANT)]
NON_LABIAL = [Rule([(G('ans') + '=' + x, G('ans') + '=' + T('n')) for x in ph('ng ny')])]
NYJ_NJ = [Rule([(P('ny'), T('n'))], right=P('d+zh'))]
GAAV_GAON = [merge('aa', 'a :h', 'v', 'vu', '`a``o``n`', left=G('g'))]
OO_AO_ANS = [assign('oo', 'o :h', '`a``o`', right=G('ans'))]
AE_A = [Rule([(P('ae'), T('a'))])]
OH_A = [assign('a', 'oh', '`a`')]
AA_AO_CND = [assign('aa', 'a :h', '`a``o`',
                    right='%s(?:%s%s)?%s%s' % (G('cnd'), SKIP, G('oo'), SKIP, EOW))]
WF_CND_OO = [assign('oo', 'o :h', '`DEL`', left=G('cnd'), right=EOW)]
OOYY_W = [assign('oo_i yy', 'vu', '`w`')]
IYY_I = [assign('yy', 'y', '`DEL`', left='%s%s?' % (one(ph('i u')), P(':h')))]
_voc = one(G(t) for t in VOCALIC)
VOCALIC_TR_I = [Rule([(P('S :h'), T('s_ii'))], left=_voc),
                Rule([], left=_voc, phi=(VOWEL, T('i')))]
AA_WI = [assign('aa_i', 'a :h', '`s_aa`', left=BOW)]
EN_LONG = [Rule([(P('i :h'), T('e', 'e'))]), Rule([(P('u :h'), T('o', 'o'))])]
EE_AE = [assign('ee', 'e :h', '`a``e`')]
OO_OA = [assign('oo', 'o :h', '`o``a`', left=one(APPR)),
         assign('oo', 'o :h', '`o``a`', right=one(APPR))]
TI_TH = [merge('t', 'ti', 't', 'ti', '`t``h`'), assign('t', 'ti', '`t``h`'),
         assign('t', 'di', '`t``h`')]
TT_TR = [assign('rr rr', 't t', '`t``t``r`')]
RD_R = [assign('rd', 'rd', '`r`')]
RDH_DH = [assign('rdh', 'rd H', '`d``h`')]
RDH_RH = [assign('rdh', 'rd H', '`r``h`')]
NY_N = [Rule([(P('ny'), T('n'))], right=CONSONANT)]
NY_GN = [assign('ny', 'ny', '`g``n`', left=VOWEL, right=VOWEL)]
DIPHTHONG = [assign('ai', 'eh :h', '`s_ai`'), assign('au', 'oh :h', '`s_au`'),
             assign('ai_i', 'eh :h', '`s_ai`'), assign('au_i', 'oh :h', '`s_au`')]
LONG = []
for _p, _t in LATIN.items():
  _n = [k for k, v in _ids.items() if v == _t][0].strip('`')
  LONG.append(Rule([(_p + P(':h'), T('s_' + _n * 2) if _n in LETTERS else _t)]))
NO_LONG = [Rule([(P(':h'), '')])]
BY_PSA = [Rule(list(LATIN.items()))]
CC_CCH = [merge('c', '`s_ch`', 'c', '`s_ch`', '`c``s_ch`')]
CCH_CHH = [merge('c', '`s_ch`', 'ch', '`s_ch``h`', '`s_ch``h`')]
SHSH_SSH = [merge('ss', '`s_sh`', 'ss', '`s_sh`', '`s``s_sh`'),
            merge('sh', '`s_sh`', 'sh', '`s_sh`', '`s``s_sh`')]
COMMON = [DIPHTHONG, NON_LABIAL, RDH_DH]
_CH = [CC_CCH, CCH_CHH, SHSH_SSH]

# Hindi English-letter acronyms: how a letter's name is spelled.

ACRONYM = {
    'A': ['E'], 'B': ['b I'], 'C': ['s I'], 'D': ['dd I'], 'E': ['II'], 'F': ['E FPH a'],
    'G': ['j I'], 'H': ['E c a'], 'I': ['AA II'], 'J': ['j EE'], 'K': ['k EE'],
    'L': ['E l a'], 'M': ['E m a'], 'N': ['E n a'], 'O': ['O'], 'P': ['p I'],
    'Q': ['k y U'], 'R': ['AA r a'], 'S': ['E s a'], 'T': ['tt I'], 'U': ['y U'],
    'V': ['v I'],
    'W': ['dd a b l U', 'dd a b l y U', 'dd a b a l y U', 'dd a b l a y U'],
    'X': ['E k s a'], 'Y': ['v A II'], 'Z': ['JZ EE dd a']}
_spell = {'E': 'e_i ee_i', 'EE': 'e ee', 'I': 'i ii', 'II': 'i_i ii_i', 'O': 'o_i oo_i',
          'U': 'u uu', 'A': 'a aa', 'AA': 'a_i aa_i', 'FPH': 'f ph', 'JZ': 'j z'}


def _letter(spelling):
  return ''.join('(?:%s=%s*)' % (one(G(t) for t in _spell.get(x, x).split()), RX)
                 for x in spelling.split())


def flat(rules):
  for r in rules:
    if isinstance(r, list):
      yield from flat(r)
    else:
      yield r


_PSAF = [COMMON, LONG, BY_PSA]
_PSAC = [COMMON, NO_LONG, BY_PSA]
_BN = [AE_A, OH_A, RD_R]
_EN = [EN_LONG]
PSAF = {l: _PSAF for l in TXN}
PSAC = {l: _PSAC for l in TXN}
PSAF['bn'] = [_BN, LONG, BY_PSA]
PSAC['bn'] = [_BN, NO_LONG, BY_PSA]
for _l in ('ml', 'ta'):
  PSAF[_l] = [VOCALIC_TR_I, _PSAF]
NAT = {
    'hi': [SIBV_W, AA_WI, RDH_RH, COMMON, NO_LONG, BY_PSA, _CH],
    'bn': [_BN, SIBV_W, NYJ_NJ, AA_AO_CND, WF_CND_OO, OOYY_W, IYY_I, NO_LONG, BY_PSA, _CH],
    'gu': [SIBV_W, OO_AO_ANS, GAAV_GAON, COMMON, NO_LONG, BY_PSA, _CH],
    'kn': [COMMON, BY_PSA],
    'ml': [EN_LONG, TI_TH, _CH, SIBV_W, NY_N, NY_GN, COMMON, BY_PSA],
    'pa': [RD_R, SIBV_W, COMMON, NO_LONG, BY_PSA, _CH],
    'ta': [EN_LONG, EE_AE, OO_OA, TI_TH, TT_TR, _CH, SIBV_W, NY_N, NY_GN, COMMON, BY_PSA],
    'te': [COMMON, BY_PSA],
}
NAT['mr'] = NAT['gu']


def run(rules, rows):
  for r in rules:
    new = set()
    for s in rows:
      new.update(r(s))
    rows = new
  return rows


class Letters:
  """Repeated letters and letter pairs become one."""

  def __init__(self):
    self.pairs = Rule([(x * 2, x) for x in SUBS])
    self.single = Rule([(x * 2, x) for x in LETTERS])

  def __call__(self, s):
    return {u for t in self.pairs(s) for u in self.single(t)}


def latin(s):
  """Prints the right sides, if they are nothing but Latin tokens."""
  out = []
  for c in s:
    if '\ue000' <= c <= '\ue7ff' or c == '=':
      continue
    if c not in PRINT:
      return None
    out.append(PRINT[c])
  return ''.join(out)


_ipa_unit = None


def ipa(s):
  """Prints the right sides, if they are nothing but phonemes."""
  global _ipa_unit
  if _ipa_unit is None:
    _ipa_unit = re.compile(one(IPA))
  s = ''.join(c for c in s if not ('\ue000' <= c <= '\ue7ff' or c == '='))
  out, i = [], 0
  while i < len(s):
    m = _ipa_unit.match(s, i)
    if not m:
      return None
    out.append(IPA[m.group()])
    i = m.end()
  return ''.join(out)


class Language:
  """The four grammars of a language on ISO text: sets of outputs."""

  def __init__(self, lang):
    self.lang = lang
    self.typ = TYP
    self.txn = list(flat(TXN[lang]))
    self.psaf = list(flat(PSAF[lang]))
    self.psac = list(flat(PSAC[lang]))
    self.nat = list(flat(NAT[lang]))
    self.letters = Letters()

  def __call__(self, text):
    """{'IPA': set, 'PSAF': set, 'PSAC': set, 'NAT': set}"""
    s = read(text)
    if s is None:
      return {k: set() for k in ('IPA', 'PSAF', 'PSAC', 'NAT')}
    rows = {align(x) for x in run(self.typ, {s})}
    txn = run(self.txn, rows)
    psac = self._print(run(self.psac, txn))
    nat = txn
    if self.lang == 'hi':
      nat = run(self.txn, {y for x in rows for y in capitals(x)})
    return {
        'IPA': {x for x in map(ipa, txn) if x is not None},
        'PSAF': self._print(run(self.psaf, txn)),
        'PSAC': {y for x in psac for y in self.letters(x)},
        'NAT': self._print(run(self.nat, nat)),
    }

  def _print(self, rows):
    return {x for x in map(latin, rows) if x is not None}


_NAMES = [(re.compile(_letter(s)), T(l + '_uc')) for l, ss in ACRONYM.items() for s in ss]
_WORD = re.compile('(?:%s)*%s' % ('|'.join(_letter(s) for ss in ACRONYM.values() for s in ss),
                                  EOW))


def capitals(s):
  """Letter names that start a word of letter names become capitals."""
  done, todo = set(), [(0, '', True)]
  while todo:
    i, out, start = todo.pop()
    found = []
    if start:
      for r, cap in _NAMES:
        m = r.match(s, i)
        if m and _WORD.match(s, m.end()):
          found.append((m.end(), cap))
    if found:
      for j, cap in found:
        todo.append((j, out + cap, True))
    else:
      done.add(out + s[i:])
  return done


def letter_names():
  """Words for the names of the letters, in ISO."""
  out = set()
  glyph = {t: g for g, t in GLYPHS.items()}
  plain = {t: v for v in (_long, _two, _cons) for t, v in v.items()}

  def iso(t):
    if t.endswith('_i'):
      t = t[:-2]
    return ''.join(glyph[x] for x in plain.get(t, [t]))
  for ss in ACRONYM.values():
    for s in ss:
      words = ['']
      for x in s.split():
        words = [w + ('.' if w and t.endswith('_i') else '') + iso(t)
                 for w in words for t in _spell.get(x, x).split()]
      out.update(words)
  return sorted(out)
