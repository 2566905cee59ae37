"""Writes properties.jsonl and MANIFEST.json; the one place both come from.

Run: python3 tools/spec.py
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
B = 'nisaba/scripts/brahmic/'
A = 'nisaba/scripts/abjad_alphabet/'
N = 'nisaba/scripts/natural_translit/'
U = 'nisaba/scripts/utils/'


def prop(pid, title, statement, over, quant, why, files, mechanism, observe, technique, note,
         level='model_checking', state=None):
  d = {'id': pid, 'title': title, 'statement': statement,
       'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
       'anchors': {'files': files,
                   'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                   'observe_at': observe, 'hook_needed': None}}
  if state:
    d['anchors']['state'] = [{'name': n, 'meaning': w} for n, w in state]
  PROPS.append((d, technique, note, level))


ENGINE = ('Explicit-state engine of this repository (engine/fstmc.cc), the reading of the built '
          'archives through pynini, and the reference models under mc/ are trusted. ')

prop('P01', 'Brahmic NFC is a total, idempotent function that agrees with Unicode NFC',
     'For every text over a supported Brahmic script, NFC normalization gives exactly one output, '
     'the output is the Unicode NFC form of the text unless marks would have to be reordered or '
     'composed across another mark (known findings), and normalizing again changes nothing. Byte '
     'and code point archives give the same result.',
     ['inputs'], 'all strings of any length over the alphabet of each of the supported scripts',
     'The tests normalize a handful of words per script; composition and decomposition depend on '
     'which characters meet, and the obligation is over all strings.',
     [B + 'nfc.py', B + 'data', U + 'rule.py', U + 'rewrite.py'],
     [('rewrite rules from the NFC tables', B + 'nfc.py'),
      ('partition of overlapping rules', U + 'rule.py')],
     ['brahmic.Nfc', 'brahmic/nfc.far', 'brahmic/nfc_utf8.far'],
     'exhaustive state-space product of the built transducer with a step model of Unicode NFC',
     ENGINE + 'All strings over each script alphabet, by exploring every reachable state of the '
     'product of the shipped transducer and the model; Unicode data of the Python in use is the '
     'oracle. Strings up to a small length are also enumerated and replayed through the API.')

prop('P02', 'Romanization of well-formed Brahmic text round-trips',
     'For every well-formed text of every supported script, romanizing to ISO 15919 gives one best '
     'output, and converting that back gives the NFC form of the original text. Going back and '
     'forth from any romanization the system can read is stable, and byte and code point archives '
     'agree.',
     ['inputs'], 'all well-formed strings of any length, for every script',
     'The tests convert a word list in each direction; losslessness depends on every pair of '
     'neighbouring signs and on ambiguity between readings of a romanization.',
     [B + 'iso.py', B + 'wellformed.py', B + 'data', B + '__init__.py'],
     [('weighted akshara grammar, inverted for the way back', B + 'iso.py')],
     ['brahmic.ToIso', 'brahmic.IsoTo', 'brahmic/iso.far', 'brahmic/wellformed.far'],
     'exhaustive state-space product of the built transducers (best-path lockstep)',
     ENGINE + 'All strings: every reachable state of the product of the two directions with '
     'residual outputs and weights; state cap never reached on the unchanged tree.')

prop('P03', 'The script-independent romanizer leaves other text alone and agrees',
     'The romanizer for mixed text accepts every string, copies every character that belongs to no '
     'supported script unchanged, and romanizes a run of one script exactly as the romanizer of '
     'that script does.',
     ['inputs'], 'all strings over the union of the script alphabets and other characters; '
     'agreement for all short runs of each script',
     'Tests use a few sentences; the claim is over every mixture of scripts and of neighbouring '
     'text.',
     [B + 'iso.py', B + 'util.py', B + 'data'],
     [('union of the per-script romanizers with pass-through', B + 'iso.py')],
     ['brahmic.ToIso', 'brahmic/iso.far[FROM_BRAHMIC]'],
     'exhaustive state exploration of the built transducer and bounded exhaustive enumeration',
     ENGINE + 'Totality and pass-through for all strings; agreement with the per-script '
     'romanizers for all strings to a bounded length (stated in the evidence).')

prop('P04', 'Romanization follows the akshara structure and ISO 15919',
     'For every string a script\'s romanizer accepts, the output is the one its akshara structure '
     'and letter tables prescribe: inherent vowels written unless a vowel sign or virama follows, '
     'separators only where a reading would otherwise be ambiguous. The core letters and signs of '
     'the Indic scripts have their ISO 15919 values.',
     ['inputs'], 'all strings of any length per script; all core letters of ISO 15919',
     'Tests sample words; the structure is a grammar over all aksharas with weighted alternatives '
     'whose best reading can shift in rare contexts.',
     [B + 'iso.py', B + 'data'],
     [('weighted akshara grammar', B + 'iso.py')],
     ['brahmic.ToIso', 'brahmic/iso.far'],
     'lockstep best-path exploration of the built transducer against a reference grammar',
     ENGINE + 'The reference reads the same letter tables with its own parser, so a wrong table '
     'entry shows only through the ISO 15919 letters, which are written down independently.')

prop('P05', 'Visual normalization rewrites, de-duplicates and cleans joiners as documented',
     'For every text of a supported script or language, visual normalization gives the result of '
     'the documented steps in order: NFC, removal of repeated marks, the script\'s rewrites '
     '(longest first), removal of joiners that are not kept between consonants, then the '
     'language\'s rewrites around consonants.',
     ['inputs'], 'all strings of any length, for every script and language',
     'Rewrites interact: the output of one creates the context of the next. Tests sample pairs of '
     'strings, not the composed effect on every string.',
     [B + 'visual_norm.py', B + 'data', U + 'rule.py', U + 'rewrite.py'],
     [('composition of the rewrite stages', B + 'visual_norm.py')],
     ['brahmic.VisualNorm', 'brahmic/visual_norm_utf8.far'],
     'exhaustive state-space equivalence with a reference pipeline model',
     ENGINE + 'All strings; the reference reads the same data tables with an independent parser '
     'and applies leftmost-longest rewriting written without transducers; transition-covering '
     'traces of the model are replayed through the API.')

NOT_APPLICABLE = []

HERE = os.path.dirname(os.path.abspath(__file__))
extra = os.path.join(HERE, 'spec_more.py')
if os.path.exists(extra):
  exec(compile(open(extra).read(), extra, 'exec'))  # pylint: disable=exec-used


def main():
  have = {f.split('_')[0] for f in os.listdir(os.path.join(VERIF, 'checks'))}
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for d, *_ in PROPS:
      assert len(d['title']) <= 80, d['title']
      f.write(json.dumps(d, ensure_ascii=True) + '\n')
  checks = []
  for d, technique, note, level in PROPS:
    pid = d['id']
    if pid not in have:
      assert pid in {x['property'] for x in NOT_APPLICABLE}, pid
      continue
    checks.append({'property': pid, 'quick_cmd': './run ' + pid,
                   'thorough_cmd': './run %s thorough' % pid,
                   'technique': technique, 'level': level, 'level_note': note})
  m = {'version': 1, 'setup_cmd': './run setup', 'checks': checks,
       'not_applicable': NOT_APPLICABLE}
  with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


main()
