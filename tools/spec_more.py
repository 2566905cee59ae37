prop('P06', 'Text that visual normalization accepts is clean, stable and readable',
     'Visual normalization gives every text exactly one output, the same for canonically '
     'equivalent spellings. It leaves a joiner only where the script keeps one between two '
     'consonants. Accepted (well-formed) output can be romanized and read back, is not changed by '
     'normalizing again, and no well-formed joiner-free text is turned into ill-formed text.',
     ['inputs'], 'all strings of any length, for every script and language',
     'Whether a second application changes anything, or a joiner survives, depends on chains of '
     'rewrites over arbitrary contexts; the tests compare sample pairs.',
     [B + 'visual_norm.py', B + 'wellformed.py', B + 'nfc.py', B + 'iso.py', B + 'data'],
     [('rewrite stages and joiner removal', B + 'visual_norm.py'),
      ('acceptor of the script', B + 'wellformed.py')],
     ['brahmic.VisualNorm', 'brahmic.WellFormed', 'brahmic.ToIso'],
     'exhaustive state-space products of the built transducers with themselves and monitors',
     ENGINE + 'All strings; stability and preservation of well-formedness are over joiner-free '
     'input. Exceptions of the rule data are listed as known findings by minimal substring.')

prop('P07', 'Well-formed text is exactly the akshara sequences of the script',
     'The well-formedness acceptor of every Brahmic script accepts a text if and only if it is a '
     'sequence of independent vowels, consonant clusters with their dependent signs, closed '
     'syllables, standalone signs and listed exceptions, and byte and code point acceptors and '
     'WellFormed().AcceptText agree.',
     ['inputs'], 'all strings of any length, for every script',
     'Acceptance is a property of all strings: what must be rejected cannot be listed.',
     [B + 'wellformed.py', B + 'data', B + 'util.py', B + '__init__.py'],
     [('akshara grammar', B + 'wellformed.py')],
     ['brahmic.WellFormed', 'brahmic/wellformed.far', 'brahmic/wellformed_utf8.far'],
     'exhaustive state-space equivalence of the built acceptors with a reference grammar',
     ENGINE + 'All strings: language equality in both directions, over code points and bytes; '
     'accepting and rejecting traces that cover every transition are replayed through the API.')

prop('P08', 'Applying grammars to text treats every character as itself and fails cleanly',
     'ApplyOnText gives the grammar\'s best output for any text, AcceptText tells membership for '
     'any text including brackets and backslashes, rejected text raises FstInputError, and the '
     'normalizing acceptor splits lines at the ignored characters, normalizes each word, keeps the '
     'gaps, and reports ill-formed words and unknown scripts. Earlier calls do not change later '
     'ones.',
     ['inputs', 'histories'],
     'all texts over the special characters up to a length; all call sequences up to a depth',
     'Tests apply ordinary words; pattern and escape characters, empty text and call order are '
     'combinatorial.',
     [U + 'far.py', B + '__init__.py', U + 'file.py'],
     [('FST application and text escaping', U + 'far.py'),
      ('word splitting', B + '__init__.py')],
     ['Far.FstWrapper.ApplyOnText', 'Far.FstWrapper.AcceptText', 'brahmic.NormalizingAcceptor'],
     'exhaustive enumeration of texts and call histories through the real API',
     'All texts up to the stated length over an alphabet with brackets, backslash, spaces, '
     'astral and foreign characters; histories of calls up to depth 3. Longer texts are not '
     'enumerated.')

prop('P10', 'Reading normalization applies the script rules, then the language rules',
     'For every text over the script, reading normalization gives exactly one output, the result '
     'of the script\'s and the language\'s rules (longest first), in bytes and code points alike.',
     ['inputs'], 'all strings of any length, for every supported script and language',
     'Which rule wins where rules overlap depends on the neighbours of every match.',
     [B + 'reading_norm.py', B + 'data', U + 'rule.py', U + 'rewrite.py'],
     [('reading rules', B + 'reading_norm.py'), ('partition of rules', U + 'rule.py')],
     ['brahmic/reading_norm.far', 'brahmic/reading_norm_utf8.far'],
     'exhaustive state-space equivalence with a reference rewriting model',
     ENGINE + 'All strings; transition-covering traces replayed through the archives.')

prop('P11', 'Fixed rule romanization applies its rules in order and is unambiguous',
     'Converting a Mozhi romanization to native text gives one best output for every text that is '
     'accepted: the cascade of rewrite rules in file order, read as ISO 15919; bytes and code '
     'points agree.',
     ['inputs'], 'all strings of any length over printable ASCII',
     'Rule order and feeding only show on particular letter sequences.',
     [B + 'fixed.py', B + 'data', U + 'rule.py'],
     [('cascade and composition with ISO', B + 'fixed.py')],
     ['brahmic/fixed.far', 'brahmic/fixed_utf8.far'],
     'exhaustive state-space equivalence with a reference cascade model',
     ENGINE + 'All strings; traces replayed through the archives.')

prop('P12', 'Arabic script NFC keeps texts equivalent; reversible romanization loses nothing',
     'NFC for the Arabic script accepts every text, gives one output that is canonically equivalent '
     'to the input, and normalizing again changes nothing (known findings). Romanizing any text and '
     'converting back gives its NFC form, each direction gives at most one output, and text of '
     'other scripts passes through.',
     ['inputs'], 'all strings of any length over the letters of the tables',
     'Losslessness of a transliteration is a statement about all pairs of inputs.',
     [A + 'nfc.py', A + 'reversible_roman.py', A + '__init__.py', A + 'util.py', A + 'data/Arab'],
     [('NFC then table', A + 'reversible_roman.py'), ('pass-through wrapper', A + '__init__.py')],
     ['abjad_alphabet.Nfc', 'abjad_alphabet.ToReversibleRoman', 'abjad_alphabet.FromReversibleRoman'],
     'exhaustive state-space products of the built transducers; enumeration of short texts',
     ENGINE + 'All strings for the archives; canonical equivalence (unicodedata) for all texts up '
     'to 3 characters; the pass-through API for all texts of up to 3 pieces.')

prop('P13', 'Arabic script visual normalization follows its rules by position in the word',
     'For each of the 14 languages, visual normalization gives every text exactly one output: '
     'presentation forms, NFC, the script\'s rules and the language\'s rules anywhere; then the '
     'non-final rules only before another letter, the final rules only at the end after another '
     'letter, and the isolated rules only on whole words. Bytes and code points agree.',
     ['inputs'], 'all strings of any length over the 1105 characters of the grammars',
     'A final or isolated rule applied at the wrong position, or in the wrong order, shows only for '
     'particular neighbours.',
     [A + 'visual_norm.py', A + 'visual_norm_common.py', A + 'util.py', A + 'data/Arab', U + 'rule.py',
      U + 'rewrite.py'],
     [('positional rewrites', A + 'visual_norm.py'),
      ('script rules', A + 'visual_norm_common.py')],
     ['abjad_alphabet.VisualNorm', 'abjad_alphabet/visual_norm.far'],
     'exhaustive state-space equivalence with a reference pipeline model',
     ENGINE + 'Outputs: all strings over the whole alphabet. Acceptance, and bytes in the quick '
     'tier: all strings over the characters of the rules (thorough: with one other character '
     'anywhere, and all strings in bytes). Transition-covering traces are replayed through the API.')

prop('P14', 'Arabic script lines are normalized word by word; reading rules are exact',
     'Reading normalization of each language is exactly its rules for every text. The normalizer '
     'treats each maximal run of characters that are not ignored as one word (so that final and '
     'isolated rules see word boundaries), keeps the ignored characters, refuses foreign text with '
     'an FstInputError and unknown languages with a TagError.',
     ['inputs', 'histories'], 'all strings of any length (rules); all lines up to a length (words)',
     'Interaction of word boundaries with positional rules is combinatorial.',
     [A + '__init__.py', A + 'reading_norm.py', A + 'data/Arab'],
     [('word splitting', A + '__init__.py'), ('reading rules', A + 'reading_norm.py')],
     ['abjad_alphabet.Normalizer', 'abjad_alphabet.ReadingNorm'],
     'exhaustive state-space equivalence, and enumeration of all short lines through the API',
     ENGINE + 'Lines: all sequences of up to 4 pieces for 6 sets of ignored characters.')

NT = 'nisaba/scripts/natural_translit/'
NU = NT + 'utils/'

prop('P15', 'Feature distances, sets and profiles behave as their definitions say',
     'The distance of two features of an aspect is that of the innermost list they share '
     '(equidistant, linear or cyclic, times its step); any is at 0 and n_a at the maximum; sets '
     'follow set algebra whatever the history; containment means a shared leaf feature; a '
     'profile has a value for every aspect and similarity is 1 - total/maximum; copies are '
     'independent.',
     ['inputs', 'histories'], 'all list trees, sets, ranges, profiles and histories up to a size',
     'Nested lists multiply the cases a test can name, and shared state shows in histories.',
     [NU + 'feature.py', NU + 'inventory.py', NU + 'type_op.py',
      NT + 'phonology/features/descriptive.py'],
     [('distances, ranges, containment, profiles', NU + 'feature.py')],
     ['Feature', 'Feature.ValueList', 'Feature.Aspect', 'Feature.Set', 'Feature.Profile',
      'Feature.MultiProfile'],
     'exhaustive enumeration of list trees, sets and operation histories on the real classes '
     'against a model of definitions',
     'All nested lists of up to 4 features (quick; 5 thorough) with every list type and step; all '
     'pairs of subsets of 7 features; all histories of 3 (4) operations; every aspect of the '
     'shipped inventories.')

prop('P16', 'Expressions behave as the sets of symbol sequences they denote',
     'Concatenations, alternations, optional and repeated expressions denote the symbol sequences '
     'their definition says, in order of preference; accepts, equivalence, containment and head/'
     'tail matches follow from the sequences; alignments compare side by side; rules keep their '
     'fields and apply exactly in their context; operands and copies stay independent.',
     ['inputs'], 'all expressions up to a nesting depth and a number of parts, all pairs of them',
     'Redundant, empty and unlimited alternatives combine in ways examples do not list.',
     [NU + 'expression.py', NU + 'symbol.py', NU + 'operation.py'],
     [('construction, symbol lists, rules', NU + 'expression.py'),
      ('acceptance and containment', NU + 'symbol.py')],
     ['expression.Cat', 'expression.Or', 'expression.Alignment', 'symbol.Item'],
     'exhaustive enumeration of expressions on the real classes against a language model',
     'All Cat/Or of up to 3 parts over 2 symbols, controls and ANY, all Cat/Or of two of those '
     '(3 levels thorough); all relations on pairs; all rule contexts.')

prop('P17', 'Inventories, symbols and operations keep what was added; lookups find it',
     'An inventory keeps its items in order under unique aliases and refuses what clashes; symbol '
     'lookups by index, raw form and text give the last symbol added with that key, else the '
     'unknown symbol; parsing gives one symbol per character, the same one every time; feature '
     'pairs link both symbols and never change control symbols; operation indices are unique and '
     'linked; graphemes are those of Unicode.',
     ['inputs', 'histories'], 'all histories of additions and texts up to a length',
     'Shared dictionaries and counters go wrong only after particular histories.',
     [NU + 'inventory.py', NU + 'symbol.py', NU + 'operation.py', NT + 'script/grapheme.py',
      NT + 'script/inventories/latn.py', NT + 'phonology/phonological_symbol.py'],
     [('aliases and items', NU + 'inventory.py'), ('dictionaries and parsing', NU + 'symbol.py'),
      ('indices and links', NU + 'operation.py')],
     ['Inventory', 'Symbol.Inventory', 'Symbol.feature_pair', 'Operation.Inventory', 'Grapheme',
      'latn'],
     'exhaustive enumeration of operation histories on the real classes against dictionaries',
     'All histories of 3 (4) inventory actions, 4 (5) symbol additions, 2 (3) texts over two '
     'inventories, 2 (3) pairings; all operation inventories of up to 25 (39) operations; all code '
     'points below 3000h (all of Unicode).')

prop('P18', 'Iterable things, FST lists, lattices and comparisons follow their definitions',
     'Adding to an iterable thing keeps valid items, flattens other iterables, and never splits '
     'strings; equality compares values, never treats missing values as equal, and compares FSTs '
     'by content; FST lists are flat and their union, concatenation and composition are those of '
     'the items; lattice nodes get one state each, whatever the order of access.',
     ['inputs', 'histories'], 'all argument lists up to a length over a pool of kinds of values',
     'Nesting and mixing of kinds of arguments multiplies beyond examples.',
     [NU + 'type_op.py', NU + 'fst_list.py', NU + 'lattice.py', NU + 'log_op.py'],
     [('flattening and types', NU + 'type_op.py'), ('lists', NU + 'fst_list.py'),
      ('states', NU + 'lattice.py')],
     ['IterableThing', 'is_equal', 'type_check', 'FstList', 'Lattice'],
     'exhaustive enumeration of argument lists and access orders on the real classes',
     'All lists of up to 2 (3) arguments of 15 kinds for 9 item types; all orders of 3 (4) '
     'accesses to lattices of up to 2x2.')

prop('P09', 'Natural transliteration: a total function on ISO text, in every archive',
     'For every language and every text of ISO letters, romanization (natural, fine, coarse) and '
     'pronunciation give exactly one output, in Latin letters or IPA; other texts are refused; the '
     'byte, UTF-8 and end-to-end archives and the program that applies them agree.',
     ['inputs'], 'all texts of any length',
     'Rule cascades can drop or fork an output only where several rules meet.',
     [NT + 'brahmic/g2p.py', NT + 'brahmic/romanizer.py', NT + 'brahmic/grapheme_inventory.py',
      NT + 'language_params/hi.py', NT + 'utils/rewrite_functions.py', 'nisaba/scripts/utils/far.py'],
     [('rules', NT + 'brahmic/g2p.py'), ('Latin', NT + 'brahmic/romanizer.py'),
      ('archives', NT + 'languages/hi_e2e.py')],
     ['<lang>_iso_ipa.far', '<lang>_iso_nat.far', '<lang>_iso_psaf.far', '<lang>_iso_psac.far',
      '<lang>_e2e.far', 'Far.Fst.ApplyOnText'],
     ENGINE, 'All texts: the product of the machines is explored to the end. Nine languages, four '
     'grammars, two token types.')

prop('P19', 'Natural transliteration follows the rules of each language',
     'For every word of ISO letters, the romanizations and the pronunciation are those of the '
     'rules of the language: typing of graphemes, default sounds, schwa deletion, anusvara '
     'assimilation, vocalic liquids, voicing, spelled letter names, and the Latin conventions.',
     ['inputs'], 'all words up to a length, longer ones over chosen letters and frames',
     'Rules interact through context; tests hold a few dozen words per language.',
     [NT + 'brahmic/g2p.py', NT + 'brahmic/romanizer.py', NT + 'brahmic/grapheme_inventory.py',
      NT + 'brahmic/phoneme_inventory.py', NT + 'brahmic/acronym.py',
      NT + 'utils/rewrite_functions.py', NT + 'utils/alignment.py'] +
     [NT + 'language_params/%s.py' % l for l in 'bn gu hi kn ml mr pa ta te'.split()],
     [('pronunciation rules', NT + 'brahmic/g2p.py'), ('Latin rules', NT + 'brahmic/romanizer.py'),
      ('what a language applies', NT + 'language_params/hi.py')],
     ['<lang>_iso_ipa.far', '<lang>_iso_nat.far', '<lang>_iso_psaf.far', '<lang>_iso_psac.far'],
     'exhaustive enumeration of words on the real archives against a rule-list reference model',
     'All words of up to 2 (3 thorough) of 69 letters; every pair of letters in 14 frames; all '
     'words of 4-5 (6) letters over 16 small alphabets; all pairs (triples) of letter names.')

prop('P20', 'Deromanization and letter spelling: total, well-formed, the same in every form',
     'Every Latin word has exactly one deromanization; the native one is well-formed, in NFC, and '
     'the brahmic romanization of it is the ISO one (and back); each follows the mapping rules of '
     'its language by priority. A word is spelled letter by letter in either case, with separators '
     'only in between.',
     ['inputs'], 'all texts of any length; rules: all words up to a length',
     'Two archives built from two tables agree on samples long before they agree on all words.',
     [NT + 'brahmic/deromanizer.py', NT + 'brahmic/derom_inventory.py', NT + 'brahmic/en_spellout.py',
      NT + 'brahmic/grapheme_inventory.py', NT + 'language_params/hi.py',
      NT + 'language_params/ta.py', NT + 'script/char.py'],
     [('rule order and templates', NT + 'brahmic/deromanizer.py'),
      ('mappings', NT + 'brahmic/derom_inventory.py'), ('letters', NT + 'brahmic/en_spellout.py')],
     ['hi_deva.far', 'hi_iso.far', 'ta_taml.far', 'ta_iso.far', 'en_spellout.far'],
     ENGINE + '; exhaustive enumeration of words against a rule-list reference model',
     'All texts for totality, uniqueness, well-formedness, NFC, agreement with brahmic/iso and '
     'letter by letter; all words of up to 4 (5 thorough) letters, 5-6 (8) over small alphabets, '
     'for the rules.')

PT = 'nisaba/port/'
TT = 'nisaba/translit/tools/'
REALCPP = 'exhaustive enumeration of inputs on the compiled real sources against a reference model'

prop('P21', 'Thread pool: each task runs once, in order, before destruction ends',
     'Under every interleaving: each scheduled task runs exactly once, begins in order as far as '
     'idle workers allow, never more at once than there are workers, yet as many as there are; '
     'Schedule may be called by any thread or task; destruction returns after the last task, and '
     'there is no race, deadlock or use of freed memory.',
     ['schedules', 'histories'], 'all interleavings of all scenarios',
     'A lost wake-up or an early exit needs one particular interleaving; tests run a few.',
     [PT + 'thread_pool.h'],
     [('queue and workers', PT + 'thread_pool.h')],
     ['nisaba::ThreadPool'],
     'stateless model checking: the real class runs under a controlled scheduler that explores all '
     'interleavings (sleep sets) or all up to a preemption bound, with a happens-before race detector',
     'Up to 3 workers, 4 tasks, 2 producers without preemption bound where small; preemption '
     'bound 2-3 (4 thorough) for the larger scenarios; 40+40 tasks with bound 0.')

prop('P22', 'UTF-8 and text utilities agree with Unicode for every input',
     'Every code point round trips; valid text splits into its code points, text that is not valid '
     'UTF-8 into none, and its first character decodes as U+FFFD; the whitespace delimiter finds '
     'exactly the characters with property White_Space, so splitting loses no other character.',
     ['inputs'], 'all code points, all byte strings',
     'Ill-formed and truncated sequences have many shapes.',
     [PT + 'utf8_util.h', PT + 'utf8_util.cc', PT + 'utf8_delimiters.h', PT + 'utf8_delimiters.cc',
      PT + 'unicode_properties.cc'],
     [('decoding and encoding', PT + 'utf8_util.cc'), ('delimiters', PT + 'utf8_delimiters.cc')],
     ['nisaba::utf8'], REALCPP,
     'All 1.1 million code points; all byte strings up to a length over bytes of every class.')

prop('P23', 'Files: what is read is what was written, for every content and access pattern',
     'Whatever bytes are written, reading gives the same back, in any chunking, up to any limit, of '
     'any size; lines end with LF or CR LF, which are not part of them, and empty ones are left '
     'out; protocol messages survive text and binary form; a failure is reported and never a '
     'shorter result.',
     ['inputs', 'histories', 'crash points'], 'all contents, all sequences of operations',
     'Chunk boundaries, missing last newlines and truncations combine in many ways.',
     [PT + 'file.h', PT + 'file.cc', PT + 'file_util.h', PT + 'file_util.cc',
      PT + 'proto_file_stream.h', PT + 'proto_file_stream.cc'],
     [('open, read, write', PT + 'file.cc'), ('lines', PT + 'file_util.cc'),
      ('messages', PT + 'proto_file_stream.cc')],
     ['nisaba::file', 'ReadProtoWithFormat'], REALCPP,
     'All contents up to a length over a small alphabet with CR, LF and NUL; all truncations.')

prop('P24', 'Word pieces: segmentation by best rank, leftmost first, and back',
     'For every vocabulary and every word, pieces come from merging the adjacent pair whose union '
     'ranks best, leftmost first, until no pair merges; the pieces joined are the word, the prefix '
     'marks exactly the word beginnings, and joining pieces gives the text again.',
     ['inputs'], 'all vocabularies and texts',
     'Ties and orders of merging matter only in vocabularies built for it.',
     ['nisaba/translit/fst/wordpiece-segmenter.h', 'nisaba/translit/fst/wordpiece-segmenter.cc'],
     [('merging', 'nisaba/translit/fst/wordpiece-segmenter.cc')],
     ['nisaba::translit::fst::WordpieceSegmenter'], REALCPP,
     'All ordered vocabularies of up to 3-4 pieces over two letters, all words up to a length.')

prop('P25', 'Error rates are minimal edit distances over the best reference',
     'For each example the edits are the fewest substitutions, deletions and insertions between '
     'the likeliest output and the reference with the lowest rate, over characters or words '
     'with whitespace normalized; totals are sums; pairwise edits are valid JSON with all distances, '
     'lengths and probabilities, and the expected edits are the least cost of moving one '
     'distribution onto the other.',
     ['inputs'], 'all reference and output files',
     'An alignment that is not minimal or a misattributed example shows only in a number.',
     [TT + 'calculate_error_rate.h', TT + 'calculate_error_rate.cc', TT + 'emd_cer.py'],
     [('alignment, choice, totals', TT + 'calculate_error_rate.cc'),
      ('expected edits', TT + 'emd_cer.py')],
     ['MultiRefErrorRate', 'emd_error_and_length'], REALCPP,
     'All pairs of strings of up to 5 (6) over two and 4 (5) over three letters; all lists of 2-3 '
     'references or outputs over small pools with costs, counts, gaps and whitespace.')

prop('P26', 'k-best lists, rejoined words and ensembles are exactly the best',
     'The k best strings of a lattice are the k with the greatest probability, in order, with '
     'their probabilities normalized over those returned; rejoined words are the k likeliest joins of '
     'the lists of a group, for every group of the file including the last; an ensemble adds '
     'the masses its members give, weighted, and normalizes.',
     ['inputs'], 'all lattices, lists and files',
     'A dropped group or a misordered pruning changes only some lines of a long output.',
     [TT + 'kbest-full-string-util.h', TT + 'kbest-full-string-util.cc'],
     [('extraction, rejoining, ensembles', TT + 'kbest-full-string-util.cc')],
     ['KbestExtractor', 'KbestRejoiner', 'ensembles'], REALCPP,
     'All small files of groups over pools of costs with ties, all k; oracle enumerates all joins.')

prop('P27', 'Data files: what a file says is what its rules, names and alphabets do',
     'Every character name, with any prefix split off, and every named sequence gives its characters; '
     'items of every form become the strings their code points and names say; a rule file makes the '
     'rewrite of its rows, longest match first, weights kept and text taken literally; a cascade is '
     'its rewrites in sequence; derived characters and alphabets are those of the data.',
     ['inputs'], 'all names, all rows, all texts',
     'A row with an unusual character, number-like text or quote is read wrongly only if it occurs.',
     [U + f for f in ('unicode_strings_util.py', 'rule.py', 'rewrite.py', 'char.py', 'file.py',
                      'func.py', 'proto.py', 'unicode_strings_to_tsv.py', 'letter_languages.py')],
     [('names and items', U + 'unicode_strings_util.py'), ('rows to rewrites', U + 'rule.py'),
      ('rewrites', U + 'rewrite.py')],
     ['name_to_char', 'convert_item', 'fst_from_rule_file', 'fst_from_cascading_rule_files'],
     'exhaustive enumeration of names, rows, files and texts on the real modules against a model',
     'All named characters and sequences; all rule files of 1-2 rows over a pool of cells; all texts '
     'up to a length for each rewrite.')

prop('P28', 'Transliteration helpers build the relations their definitions state',
     'Each rewrite, alignment and concatenation helper relates a row of symbols to exactly the rows '
     'its definition gives, one and not several for obligatory operations; characters, phonemes, '
     'modified and composed phonemes have the fields defined for them, sources stay as they were, and '
     'the inventory is the documented table; transcription gives the IPA of its phonemes.',
     ['inputs'], 'all rows of symbols, all phonemes and modifiers',
     'An ambiguous operation yields the expected string first and others only sometimes.',
     [NU + 'rewrite_functions.py', NU + 'alignment.py', NU + 'concat.py', NT + 'script/char.py',
      NT + 'phonology/phon.py', NT + 'phonology/modify_phon.py', NT + 'phonology/phoneme_inventory.py',
      NT + 'phonology/transcriptor.py', NT + 'latin/ltn_inventory.py'],
     [('operations', NU + 'rewrite_functions.py'), ('alignments', NU + 'alignment.py'),
      ('phonemes', NT + 'phonology/modify_phon.py')],
     ['rewrite_functions', 'alignment', 'modify_phon', 'txn_to_ipa'], ENGINE,
     'All rows of up to 4-5 symbols for every helper and parameter over small pools; all phonemes of '
     'the inventory with every modifier; all pairs of phonemes transcribed.')
FSTD = 'nisaba/translit/fst/'
prop('P29', 'The decoder gives the candidates of its models with their probabilities',
     'For every line and k, the pair language model decoder gives each word exactly its k most '
     'probable outputs under the model, mixed with or overridden by the given candidates, reweighted '
     'by the language model over the line (words, word pieces, closure, word level), and pruned as '
     'configured; segments the model does not cover stay, and printed costs are the probabilities.',
     ['inputs', 'configurations'], 'all lines and models within the bounds, all options',
     'Probabilities are compared with hand-picked values for one toy model, never with the sum over '
     'all sentences, and no test configures most of the options together.',
     [FSTD + 'pairlm_decoder.cc', FSTD + 'pairlm_decoder.h', FSTD + 'wordpiece-segmenter.cc'],
     [('decoding', FSTD + 'pairlm_decoder.cc')],
     ['PairLMDecoder::TransliterateString', 'PairLMDecoder::PrintTransliterations'],
     'exhaustive enumeration of models, options and lines, the real decoder against a reference that '
     'enumerates every path and every sentence',
     'Every subset of bigram arcs of a model over three letters, all words up to length 3-4 with an '
     'uncovered letter, lines of one to three words, k of 1, 2, 5; outcomes that depend on how a tie '
     'is broken are counted apart.')
prop('P30', 'What the decoder gives depends on no schedule, other line or other word',
     'Under every schedule of its workers the decoder and its runner end, without a data race, and '
     'give for each line what a new decoder gives for it alone, whatever lines were decoded before '
     'and whatever the caches hold; the runner writes the lines in order, one worker or many.',
     ['schedules', 'histories'], 'all schedules up to a bound on preemptions, all histories of lines',
     'Tests run with whatever schedule the machine happens to produce, and do not look for races.',
     [FSTD + 'pairlm_decoder.cc', FSTD + 'pairlm_decoder.h', FSTD + 'pairlm_decoder_runner.cc',
      'nisaba/port/thread_pool.h'],
     [('words in parallel', FSTD + 'pairlm_decoder.cc'), ('lines in parallel', FSTD + 'pairlm_decoder_runner.cc')],
     ['PairLMDecoder::TransliterateString', 'RunPairLMDecoder'],
     'stateless exploration of the real code under a controlled scheduler, with a happens-before race '
     'detector on its containers, symbol tables and automata',
     'Two and three words with up to two preemptions, files of up to four lines, 2-3 workers; all '
     'histories of three lines; lines of the same k.')
