From eb226ab89c48266c35b3d9af28ed926612138f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 01/24] fix: let the utf8 FROM_BRAHMIC romanizer rewrite native
 text

The alphabet its rewrite was compiled with held only the characters of the
native scripts, not those of the romanization it writes, so the utf8 version
could not rewrite any native text.
---
 nisaba/scripts/brahmic/iso.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/nisaba/scripts/brahmic/iso.py b/nisaba/scripts/brahmic/iso.py
index d3f2474..41e5d8c 100644
--- a/nisaba/scripts/brahmic/iso.py
+++ b/nisaba/scripts/brahmic/iso.py
@@ -171,6 +171,20 @@ def _script_fsts(script: str, token_type: str) -> tuple[p.Fst, p.Fst]:
   return (from_nfced_script, to_nfced_script)
 
 
+def _output_chars(fst: p.Fst) -> p.Fst:
+  """Creates an acceptor of the single output labels of an FST."""
+  labels = {arc.olabel for state in fst.states() for arc in fst.arcs(state)}
+  chars = p.Fst()
+  start = chars.add_state()
+  chars.set_start(start)
+  final = chars.add_state()
+  chars.set_final(final)
+  for label in sorted(labels - {0}):
+    chars.add_arc(
+        start, p.Arc(label, label, p.Weight.one(chars.weight_type()), final))
+  return chars
+
+
 def generator_main(exporter_map: multi_grm.ExporterMapping):
   """Generate FSTs for ISO conversion of various Brahmic scripts."""
   for token_type in ('byte', 'utf8'):
@@ -186,10 +200,11 @@ def generator_main(exporter_map: multi_grm.ExporterMapping):
         script = script.upper()
         exporter[f'FROM_{script}'] = from_script
         exporter[f'TO_{script}'] = to_script
-      # TODO: The utf8 version of `FROM_BRAHMIC` transducer is
-      # failing to rewrite any native script inputs.
+      from_brahmic = p.union(*from_script_fsts).optimize()
+      # The alphabet of the rewrite needs to cover its romanized output as well.
+      sigma_fsts += [_output_chars(from_brahmic)]
       exporter['FROM_BRAHMIC'] = rw.Rewrite(
-          p.union(*from_script_fsts).optimize(),
+          from_brahmic,
           sigma=p.union(*sigma_fsts).optimize()
       )
 
-- 
2.43.0


From 63a0dfcaf5b1875be3501f028ad8e5d5e750f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 02/24] fix: escape the text AcceptText gets, as ApplyOnText
 does

Square brackets and backslash carry a special meaning in Pynini strings, so
the acceptor took '[0xe0][0xa4][0x95]' for a Devanagari letter, and raised a
compilation error rather than rejecting text with an unmatched bracket.
---
 nisaba/scripts/utils/far.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/far.py b/nisaba/scripts/utils/far.py
index c114040..a30c888 100644
--- a/nisaba/scripts/utils/far.py
+++ b/nisaba/scripts/utils/far.py
@@ -79,7 +79,8 @@ class Far:
       """
       if not self._fst.properties(pynini.ACCEPTOR, True):
         warnings.warn('Underlying WFST is not an acceptor.', RuntimeWarning)
-      lattice = text @ self._fst
+      # See above on escaping.
+      lattice = pynini.escape(text) @ self._fst
       return lattice.start() != pynini.NO_STATE_ID
 
   def __init__(self, path_to_far: os.PathLike[str]) -> None:
-- 
2.43.0


From 47664ce122445ba387ab246449d41e182e3f378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:36 +0000
Subject: [PATCH 03/24] fix: ValueList and Aspect has_feature recurse forever

ValueList.has_feature called value.is_in(self), which calls
obj.has_feature(value) again, so every call raised RecursionError.
---
 nisaba/scripts/natural_translit/utils/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 2f7a0ea..795f6c6 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -498,7 +498,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: Feature.Aspect.VALUES) -> bool:
       """Checks if the given value or one of its children is in this list."""
-      return value.is_in(self)
+      return self.set().has_feature(value)
 
     def is_in(self, obj) -> bool:
       """Checks if this list is contained within the given object."""
@@ -651,7 +651,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: VALUES) -> bool:
       """Checks if the given value or one of its children is in this aspect."""
-      return value.is_in(self)
+      return self.root_list.has_feature(value)
 
     def is_applicable(self, profile: Feature.Profile) -> bool:
       """Checks if this aspect is applicable to the given profile."""
-- 
2.43.0


From 74d358c02ed0d76595dd2d50590cb845112617d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:36 +0000
Subject: [PATCH 04/24] fix: value_in never finds a value list in an iterable

A feature set only holds features, so a value list was never in the set
built from the object: Symbol.has_feature(value_list) was always false.
The docstring says that the values of the list are looked up.
---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 795f6c6..45cb870 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -1085,5 +1085,5 @@ def value_in(value: Feature.Aspect.VALUES, obj) -> bool:
       (hasattr(obj, 'has_feature') and obj.has_feature(value))
       or obj == value
       or obj in value.parent_list
-      or (isinstance(obj, Iterable) and value in Feature.Set(obj))
+      or (isinstance(obj, Iterable) and Feature.Set(obj).has_feature(value))
   )
-- 
2.43.0


From b6482507d2bbd5c7ea44a3e5fea89f798653e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:36 +0000
Subject: [PATCH 05/24] fix: ValueList.distance is negative for arguments in
 reverse order

---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 45cb870..729c007 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -398,7 +398,7 @@ class Feature(ty.Thing):
     ) -> float:
       if values1 not in self or values2 not in self:
         return Feature.ERROR_DISTANCE
-      delta = self._items.index(values2) - self._items.index(values1)
+      delta = abs(self._items.index(values2) - self._items.index(values1))
       match self.list_type:
         case Feature.ValueListType.EQUIDISTANT:
           return self.step
-- 
2.43.0


From c8eb3df01293ef7065432e6231af7516bcc269a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:20 +0000
Subject: [PATCH 06/24] fix: accepts compares the numbers of symbol lists, not
 the lists

An expression with a recurring symbol list was never accepted by an
equivalent expression without the recurrence.
---
 nisaba/scripts/natural_translit/utils/symbol.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index 6e0b214..7c55159 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -97,11 +97,10 @@ class Item(ty.Thing):
           equivalent and self.is_expression_any() and other.is_expression_any()
       ) or not equivalent
     self_symbols, other_symbols = self.symbols(), other.symbols()
-    self_len, other_len = len(self_symbols), len(other_symbols)
-    if (
-        not self_len
-        or self_len < other_len
-        or (equivalent and self_len != other_len)
+    if not self_symbols:
+      return False
+    if equivalent and any(
+        sym_list not in other_symbols for sym_list in self_symbols
     ):
       return False
     return all(sym_list in self_symbols for sym_list in other_symbols)
-- 
2.43.0


From a2cbe1402bc320e7cfc8d278103c08b69664b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 07/24] fix: keep the diphthongs when a becomes a schwa, so
 that Gujarati ai and au are read

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 00796a7..8053f3f 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -42,10 +42,12 @@ ph = psa.PHONEME_INVENTORY
 # TODO: Convert this constant to a function where duration and diphthong
 # context are passed as arguments, and remove the recovery rule.
 # The current rule rewrites all /a/ to /ə/ including the diphthongs like /ai/,
-# and recovers long a with /ə:/ -> /a:/ but not the diphthongs.
+# and recovers long a with /ə:/ -> /a:/ and the diphthongs with /ə+/ -> /a+/.
+_COMBINER = al.enclose_phoneme(al.PLUS)
 A_TO_EC = (
     rw.rewrite(ph.A, ph.EC) @
-    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH)
+    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH) @
+    rw.rewrite(ph.EC + _COMBINER, ph.A + _COMBINER)
 )
 A_AE = rw.reassign(gr.A_I, ph.A, ph.AE)
 
-- 
2.43.0


From 74a701c8073f207a074f5674fd08e2034fcd6719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:01 +0000
Subject: [PATCH 08/24] fix: ReadLines removes the carriage return of a line's
 end too

Its documentation says that trailing carriage return and line feed characters
are removed; only line feeds were, and a line with nothing but a carriage return
was not treated as empty.
---
 nisaba/port/file_util.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index cff7eb0..c55128c 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -168,6 +168,7 @@ absl::StatusOr<std::vector<std::string>> ReadLines(
   }
   std::string line;
   while (std::getline(ifs, line)) {
+    if (!line.empty() && line.back() == '\r') line.pop_back();
     if (line.empty()) continue;
     if (line.size() >= max_length) line[max_length - 1] = '\0';
     input_lines.emplace_back(line);
-- 
2.43.0


From fa64b679ab8db006fd3161a5432f699f99941c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:49 +0000
Subject: [PATCH 09/24] fix: escape output strings in the JSON of pairwise
 edits

---
 nisaba/translit/tools/calculate_error_rate.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index aade700..a970db2 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -188,6 +188,21 @@ double GetNormalizer(const std::vector<std::pair<int, double>> &input_pairs) {
   return -log(exp_sum);
 }
 
+// Returns string with the characters that json reserves escaped.
+std::string JsonEscape(absl::string_view str) {
+  std::string escaped;
+  for (const char c : str) {
+    if (c == '"' || c == '\\') {
+      absl::StrAppend(&escaped, "\\", std::string(1, c));
+    } else if (c >= 0 && c < 0x20) {
+      absl::StrAppend(&escaped, "\\u", absl::Hex(c, absl::kZeroPad4));
+    } else {
+      escaped.push_back(c);
+    }
+  }
+  return escaped;
+}
+
 // Writes vector of candidates to output file in expected json format, after
 // normalizing the weights, and returns vector of probabilities.
 std::vector<double> WriteCands(std::ofstream &output_file,
@@ -197,7 +212,7 @@ std::vector<double> WriteCands(std::ofstream &output_file,
   std::vector<double> probs;
   probs.reserve(cands.size());
   for (int i = 0; i < cands.size(); ++i) {
-    const std::string hyp_word = syms.Find(cands[i].first);
+    const std::string hyp_word = JsonEscape(syms.Find(cands[i].first));
     probs.push_back(exp(-cands[i].second + norm));
     const std::string delim = i > 0 ? ", \"" : "\"";
     impl::LineToFile(output_file,
-- 
2.43.0


From 224f6f6f4f48b2b58fc47fdb6e3310ab959e45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:49 +0000
Subject: [PATCH 10/24] fix: pairwise edits of files with indices left out

---
 nisaba/translit/tools/calculate_error_rate.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index a970db2..d840a9f 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -313,6 +313,10 @@ void MultiRefErrorRate::WriteErrorRate(std::ofstream &output_file) {
 
 void MultiRefErrorRate::WritePairwiseEdits(std::ofstream &output_file) {
   for (int idx = 0; idx < references_.size(); ++idx) {
+    if (references_[idx].empty()) {
+      // Nothing was calculated for this example.
+      continue;
+    }
     // Writes system outputs with probabilities.
     impl::LineToFile(output_file, "{\"hyp\": {", /*newline=*/false);
     const auto p1 =
@@ -468,6 +472,9 @@ void MultiRefErrorRate::CalculatePairwiseErrors(int idx) {
 void MultiRefErrorRate::CalculateErrorRate(int idx, bool pairwise_edits) {
   if (references_[idx].empty()) {
     // Nothing to do for this example.
+    if (pairwise_edits) {
+      pairwise_edits_.emplace_back();
+    }
     return;
   }
   if (pairwise_edits) {
-- 
2.43.0


From 21c30e0cb44358309be6cb31bae34c9829117377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:49 +0000
Subject: [PATCH 11/24] fix: lengths of references in the tokens the edits are
 counted in

---
 nisaba/translit/tools/calculate_error_rate.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index d840a9f..377b223 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -274,13 +274,14 @@ std::string GetDistances(const std::vector<std::vector<int>> &dists) {
   return absl::StrJoin(dist_arrays, ", ");
 }
 
-// Returns vector of lengths of strings in cands.
+// Returns vector of lengths of strings in cands, in tokens.
 std::vector<int> GetLengths(const std::vector<std::pair<int, double>> &cands,
-                            const fst::SymbolTable &syms) {
+                            const fst::SymbolTable &syms, bool split_chars) {
   std::vector<int> lengths;
   lengths.reserve(cands.size());
   for (const auto cand : cands) {
-    lengths.push_back(utf8::StrSplitByChar(syms.Find(cand.first)).size());
+    lengths.push_back(
+        MaybeSplitChars(syms.Find(cand.first), split_chars).size());
   }
   return lengths;
 }
@@ -348,7 +349,8 @@ void MultiRefErrorRate::WritePairwiseEdits(std::ofstream &output_file) {
     impl::LineToFile(output_file,
                      impl::GetBracketedVectorString(
                          std::vector<int>(test_input_[idx].size(), 0),
-                         impl::GetLengths(references_[idx], output_syms_)),
+                         impl::GetLengths(references_[idx], output_syms_,
+                                          is_split_chars_)),
                      /*newline=*/false);
     impl::LineToFile(output_file, "}", /*newline=*/true);
   }
-- 
2.43.0


From ab498ff2cc9f5a8168e8282dbc21031a40e7f766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:20 +0000
Subject: [PATCH 12/24] fix: kbest of the rejoiner counts the last list too

---
 nisaba/translit/tools/kbest-full-string-util.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nisaba/translit/tools/kbest-full-string-util.cc b/nisaba/translit/tools/kbest-full-string-util.cc
index 9c9d4c8..61357aa 100644
--- a/nisaba/translit/tools/kbest-full-string-util.cc
+++ b/nisaba/translit/tools/kbest-full-string-util.cc
@@ -653,11 +653,6 @@ void KbestRejoiner::InitializeKbestRejoiner(
       if (!last_input.empty() && seq[0] != last_input) {
         QCHECK_LT(output_idx, output_indices_.size() - 1);
         if (output_indices_[output_idx] != output_indices_[output_idx + 1]) {
-          for (const auto &curr_set : curr_list) {
-            if (curr_set.size() > max_kbest) {
-              max_kbest = curr_set.size();
-            }
-          }
           kbest_lists_.push_back(curr_list);
           curr_list.clear();
         }
@@ -666,6 +661,9 @@ void KbestRejoiner::InitializeKbestRejoiner(
       }
       last_input = seq[0];
       curr_list.back().push_back(std::make_pair(seq[1], std::stod(seq[2])));
+      if (curr_list.back().size() > max_kbest) {
+        max_kbest = curr_list.back().size();
+      }
     }
     kbest_lists_.push_back(curr_list);
     QCHECK_EQ(kbest_lists_.size(), output_indices_.back() + 1);
-- 
2.43.0


From eed54402d1ef44d85d257e9d0fc8cdb16a9cadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 13/24] fix: rules from files keep columns as they are written

---
 nisaba/scripts/utils/rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/rule.py b/nisaba/scripts/utils/rule.py
index d98b12c..c1cf9d6 100644
--- a/nisaba/scripts/utils/rule.py
+++ b/nisaba/scripts/utils/rule.py
@@ -60,6 +60,7 @@ CDRewrites of the FSTs from each rule.
 """
 
 from collections.abc import Iterable, Iterator
+import csv
 import itertools as it
 import os
 from typing import NamedTuple
@@ -86,7 +87,8 @@ def rules_from_string_path(file: os.PathLike[str]) -> Iterator[Rule]:
   """Yields string rules from a text file with unweighted string maps."""
   with pathlib.Path(file).open('rt') as f:
     df = pd.read_csv(f, sep='\t', comment='#', escapechar='\\',
-                     names=['lhs', 'rhs'], na_filter=False)
+                     names=['lhs', 'rhs'], dtype=str, quoting=csv.QUOTE_NONE,
+                     na_filter=False)
     for row in df.itertuples(index=False, name='Rule'):
       if not row.lhs:
         raise ValueError('Rule expects an LHS: {}'.format(row))
-- 
2.43.0


From 5a17d907ca72640c49b8efb34e2bf6c416665408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 14/24] fix: names of sequences of characters are found

---
 nisaba/scripts/utils/unicode_strings_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index a4f45b1..9dbd0bc 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -41,7 +41,8 @@ def name_to_char(prefixes: Sequence[str], suffix: str) -> tuple[str, str]:
     uname = (prefix + ' ' + suffix).lstrip()
     try:
       char = unicodedata.lookup(uname)
-      if unicodedata.category(char) != 'Cc':
+      # A named sequence has several characters.
+      if all(unicodedata.category(c) != 'Cc' for c in char):
         char_names.append((char, uname))
     except KeyError:
       pass
-- 
2.43.0


From eb0f2bc0e7e6ac7011a6d4651bd3a222198de1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 15/24] fix: items without a destination can be filled in

---
 nisaba/scripts/utils/unicode_strings_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index 9dbd0bc..c4bd003 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -164,9 +164,11 @@ def _fill_missing_raw(pb: unicode_strings_pb2.UnicodeStrings) -> None:
     None
   """
   for item in pb.item:
-    item.raw, item.to_raw = convert_item(
+    item.raw, to_raw = convert_item(
         pb.uname_prefix, pb.to_uname_prefix, item
     )
+    if to_raw is not None:
+      item.to_raw = to_raw
 
 
 def read_textproto(
-- 
2.43.0


From 9a7c4d051f78109e84118c9f21e55e59ea2a3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 16/24] fix: derived phonemes have no symbol of their own
 unless one is given

---
 nisaba/scripts/natural_translit/phonology/modify_phon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/phonology/modify_phon.py b/nisaba/scripts/natural_translit/phonology/modify_phon.py
index a7887e8..95ab362 100644
--- a/nisaba/scripts/natural_translit/phonology/modify_phon.py
+++ b/nisaba/scripts/natural_translit/phonology/modify_phon.py
@@ -83,7 +83,7 @@ MOD = p.phon_inventory(
 def derive_with_suffix(
     phon: p.Phon,
     modifier: p.Phon,
-    new_tr: pyn.Fst = pyn.Fst()
+    new_tr: ty.FstIterable = ty.UNSPECIFIED,
 ) -> p.Phon:
   """Makes a new Phon from a phoneme Phon and a suffix Phon.
 
-- 
2.43.0


From d4937178c01e82efd5767f9a3267e90fd2ae705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 17/24] fix: rewriting repetitions from a list is obligatory

---
 nisaba/scripts/natural_translit/utils/rewrite_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/rewrite_functions.py b/nisaba/scripts/natural_translit/utils/rewrite_functions.py
index a250525..458d36d 100644
--- a/nisaba/scripts/natural_translit/utils/rewrite_functions.py
+++ b/nisaba/scripts/natural_translit/utils/rewrite_functions.py
@@ -111,6 +111,11 @@ def rewrite_word_final(
       al.EOW)
 
 
+def _reduce(repeated: pyn.FstLike, new: pyn.FstLike = '') -> pyn.Fst:
+  """Crosses a repeated string or fst with the new one or one of itself."""
+  return pyn.cross(cc.repeat(repeated), new if new else repeated)
+
+
 def rewrite_repeated(
     repeated: pyn.FstLike,
     new: pyn.FstLike = '',
@@ -130,7 +135,7 @@ def rewrite_repeated_ls(
     following: pyn.FstLike = al.EPSILON) -> pyn.Fst:
   """Rewrites a repeated string or fst. By default reduces it to one."""
   return rewrite_op(
-      fl.FstList.make(rewrite_repeated, *list_comp).union_opt(),
+      fl.FstList.make(_reduce, *list_comp).union_opt(),
       preceding,
       following)
 
-- 
2.43.0


From 35e9f5c11c66bb9e1fbfeaeb3e5c7a5becae0a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 18/24] fix: reassigning from a list is obligatory

---
 nisaba/scripts/natural_translit/utils/rewrite_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/rewrite_functions.py b/nisaba/scripts/natural_translit/utils/rewrite_functions.py
index 458d36d..d079d3c 100644
--- a/nisaba/scripts/natural_translit/utils/rewrite_functions.py
+++ b/nisaba/scripts/natural_translit/utils/rewrite_functions.py
@@ -188,7 +188,7 @@ def reassign_ls(
     following: pyn.FstLike = al.EPSILON) -> pyn.Fst:
   """Shorthand for when the op loops over a list."""
   return rewrite_op(
-      fl.FstList.make(reassign, *list_comp).union_opt(),
+      fl.FstList.make(al.realign, *list_comp).union_opt(),
       preceding,
       following)
 
-- 
2.43.0


From b4946d82c12aef4e8113e6952edfe55055336a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 19/24] fix: the workers of the decoder and its runner are
 started

---
 nisaba/translit/fst/pairlm_decoder.cc        | 1 +
 nisaba/translit/fst/pairlm_decoder_runner.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index bb6af6c..a22bae7 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -1022,6 +1022,7 @@ StdVectorFst PairLMDecoder::BuildTransliterationFst(
   std::vector<StdVectorFst> translit_fsts(input_words.size());
   {
      ThreadPool pool(max_parallel_tokens_);
+     pool.StartWorkers();
      for (int i = 0; i < input_words.size(); ++i) {
        pool.Schedule([this, i, word_k_best, &translit_fsts, &input_words,
          &fst_params] {
diff --git a/nisaba/translit/fst/pairlm_decoder_runner.cc b/nisaba/translit/fst/pairlm_decoder_runner.cc
index 6b04791..a55f521 100644
--- a/nisaba/translit/fst/pairlm_decoder_runner.cc
+++ b/nisaba/translit/fst/pairlm_decoder_runner.cc
@@ -80,6 +80,7 @@ absl::Status ParallelDecoding(const PairLMDecoderOptions &config,
       std::make_unique<PairLMDecoder>(config);
   std::unique_ptr<ThreadPool> thread_pool =
       std::make_unique<ThreadPool>(num_workers);
+  thread_pool->StartWorkers();
 
   int index = 0;
   for (const auto &input_line : input_lines) {
-- 
2.43.0


From 73f2db6bcbe9ff062dcc02810586c2814777cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 20/24] fix: candidates of segmented words are read under the
 lock

---
 nisaba/translit/fst/pairlm_decoder.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index a22bae7..acbb903 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -798,6 +798,7 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
     translit_result.SetFinal(word_final_state, StdArc::Weight::One());
     int curr_state = best_concat_strings.Start();
     QCHECK_GE(curr_state, 0) << "Each segment should have non-empty output.";
+    absl::MutexLock lock(fst_params.mutex);
     for (ArcIterator<StdVectorFst> aiter(best_concat_strings, curr_state);
          !aiter.Done(); aiter.Next()) {
       // Initializes new_symbol and cost with first arc in path, then
@@ -821,10 +822,8 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
         next_state = next_arc.nextstate;
       }
       cost += best_concat_strings.Final(next_state).Value();
-      fst_params.mutex.lock();
       AddCandSymArc(new_symbol, cost, word_final_state, fst_params,
                     &translit_result);
-      fst_params.mutex.unlock();
     }
   }
   return translit_result;
-- 
2.43.0


From 8eb5754b40db5e453f2da610293486c229049a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 21/24] fix: a word that occurs twice in a line is mixed once

---
 nisaba/translit/fst/pairlm_decoder.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index acbb903..5a1d742 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -953,17 +953,14 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
   }
 
   // If the word is marked as mixed, no need to mix or cache again, so return
-  // right away.
-  fst_params.mutex.lock_shared();
-  const bool override = fst_params.mixed_with_precomputed.at(input_word);
-  fst_params.mutex.unlock_shared();
-  if (override) {
+  // right away. The lock is held until the mixing is done, as the same word may
+  // occur elsewhere in the line.
+  absl::MutexLock lock(fst_params.mutex);
+  if (fst_params.mixed_with_precomputed.at(input_word)) {
     // Returns cached word transliterations.
-    absl::ReaderMutexLock lock(fst_params.mutex);
     return fst_params.word_transliteration_cache.at(input_word);
   }
 
-  fst_params.mutex.lock();
   // Adds Fst weighting to final state of Fst automaton prior to union.
   QCHECK_EQ(word_transliterations.NumStates(), 2);
   QCHECK_EQ(word_transliterations.Start(), 0);
@@ -988,7 +985,7 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
   // preventing this caching code from being reached twice for the same input
   // word.
   if (add_to_cache_) {
-    absl::MutexLock lock(mutex_);
+    absl::MutexLock global_lock(mutex_);
     const int curr_state = word_transliterations.Start();
     for (ArcIterator<StdVectorFst> aiter(word_transliterations, curr_state);
          !aiter.Done(); aiter.Next()) {
@@ -998,7 +995,6 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
     }
     mix_overrides_.emplace(input_word);
   }
-  fst_params.mutex.unlock();
 
   return word_transliterations;
 }
-- 
2.43.0


From 31d04e866366a24e94b9da2ac5a05b8d8c2bfedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 22/24] fix: what is known of a word is read at once

---
 nisaba/translit/fst/pairlm_decoder.cc | 26 +++++++++++++++-----------
 nisaba/translit/fst/pairlm_decoder.h  |  5 +++--
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index 5a1d742..84b0e42 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -829,18 +829,27 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
   return translit_result;
 }
 
-void PairLMDecoder::ExtractCachedWordTransliterations(
+bool PairLMDecoder::ExtractCachedWordTransliterations(
     absl::string_view input_word, TranslitContext &fst_params,
     StdVectorFst &cached) {
+  // Reads both under one lock, since another line may be adding the mixture for
+  // this word to the cache.
   mutex_.lock_shared();
-  const auto cached_pairs = global_word_transliteration_cache_.at(input_word);
+  const bool override = mix_overrides_.contains(input_word);
+  absl::flat_hash_map<std::string, double> cached_pairs;
+  const auto it = global_word_transliteration_cache_.find(input_word);
+  if (it != global_word_transliteration_cache_.end()) {
+    cached_pairs = it->second;
+  }
   mutex_.unlock_shared();
+  if (cached_pairs.empty()) return override;
   for (const auto &pair : cached_pairs) {
     AddCandSymArc(pair.first, pair.second,
                   /*destination_state=*/1, fst_params, &(cached));
   }
   impl::PushInLogSemiring(&(cached),
                           /*determinize=*/true);
+  return override;
 }
 
 StdVectorFst PairLMDecoder::TransliterateUnsegmentedWord(
@@ -909,20 +918,15 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
   if (!fst_params.word_transliteration_cache.contains(input_word)) {
     // Adds input_word since it has not been seen before.
     fst_params.input_syms.AddSymbol(input_word);
-    // Add premixed.
-    mutex_.lock_shared();
-    const bool override = mix_overrides_.contains(input_word);
-    mutex_.unlock_shared();
-    fst_params.mixed_with_precomputed.insert_or_assign(input_word, override);
     //  Add global cache.
     StdVectorFst cached;
     cached.SetStart(cached.AddState());
     cached.SetFinal(cached.AddState(), StdArc::Weight::One());
-    const bool vocab_check = CheckCache(input_word);
-    if (vocab_check) {
-      ExtractCachedWordTransliterations(input_word, fst_params, cached);
-    }
+    const bool override =
+        ExtractCachedWordTransliterations(input_word, fst_params, cached);
     fst_params.word_transliteration_cache.insert_or_assign(input_word, cached);
+    // Add premixed.
+    fst_params.mixed_with_precomputed.insert_or_assign(input_word, override);
   }
   fst_params.mutex.unlock();
   fst_params.mutex.lock_shared();
diff --git a/nisaba/translit/fst/pairlm_decoder.h b/nisaba/translit/fst/pairlm_decoder.h
index 6d9a07b..9a4320c 100644
--- a/nisaba/translit/fst/pairlm_decoder.h
+++ b/nisaba/translit/fst/pairlm_decoder.h
@@ -159,8 +159,9 @@ class PairLMDecoder {
   void BuildCandToLMFst(absl::string_view new_symbol,
                         ::fst::StdVectorFst *cand_to_lm);
 
-  // Build FST containing transliterations from global cache
-  void ExtractCachedWordTransliterations(absl::string_view input_word,
+  // Build FST containing transliterations from global cache, if any. Returns
+  // whether these are not to be mixed with those of the pair LM.
+  bool ExtractCachedWordTransliterations(absl::string_view input_word,
                                          TranslitContext &fst_params,
                                          ::fst::StdVectorFst &cached);
 
-- 
2.43.0


From af7e7899f5a11409414f37133b44790c5b3ae78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:38 +0000
Subject: [PATCH 23/24] fix: the configured mixture weight is kept

---
 nisaba/translit/fst/pairlm_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index 84b0e42..f03c502 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -411,6 +411,7 @@ void PairLMDecoder::InitializePairLMDecoder(
                              : kDefaultMaxParallelTokens;
   oov_cost_ =
       pairlm_config.has_oov_cost() ? pairlm_config.oov_cost() : kOOVCost;
+  pairlm_translit_weight_ = kDefaultMixWeight;
   InitializeExternalTransliterations(pairlm_config);
   max_word_cands_ = pairlm_config.has_max_word_cands()
                         ? pairlm_config.max_word_cands()
@@ -421,7 +422,6 @@ void PairLMDecoder::InitializePairLMDecoder(
   min_cand_posterior_ = pairlm_config.has_min_cand_posterior()
                             ? pairlm_config.min_cand_posterior()
                             : kMinCandPosterior;
-  pairlm_translit_weight_ = kDefaultMixWeight;
   sample_from_k_best_ = pairlm_config.sample_from_k_best();
   if (pairlm_config.has_random_seed()) {
     random_seed_ = pairlm_config.random_seed();
-- 
2.43.0


From 8cc491a86672592c86fb790be0e83bc2d5c6fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 24/24] fix: a segment that occurs as a word later has its
 symbol

---
 nisaba/translit/fst/pairlm_decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index f03c502..c78a6aa 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -869,6 +869,9 @@ StdVectorFst PairLMDecoder::TransliterateUnsegmentedWord(
     cached.SetStart(cached.AddState());
     cached.SetFinal(cached.AddState(), StdArc::Weight::One());
     ExtractCachedWordTransliterations(input_word, fst_params, cached);
+    // This may be a segment of a word, which then is not looked up as new when
+    // it occurs as a word itself.
+    fst_params.input_syms.AddSymbol(input_word);
     fst_params.mixed_with_precomputed.insert_or_assign(input_word, true);
     fst_params.word_transliteration_cache.insert_or_assign(input_word, cached);
     return cached;
-- 
2.43.0

