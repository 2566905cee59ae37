// Every small vocabulary in every order, with every short word, through the
// word-piece segmenter, against merging by definition.
#include <fstream>

#include "harness.h"
#include "nisaba/translit/fst/wordpiece-segmenter.h"

namespace {

using nisaba::translit::fst::WordpieceSegmenter;
using Strings = std::vector<std::string>;
mc::Reporter r;

// Merges, of all neighbours that together are a word piece, those with the best
// rank, the leftmost first, until there are none.
Strings Segment(const Strings &vocabulary, const std::string &prefix,
                const std::string &text) {
  std::map<std::string, int> rank;
  for (size_t i = 0; i < vocabulary.size(); ++i)
    rank.insert({vocabulary[i], static_cast<int>(i)});
  Strings all;
  for (auto &word : mc::Words(text)) {
    Strings pieces;
    mc::Utf8Split(prefix + word, &pieces);
    while (true) {
      int best = -1, best_rank = 0;
      for (size_t i = 0; i + 1 < pieces.size(); ++i) {
        auto it = rank.find(pieces[i] + pieces[i + 1]);
        if (it != rank.end() && (best < 0 || it->second < best_rank)) {
          best = i;
          best_rank = it->second;
        }
      }
      if (best < 0) break;
      pieces[best] += pieces[best + 1];
      pieces.erase(pieces.begin() + best + 1);
    }
    all.insert(all.end(), pieces.begin(), pieces.end());
  }
  return all;
}

std::string Join(const Strings &v) {
  std::string s;
  for (auto &x : v) s += (s.empty() ? "" : " ") + x;
  return s;
}

void Check(const std::string &part, const WordpieceSegmenter &seg,
           const Strings &vocabulary, const std::string &prefix,
           const std::string &text) {
  const Strings want = Segment(vocabulary, prefix, text);
  r.Case(part, 2);
  const std::string name = mc::Show(vocabulary) + " " + prefix + " " + text;
  const auto got = seg.GetWordpieces(text);
  if (!got.ok() || *got != want)
    r.Bad(part, "GetWordpieces", name, got.ok() ? mc::Show(*got) : "error",
          mc::Show(want));
  if (text.size() > 3) return;
  const auto view = seg.GetWordpieces(absl::string_view(text));
  if (!view.ok() || *view != want)
    r.Bad(part, "GetWordpieces of a view", name,
          view.ok() ? mc::Show(*view) : "error", mc::Show(want));
  const auto line = seg.TokenizeInput(text);
  if (!line.ok() || *line != Join(want))
    r.Bad(part, "TokenizeInput", name, line.ok() ? *line : "error", Join(want));
}

void Transducer(const WordpieceSegmenter &seg, const Strings &vocabulary,
                const std::string &prefix, const std::vector<int> &words,
                const ::fst::SymbolTable &word_syms,
                const ::fst::SymbolTable &piece_syms, const std::string &unk) {
  const std::string part = "transducers";
  r.Case(part, words.size() + 1);
  std::string name = mc::Show(vocabulary) + " " + unk + ":";
  bool known = true;
  std::multimap<int, std::vector<int>> want;
  for (int w : words) {
    name += " " + word_syms.Find(w);
    std::vector<int> labels;
    for (auto &p : Segment(vocabulary, prefix, word_syms.Find(w))) {
      int l = piece_syms.Find(p);
      if (l < 0) l = piece_syms.Find(unk);
      if (l < 0) known = false;
      labels.push_back(l);
    }
    want.insert({w, labels});
  }
  const auto got = seg.GetWordpieceTransducer(words, word_syms, piece_syms, unk);
  if (got.ok() != known) {
    r.Bad(part, "status", name, got.ok() ? "ok" : "error",
          known ? "ok" : "error");
    return;
  }
  if (!known) return;
  // Cycles at the start state, which is final; nothing else is.
  std::multimap<int, std::vector<int>> loops;
  bool shape = got->Start() >= 0 &&
               got->Final(got->Start()) == ::fst::StdArc::Weight::One();
  std::function<void(int, int, std::vector<int>, size_t)> walk =
      [&](int state, int input, std::vector<int> out, size_t depth) {
        if (depth > 0 && state == got->Start()) {
          loops.insert({input, out});
          return;
        }
        if (depth > 60 || (depth > 0 && got->Final(state) !=
                                            ::fst::StdArc::Weight::Zero())) {
          shape = false;
          return;
        }
        for (::fst::ArcIterator<::fst::StdVectorFst> it(*got, state);
             !it.Done(); it.Next()) {
          const auto &a = it.Value();
          if (a.weight != ::fst::StdArc::Weight::One()) shape = false;
          auto o = out;
          if (a.olabel != 0) o.push_back(a.olabel);
          if (a.ilabel != 0 && input != 0) shape = false;
          walk(a.nextstate, a.ilabel != 0 ? a.ilabel : input, o, depth + 1);
        }
      };
  if (shape) walk(got->Start(), 0, {}, 0);
  auto sorted = [](const std::multimap<int, std::vector<int>> &m) {
    std::vector<std::string> v;
    for (auto &p : m) v.push_back(std::to_string(p.first) + "=" + mc::Show(p.second));
    std::sort(v.begin(), v.end());
    return mc::Show(v);
  };
  if (!shape) r.Bad(part, "shape", name, "", "");
  r.Equal(part, "paths", name, sorted(loops), sorted(want));
}

}  // namespace

int main(int argc, char **argv) {
  const int shard = atoi(argv[1]), shards = atoi(argv[2]);
  const bool thorough = atoi(argv[3]);
  const std::string dir = argv[4];
  const std::string kDefault = "\xe2\x96\x81", kKa = "\xe0\xa4\x95";
  Strings words;
  mc::Sequences<std::string>({"a", "b"}, thorough ? 8 : 6, [&](const Strings &s) {
    std::string w;
    for (auto &x : s) w += x;
    words.push_back(w);
  });
  int i = 0;
  for (const std::string &given : Strings{"", "_", "##"}) {
    const std::string prefix = given.empty() ? kDefault : given;
    Strings universe;
    mc::Sequences<std::string>({"a", "b"}, 3, [&](const Strings &s) {
      std::string w;
      for (auto &x : s) w += x;
      if (s.size() >= 2) universe.push_back(w);
      if (s.size() >= 1 && s.size() <= 2) universe.push_back(prefix + w);
    });
    universe.push_back("a");
    universe.push_back(prefix);
    mc::Sequences<std::string>(
        universe, given.empty() ? 3 : 2, [&](const Strings &vocabulary) {
          if (i++ % shards != shard) return;
          WordpieceSegmenter seg(given);
          if (!seg.InitWordpieces(vocabulary).ok())
            r.Bad("words", "InitWordpieces", mc::Show(vocabulary), "", "");
          for (auto &w : words) {
            if (vocabulary.size() == 3 && w.size() > (thorough ? 6 : 5)) continue;
            Check("words", seg, vocabulary, prefix, w);
          }
        });
  }
  // Longer chains of merges, of all ranks.
  {
    const Strings base = {"ab", "cd", "abcd", "bc", "abc", "bcd", kDefault + "a"};
    Strings v;
    std::vector<bool> used(base.size());
    std::function<void()> permute = [&] {
      if (i++ % shards == shard) {
        WordpieceSegmenter seg("");
        (void)seg.InitWordpieces(v);
        for (const char *t : {"abcd", "abcdabcd", "aabcdd", "bcdab", "cdcdab",
                              "ababcdcd", "abcabcd"})
          Check("merge orders", seg, v, kDefault, t);
      }
      for (size_t k = 0; k < base.size(); ++k) {
        if (used[k]) continue;
        used[k] = true;
        v.push_back(base[k]);
        permute();
        v.pop_back();
        used[k] = false;
      }
    };
    permute();
  }
  // Texts of several words, and vocabularies read from a file.
  const Strings kVocabulary = {kDefault + kKa, "ab", kKa + kKa, kDefault + "ab",
                               "aba", kKa + "a", "ba"};
  WordpieceSegmenter seg(""), file("");
  (void)seg.InitWordpieces(kVocabulary);
  const std::string path = dir + "/wordpieces" + argv[1];
  std::ofstream(path) << "\n" << kVocabulary[0] << "\n" << kVocabulary[1]
                      << " 17\n\n  " << kVocabulary[2] << "\tx y\n"
                      << kVocabulary[3] << "\n" << kVocabulary[4] << "\n"
                      << kVocabulary[5] << "\n \t\n" << kVocabulary[6];
  if (!file.InitWordpieces(path).ok())
    r.Bad("texts", "InitWordpieces of a file", path, "", "");
  if (file.InitWordpieces(path + ".none").ok())
    r.Bad("texts", "InitWordpieces of no file", path, "", "");
  mc::Sequences<std::string>(
      {"a", "b", kKa, " ", "\t", "\xe3\x80\x80"}, thorough ? 7 : 6,
      [&](const Strings &s) {
        if (i++ % shards != shard) return;
        std::string text;
        for (auto &x : s) text += x;
        Check("texts", seg, kVocabulary, kDefault, text);
        Check("texts", file, kVocabulary, kDefault, text);
      });
  // Transducers of all short lists of words.
  ::fst::SymbolTable word_syms, piece_syms;
  word_syms.AddSymbol("<eps>");
  piece_syms.AddSymbol("<eps>");
  for (auto &w : Strings{"ab", "ba", "aab", kKa, "ab ba", "c"}) word_syms.AddSymbol(w);
  for (auto &p : Strings{"a", kDefault + "ab", "ba", kDefault, "<unk>", "ab"})
    piece_syms.AddSymbol(p);
  mc::Sequences<int>({1, 2, 3, 4, 5, 6}, 4, [&](const std::vector<int> &list) {
    if (i++ % shards != shard) return;
    for (const char *unk : {"<unk>", "<none>"})
      Transducer(seg, kVocabulary, kDefault, list, word_syms, piece_syms, unk);
  });
  r.Done();
  return 0;
}
