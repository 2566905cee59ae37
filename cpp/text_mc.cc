// Every short byte string and every code point through nisaba/port's UTF-8
// functions, against the tables of the Unicode standard.
#include <set>

#include "absl/strings/str_split.h"
#include "harness.h"
#include "nisaba/port/unicode_properties.h"
#include "nisaba/port/utf8_delimiters.h"
#include "nisaba/port/utf8_util.h"

namespace {

namespace n = nisaba::utf8;
mc::Reporter r;

void Text(const std::string &part, const std::string &s) {
  r.Case(part, 5);
  std::vector<std::string> chars;
  const bool valid = mc::Utf8Split(s, &chars);
  std::vector<int> codes;
  if (!valid) chars.clear();
  for (auto &c : chars) codes.push_back(mc::Utf8Value(c));
  if (n::StrSplitByChar(s) != chars)
    r.Bad(part, "StrSplitByChar", s, mc::Show(n::StrSplitByChar(s)),
          mc::Show(chars));
  if (n::StrSplitByCharToUnicode(s) != codes)
    r.Bad(part, "StrSplitByCharToUnicode", s,
          mc::Show(n::StrSplitByCharToUnicode(s)), mc::Show(codes));
  // The first character, how many bytes it has; 1 and the replacement character
  // if the text is not valid.
  int got_c = -1, want_c = 0, want_n = 1;
  const int got_n = n::DecodeUnicodeChar(s, &got_c);
  if (!valid) {
    want_c = n::kBadUTF8Char;
  } else if (!s.empty()) {
    want_c = codes[0];
    want_n = chars[0].size();
  }
  if (got_c != want_c || got_n != want_n)
    r.Bad(part, "DecodeUnicodeChar", s, mc::Show({got_n, got_c}),
          mc::Show({want_n, want_c}));
  got_c = -1;
  const bool got = n::DecodeSingleUnicodeChar(s, &got_c);
  const bool want = valid && chars.size() == 1;
  if (got != want || (want && got_c != codes[0]) ||
      (!want && got_c != n::kBadUTF8Char && !s.empty()))
    r.Bad(part, "DecodeSingleUnicodeChar", s, mc::Show({got, got_c}),
          mc::Show({want, want ? codes[0] : n::kBadUTF8Char}));
  if (!valid) return;
  // Delimiters: the first one at or after every character boundary.
  const n::Utf8WhitespaceDelimiter delimiter;
  for (size_t i = 0, pos = 0; i <= chars.size(); ++i) {
    size_t at = pos, k = i;
    while (k < chars.size() && !mc::IsWhiteSpace(codes[k])) at += chars[k++].size();
    const size_t len = k < chars.size() ? chars[k].size() : 0;
    const absl::string_view view(s);
    const absl::string_view found = delimiter.Find(view, pos);
    if (found.data() != view.data() + at || found.size() != len)
      r.Bad(part, "Find", s,
            mc::Show({static_cast<int>(found.data() - view.data()),
                      static_cast<int>(found.size())}),
            mc::Show({static_cast<int>(at), static_cast<int>(len)}));
    if (i < chars.size()) pos += chars[i].size();
  }
  const std::vector<std::string> words =
      absl::StrSplit(s, n::Utf8WhitespaceDelimiter(), absl::SkipEmpty());
  if (words != mc::Words(s))
    r.Bad(part, "split at whitespace", s, mc::Show(words),
          mc::Show(mc::Words(s)));
}

void CodePoints() {
  for (int c = 0; c < 0x110000; ++c) {
    if (c >= 0xd800 && c < 0xe000) continue;
    const std::string s = n::EncodeUnicodeChar(c);
    if (s != mc::Utf8(c))
      r.Bad("code points", "EncodeUnicodeChar", std::to_string(c), s,
            mc::Utf8(c));
    Text("code points", mc::Utf8(c));
  }
  // The three sets of whitespace.
  const auto breaking = n::GetBreakingWhitespaceChars();
  const auto other = n::GetNonBreakingWhitespaceChars();
  const auto all = n::GetAllWhitespaceChars();
  const std::set<int> kOther = {0x180e, 0x200b, 0x200c, 0x200d, 0x2060, 0xfeff};
  size_t nb = 0, no = 0;
  for (int c = 0; c < 0x110000; ++c) {
    const bool b = breaking.count(c), o = other.count(c), a = all.count(c);
    nb += b;
    no += o;
    r.Case("whitespace sets", 3);
    if (b != mc::IsWhiteSpace(c))
      r.Bad("whitespace sets", "breaking", std::to_string(c),
            std::to_string(b), std::to_string(!b));
    if (o != (kOther.count(c) > 0))
      r.Bad("whitespace sets", "not breaking", std::to_string(c),
            std::to_string(o), std::to_string(!o));
    if (a != (b || o))
      r.Bad("whitespace sets", "all", std::to_string(c), std::to_string(a),
            std::to_string(!a));
  }
  if (nb != breaking.size() || no != other.size() || all.size() != nb + no)
    r.Bad("whitespace sets", "size", "", std::to_string(all.size()),
          std::to_string(nb + no));
}

}  // namespace

int main(int argc, char **argv) {
  const int shard = atoi(argv[1]), shards = atoi(argv[2]);
  const bool thorough = atoi(argv[3]);
  // Ends of every range of the table, and whitespace.
  const std::vector<int> kBytes = {
      0x00, 0x09, 0x20, 0x41, 0x7f, 0x80, 0x85, 0x8a, 0x8f, 0x90, 0x9a,
      0x9f, 0xa0, 0xaf, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xe2, 0xe3,
      0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff};
  const std::vector<int> kFew = {0x09, 0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf,
                                 0xc2, 0xe0, 0xe2, 0xed, 0xf0, 0xf4};
  const std::vector<int> kWords = {'a', ' ', '\n', 0x3000, 0x85, 0x915, 0x200b,
                                   0x1f600, 0x2028};
  auto bytes = [&](const std::string &part, const std::vector<int> &alphabet,
                   int n) {
    int i = 0;
    mc::Sequences<int>(alphabet, 1, [&](const std::vector<int> &first) {
      if (first.empty()) {
        if (shard == 0) Text(part, "");
        return;
      }
      if (i++ % shards != shard) return;
      mc::Sequences<int>(alphabet, n - 1, [&](const std::vector<int> &rest) {
        std::string s(1, static_cast<char>(first[0]));
        for (int b : rest) s += static_cast<char>(b);
        Text(part, s);
      });
    });
  };
  if (shard == 0) CodePoints();
  std::vector<int> every;
  for (int b = 0; b < 256; ++b) every.push_back(b);
  bytes("all bytes", every, thorough ? 3 : 2);
  bytes("bytes at range ends", kBytes, thorough ? 5 : 4);
  bytes("few bytes", kFew, thorough ? 6 : 5);
  const int length = thorough ? 7 : 5;
  int i = 0;
  for (int first : kWords) {
    if (i++ % shards != shard) continue;
    mc::Sequences<int>(kWords, length - 1, [&](const std::vector<int> &rest) {
      std::string s = mc::Utf8(first);
      for (int c : rest) s += mc::Utf8(c);
      Text("texts of words", s);
    });
  }
  r.Done();
  return 0;
}
