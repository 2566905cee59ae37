// What the enumerating harnesses share: counters, violations, small reference
// models. Output: one JSON object per line.
#ifndef MC_HARNESS_H_
#define MC_HARNESS_H_

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace mc {

inline std::string Quote(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof(b), "\\u%04x", c);  // a byte, shown as Latin-1
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

struct Reporter {
  std::map<std::string, std::pair<uint64_t, uint64_t>> parts;  // cases, checks
  std::map<std::string, int> bad;

  void Case(const std::string &part, uint64_t checks = 1) {
    auto &p = parts[part];
    ++p.first;
    p.second += checks;
  }
  // At most a few violations per part and kind.
  void Bad(const std::string &part, const std::string &kind,
           const std::string &input, const std::string &got,
           const std::string &want) {
    if (++bad[part + "/" + kind] > 2) return;
    printf("{\"violation\": %s, \"input\": %s, \"got\": %s, \"want\": %s}\n",
           Quote(part + ": " + kind).c_str(), Quote(input).c_str(),
           Quote(got).c_str(), Quote(want).c_str());
    fflush(stdout);
  }
  void Equal(const std::string &part, const std::string &kind,
             const std::string &input, const std::string &got,
             const std::string &want) {
    if (got != want) Bad(part, kind, input, got, want);
  }
  void Done() {
    for (auto &p : parts)
      printf("{\"part\": %s, \"cases\": %lu, \"checks\": %lu}\n",
             Quote(p.first).c_str(), p.second.first, p.second.second);
    printf("{\"done\": true}\n");
  }
};

// Calls f on every sequence of length at most n over the alphabet.
template <class T>
void Sequences(const std::vector<T> &alphabet, int n,
               const std::function<void(const std::vector<T> &)> &f) {
  std::vector<T> s;
  std::function<void(int)> go = [&](int left) {
    f(s);
    if (left == 0) return;
    for (const T &a : alphabet) {
      s.push_back(a);
      go(left - 1);
      s.pop_back();
    }
  };
  go(n);
}

// UTF-8 by the table of well-formed byte sequences (Unicode, table 3-7).
inline int Utf8Length(const unsigned char *p, size_t n) {
  auto in = [&](size_t i, int lo, int hi) {
    return i < n && p[i] >= lo && p[i] <= hi;
  };
  if (n == 0) return 0;
  const int c = p[0];
  if (c <= 0x7f) return 1;
  if (c >= 0xc2 && c <= 0xdf) return in(1, 0x80, 0xbf) ? 2 : 0;
  if (c == 0xe0) return in(1, 0xa0, 0xbf) && in(2, 0x80, 0xbf) ? 3 : 0;
  if (c == 0xed) return in(1, 0x80, 0x9f) && in(2, 0x80, 0xbf) ? 3 : 0;
  if (c >= 0xe1 && c <= 0xef)
    return in(1, 0x80, 0xbf) && in(2, 0x80, 0xbf) ? 3 : 0;
  if (c == 0xf0)
    return in(1, 0x90, 0xbf) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) ? 4 : 0;
  if (c >= 0xf1 && c <= 0xf3)
    return in(1, 0x80, 0xbf) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) ? 4 : 0;
  if (c == 0xf4)
    return in(1, 0x80, 0x8f) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) ? 4 : 0;
  return 0;
}

inline int Utf8Value(const std::string &c) {
  static const int kMask[] = {0, 0x7f, 0x1f, 0x0f, 0x07};
  int v = static_cast<unsigned char>(c[0]) & kMask[c.size()];
  for (size_t i = 1; i < c.size(); ++i)
    v = v * 64 + (static_cast<unsigned char>(c[i]) & 0x3f);
  return v;
}

// Splits into characters; false if the text is not valid UTF-8.
inline bool Utf8Split(const std::string &s, std::vector<std::string> *chars) {
  chars->clear();
  const auto *p = reinterpret_cast<const unsigned char *>(s.data());
  for (size_t i = 0; i < s.size();) {
    const int n = Utf8Length(p + i, s.size() - i);
    if (n == 0) return false;
    chars->push_back(s.substr(i, n));
    i += n;
  }
  return true;
}

inline std::string Utf8(int c) {
  std::string s;
  if (c < 0x80) {
    s += static_cast<char>(c);
  } else if (c < 0x800) {
    s += static_cast<char>(0xc0 + c / 64);
    s += static_cast<char>(0x80 + c % 64);
  } else if (c < 0x10000) {
    s += static_cast<char>(0xe0 + c / 4096);
    s += static_cast<char>(0x80 + c / 64 % 64);
    s += static_cast<char>(0x80 + c % 64);
  } else {
    s += static_cast<char>(0xf0 + c / 262144);
    s += static_cast<char>(0x80 + c / 4096 % 64);
    s += static_cast<char>(0x80 + c / 64 % 64);
    s += static_cast<char>(0x80 + c % 64);
  }
  return s;
}

// The characters with the Unicode property White_Space.
inline bool IsWhiteSpace(int c) {
  return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xa0 ||
         c == 0x1680 || (c >= 0x2000 && c <= 0x200a) || c == 0x2028 ||
         c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000;
}

inline std::vector<std::string> Words(const std::string &text) {
  std::vector<std::string> chars, words(1);
  Utf8Split(text, &chars);
  for (auto &c : chars) {
    if (!IsWhiteSpace(Utf8Value(c)))
      words.back() += c;
    else if (!words.back().empty())
      words.emplace_back();
  }
  if (words.back().empty()) words.pop_back();
  return words;
}

inline std::string Show(const std::vector<std::string> &v) {
  std::string r;
  for (auto &x : v) r += "[" + x + "]";
  return r;
}
inline std::string Show(const std::vector<int> &v) {
  std::string r;
  for (int x : v) r += std::to_string(x) + " ";
  return r;
}

}  // namespace mc

#endif  // MC_HARNESS_H_
