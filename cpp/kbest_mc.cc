// Small lattices, k-best lists and systems through nisaba/translit/tools' k-best
// tools, against enumeration of every path.
#include <sys/stat.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <set>

#include "harness.h"
#include "nisaba/translit/tools/kbest-full-string-util.h"

namespace {

namespace t = nisaba::translit::tools;
using Scored = std::pair<std::string, double>;
using List = std::vector<Scored>;
mc::Reporter r;
std::string g_dir;

std::string Show(const List &l) {
  std::string s;
  char b[40];
  for (auto &x : l) {
    snprintf(b, sizeof(b), "%.6g", x.second);
    s += "[" + x.first + " " + b + "]";
  }
  return s;
}

std::string Number(double x) {
  char b[40];
  snprintf(b, sizeof(b), "%.9g", x);
  return b;
}

// All ways of taking one of each, costs added, least first.
List Paths(const std::vector<List> &positions) {
  List all = {{"", 0}};
  bool first = true;
  for (auto &p : positions) {
    List next;
    for (auto &a : all)
      for (auto &b : p)
        next.emplace_back(first ? b.first : a.first + " " + b.first,
                          a.second + b.second);
    all = next;
    first = false;
  }
  std::stable_sort(all.begin(), all.end(), [](const Scored &a, const Scored &b) {
    return a.second < b.second;
  });
  return all;
}

bool Near(double a, double b, double eps) {
  return std::abs(a - b) <= eps * (1 + std::abs(a));
}

// Whether got are the k best of all (sorted): as many, in order, each with its
// own cost less the given offset, none twice; equal costs in any order.
bool IsBest(const List &got, const List &all, size_t k, bool normalized,
            double eps = 1e-5) {
  k = std::min(k, all.size());
  if (got.size() != k) return false;
  double offset = 0;
  if (normalized) {
    double sum = 0;
    for (size_t i = 0; i < k; ++i) sum += exp(-all[i].second);
    offset = -log(sum);
  }
  std::multimap<std::string, double> by_name;
  for (auto &x : all) by_name.emplace(x.first, x.second);
  for (size_t i = 0; i < k; ++i) {
    if (!Near(all[i].second - offset, got[i].second, eps)) return false;
    bool found = false;
    for (auto x = by_name.lower_bound(got[i].first);
         x != by_name.upper_bound(got[i].first); ++x) {
      if (Near(x->second - offset, got[i].second, eps)) {
        by_name.erase(x);
        found = true;
        break;
      }
    }
    if (!found) return false;
  }
  return true;
}

std::vector<std::string> Lines(const std::string &path) {
  std::vector<std::string> lines;
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) lines.push_back(l);
  return lines;
}

void Spill(const std::string &path, const std::vector<std::string> &lines) {
  std::ofstream f(path);
  for (auto &l : lines) f << l << "\n";
}

std::vector<std::string> Fields(const std::string &line) {
  std::vector<std::string> f(1);
  for (char c : line) {
    if (c == '\t')
      f.emplace_back();
    else
      f.back() += c;
  }
  return f;
}

// --- extraction ------------------------------------------------------------
struct Example {
  int index;
  std::vector<List> positions;
};

void Extract(const std::string &part, const std::vector<Example> &examples,
             bool files) {
  std::vector<std::string> lines, inputs;
  for (auto &e : examples) {
    inputs.emplace_back();
    for (size_t p = 0; p < e.positions.size(); ++p) {
      const std::string word(1, 'p' + p);
      inputs.back() += (p ? " " : "") + word;
      for (auto &x : e.positions[p])
        lines.push_back(std::to_string(e.index) + "\t" + std::to_string(p) +
                        "\t" + word + "\t" + x.first + "\t" + Number(x.second));
    }
  }
  std::string name;
  for (auto &l : lines) name += l + ";";
  t::KbestExtractor extractor(lines);
  std::vector<List> all;
  for (auto &e : examples) all.push_back(Paths(e.positions));
  for (int k : {1, 2, 3, 5, 50}) {
    r.Case(part, examples.size());
    const auto got = extractor.GetBests(k);
    if (got.size() != examples.size()) {
      r.Bad(part, "one list for each example", name, std::to_string(got.size()),
            std::to_string(examples.size()));
      continue;
    }
    for (size_t i = 0; i < got.size(); ++i)
      if (!IsBest(got[i], all[i], k, true))
        r.Bad(part, "the k best, normalized", name + " k=" + std::to_string(k),
              Show(got[i]), Show(all[i]));
    if (!files) continue;
    const std::string in = g_dir + "/lattice", out = g_dir + "/out";
    Spill(in, lines);
    t::KbestExtractor from_file(in);
    for (int score = 0; score < 2; ++score) {
      for (int full = 0; full < 2; ++full) {
        r.Case(part + ", files");
        from_file.RunExtractorAndOutput(out, k, score, full);
        std::vector<std::string> want;
        for (size_t i = 0; i < got.size(); ++i) {
          for (auto &x : got[i]) {
            std::string l = k > 1 ? (full ? inputs[i]
                                          : std::to_string(examples[i].index)) +
                                        "\t"
                                  : "";
            want.push_back(l + x.first);
          }
        }
        auto lines_out = Lines(out);
        bool ok = lines_out.size() == want.size();
        for (size_t i = 0, n = 0; ok && i < got.size(); ++i) {
          for (auto &x : got[i]) {
            std::string l = lines_out[n];
            if (score) {
              const size_t tab = l.rfind('\t');
              ok = tab != std::string::npos &&
                   Near(atof(l.c_str() + tab + 1), x.second, 1e-4);
              l = l.substr(0, tab);
            }
            ok = ok && l == want[n++];
            if (!ok) break;
          }
        }
        if (!ok)
          r.Bad(part + ", files", "lines written",
                name + " k=" + std::to_string(k), mc::Show(lines_out),
                mc::Show(want));
      }
    }
  }
}

// All lists of up to n words with costs.
std::vector<List> AllLists(const std::vector<std::string> &words,
                           const std::vector<double> &costs) {
  std::vector<List> all, level = {{}};
  for (auto &w : words) {
    std::vector<List> next;
    for (auto &l : level)
      for (double c : costs) {
        next.push_back(l);
        next.back().emplace_back(w, c);
      }
    all.insert(all.end(), next.begin(), next.end());
    level = next;
  }
  return all;
}

// --- rejoining -------------------------------------------------------------
std::string Squeeze(const std::string &s) {
  std::string w;
  for (auto &x : mc::Words(s)) w += (w.empty() ? "" : " ") + x;
  return w;
}

void Rejoin(const std::string &part, const std::vector<List> &lists,
            const std::vector<int> &groups, bool files) {
  std::vector<std::string> lines, splits;
  size_t longest = 0;
  for (size_t i = 0; i < lists.size(); ++i) {
    longest = std::max(longest, lists[i].size());
    splits.push_back(std::to_string(groups[i]));
    for (auto &x : lists[i])
      lines.push_back("in" + std::to_string(i) + "\t" + x.first + "\t" +
                      Number(x.second));
  }
  std::string name;
  for (size_t i = 0; i < lists.size(); ++i)
    name += splits[i] + ":" + Show(lists[i]) + ";";
  std::vector<std::vector<List>> by_group(groups.back() + 1);
  for (size_t i = 0; i < lists.size(); ++i) by_group[groups[i]].push_back(lists[i]);
  for (int k : {-1, 1, 2, 3, 20}) {
    const size_t best = k > 0 ? k : longest;
    const std::string in = g_dir + "/lists", split = g_dir + "/split",
                      out = g_dir + "/out";
    if (files) {
      Spill(in, lines);
      Spill(split, splits);
    }
    t::KbestRejoiner from_lines(lines, groups, k);
    std::unique_ptr<t::KbestRejoiner> from_files(
        files ? new t::KbestRejoiner(in, split, k) : nullptr);
    const t::KbestRejoiner &j = files ? *from_files : from_lines;
    r.Case(part, by_group.size());
    if (j.NumKbestLists() != static_cast<int>(by_group.size()) ||
        !j.GetRejoinedList(by_group.size()).empty()) {
      r.Bad(part, "one list for each index", name,
            std::to_string(j.NumKbestLists()), std::to_string(by_group.size()));
      continue;
    }
    std::vector<std::string> want_lines;
    for (size_t g = 0; g < by_group.size(); ++g) {
      const List got = j.GetRejoinedList(g);
      List all = Paths(by_group[g]);
      for (auto &x : all) x.first = Squeeze(x.first);
      bool ok;
      if (by_group[g].size() > 1) {
        ok = IsBest(got, all, best, false);
      } else {  // A list of its own comes back whole (or cut at k).
        List same = by_group[g][0];
        for (auto &x : same) x.first = Squeeze(x.first);
        ok = got.size() == same.size() || got.size() == best;
        for (size_t i = 0; ok && i < got.size(); ++i)
          ok = got[i].first == same[i].first &&
               Near(got[i].second, same[i].second, 1e-9);
      }
      if (!ok)
        r.Bad(part, "the k best joined", name + " k=" + std::to_string(k) +
              " index " + std::to_string(g), Show(got), Show(all));
      for (auto &x : got)
        want_lines.push_back(std::to_string(g) + "\t" + x.first + "\t" +
                             std::to_string(x.second));
    }
    if (files) {
      r.Case(part + ", files");
      from_files->RunRejoinerAndOutput(out);
      r.Equal(part + ", files", "lines written", name, mc::Show(Lines(out)),
              mc::Show(want_lines));
    }
  }
}

// --- ensembles -------------------------------------------------------------
// All results allowed: one for each most frequent length.
std::vector<List> Ensembles(const List &candidates, int length) {
  std::map<int, int> lengths;
  for (auto &c : candidates) ++lengths[mc::Words(c.first).size()];
  std::set<int> allowed;
  int most = 0;
  for (auto &l : lengths) most = std::max(most, l.second);
  if (length > 0 && lengths.size() > 1) {
    allowed.insert(length);
  } else {
    for (auto &l : lengths)
      if (l.second == most) allowed.insert(l.first);
  }
  std::vector<List> results;
  for (int n : allowed) {
    std::vector<std::map<std::string, double>> mass(n);
    for (auto &c : candidates) {
      const auto words = mc::Words(c.first);
      if (static_cast<int>(words.size()) != n) continue;
      for (int i = 0; i < n; ++i) mass[i][words[i]] += exp(-c.second);
    }
    std::vector<List> positions(n);
    for (int i = 0; i < n; ++i)
      for (auto &m : mass[i]) positions[i].emplace_back(m.first, -log(m.second));
    results.push_back(Paths(positions));
  }
  return results;
}

bool AnyBest(const List &got, const std::vector<List> &all, int k, double eps) {
  for (auto &a : all)
    if (IsBest(got, a, k, true, eps)) return true;
  return false;
}

void Ensemble(const std::string &part, const List &candidates) {
  for (int length : {0, 1, 2, 3}) {
    bool has = length == 0;
    for (auto &c : candidates)
      has |= static_cast<int>(mc::Words(c.first).size()) == length;
    if (!has) continue;
    const auto all = Ensembles(candidates, length);
    t::EnsembleFullString e(candidates);
    e.RunEnsemble(length);
    for (int k : {1, 2, 3, 50}) {
      r.Case(part);
      const List got = e.GetOutputs(k);
      if (!AnyBest(got, all, k, 2e-5))
        r.Bad(part, "products of the masses at each position",
              Show(candidates) + " length " + std::to_string(length) + " k=" +
                  std::to_string(k), Show(got), Show(all[0]));
    }
  }
}

// Systems: for each, for each example, its list.
void Files(const std::string &part, const std::vector<std::vector<List>> &systems,
           const std::vector<int> &lengths) {
  std::string names;
  for (size_t s = 0; s < systems.size(); ++s) {
    std::vector<std::string> lines;
    for (size_t i = 0; i < systems[s].size(); ++i)
      for (auto &x : systems[s][i])
        lines.push_back("in" + std::to_string(i) + "\t" + x.first + "\t" +
                        Number(x.second));
    const std::string path = g_dir + "/system" + std::to_string(s);
    Spill(path, lines);
    names += (s ? ":" : "") + path;
  }
  std::string length_file;
  if (!lengths.empty()) {
    std::vector<std::string> l;
    for (int n : lengths) l.push_back(std::to_string(n));
    length_file = g_dir + "/lengths";
    Spill(length_file, l);
  }
  for (int k : {1, 2, 50}) {
    r.Case(part);
    t::EnsembleFiles e(names, length_file);
    const std::string out = g_dir + "/out";
    e.RunEnsembleAndOutput(k, out);
    std::vector<List> got(systems[0].size());
    bool ok = true;
    int last = 0;
    for (auto &l : Lines(out)) {
      const auto f = Fields(l);
      const int i = f.size() == 3 ? atoi(f[0].c_str()) : -1;
      ok = ok && i >= last && i < static_cast<int>(got.size());
      if (!ok) break;
      last = i;
      got[i].emplace_back(f[1], atof(f[2].c_str()));
    }
    std::string name, want;
    for (size_t i = 0; i < got.size(); ++i) {
      List candidates;
      for (auto &s : systems) {
        double sum = 0;
        for (auto &x : s[i]) sum += exp(-x.second);
        for (auto &x : s[i])
          candidates.emplace_back(Squeeze(x.first), x.second + log(sum));
        name += Show(s[i]) + "/";
      }
      const auto all = Ensembles(candidates, lengths.empty() ? 0 : lengths[i]);
      want += Show(all[0]) + "/";
      ok = ok && AnyBest(got[i], all, k, 5e-5);
    }
    if (!ok) r.Bad(part, "lines written", name, mc::Show(Lines(out)), want);
  }
}

}  // namespace

int main(int argc, char **argv) {
  const int shard = atoi(argv[1]), shards = atoi(argv[2]);
  const bool thorough = atoi(argv[3]);
  g_dir = std::string(argv[4]) + "/kbest" + argv[1];
  if (mkdir(g_dir.c_str(), 0700) != 0) return 3;
  int counter = 0;
  auto mine = [&] { return counter++ % shards == shard; };

  const auto one = AllLists({"A", "B b", "C"}, {0, .5, 1.25, 2});
  for (auto &a : one)
    if (mine()) Extract("extraction", {{0, {a}}}, true);
  for (auto &a : one)
    for (auto &b : one)
      if (mine()) Extract("extraction", {{0, {a, b}}}, false);
  const auto small = AllLists({"A", "B"}, {0, 1, .3});
  for (auto &a : small)
    for (auto &b : small)
      for (auto &c : small)
        if (mine()) Extract("extraction", {{2, {a, b, c}}}, false);
  if (thorough) {
    const auto few = AllLists({"A", "B", "C"}, {0, .7});
    for (auto &a : few)
      for (auto &b : few)
        for (auto &c : few)
          for (auto &d : few)
            if (mine()) Extract("extraction", {{0, {a, b, c, d}}}, false);
  }
  // Sequences of examples, their indices with gaps.
  const std::vector<std::vector<List>> lattices = {
      {{{"A", 0}}},
      {{{"A", .2}, {"B", .1}}},
      {{{"A", .2}}, {{"B", .1}}},
      {{{"A", .2}, {"B", .2}}, {{"A", 1}, {"C", 0}}},
      {{{"A", 3}}, {{"A", 2}}, {{"A", 1}, {"D", 7}}}};
  for (int n = 1; n <= (thorough ? 4 : 3); ++n) {
    std::vector<int> pick(n, 0);
    while (true) {
      for (int gap : {1, 3}) {
        if (!mine()) continue;
        std::vector<Example> e;
        for (int i = 0; i < n; ++i)
          e.push_back({(i + gap - 1) * gap, lattices[pick[i]]});
        Extract("several examples", e, n <= 2);
      }
      int i = 0;
      while (i < n && ++pick[i] == static_cast<int>(lattices.size())) pick[i++] = 0;
      if (i == n) break;
    }
  }

  const std::vector<List> pool = {{{"a", .5}},
                                  {{"b", .25}, {"c", 1}},
                                  {{"  d\xe3\x80\x80 e ", .1}, {"f", .1}, {"g", .9}},
                                  {{"h i", 2}, {"j", 2.5}, {"k", 2.25}},
                                  {{"m", 0}, {"n", .125}, {"o", .5}, {"p", 4}}};
  for (int n = 1; n <= 4; ++n) {
    for (int bits = 0; bits < 1 << (n - 1); ++bits) {
      std::vector<int> groups = {0};
      for (int i = 1; i < n; ++i)
        groups.push_back(groups.back() + (bits >> (i - 1) & 1));
      std::vector<int> pick(n, 0);
      while (true) {
        if (mine()) {
          std::vector<List> lists;
          for (int p : pick) lists.push_back(pool[p]);
          Rejoin("rejoining", lists, groups, n <= 3);
        }
        int i = 0;
        while (i < n && ++pick[i] == static_cast<int>(pool.size())) pick[i++] = 0;
        if (i == n) break;
      }
    }
  }

  // Candidates: all lists of up to 3 (4) strings with costs.
  std::vector<Scored> strings;
  for (const char *s : {"A", "B", "A A", "A B", "B A", "B B", "A B A", "B B C"})
    for (double c : {.25, 1.}) strings.emplace_back(s, c);
  mc::Sequences<Scored>(strings, thorough ? 4 : 3, [&](const List &l) {
    if (!l.empty() && mine()) Ensemble("ensembles", l);
  });
  const std::vector<List> lists = {
      {{"A B", .5}},
      {{"A  B ", 2}, {"B\xe3\x80\x80 B", 1}},
      {{"A", 1}, {"A B", 2}, {"B A", 2}},
      {{"A B A", .1}, {"A B", .2}, {"B B", .2}}};
  for (int systems = 2; systems <= 3; ++systems) {
    for (int n = 1; n <= 2; ++n) {
      const int m = systems * n;
      std::vector<int> pick(m, 0);
      while (true) {
        if (mine()) {
          std::vector<std::vector<List>> in(systems);
          for (int i = 0; i < m; ++i) in[i / n].push_back(lists[pick[i]]);
          Files("ensembles of files", in, {});
          Files("ensembles of files", in, std::vector<int>(n, 2));
        }
        int i = 0;
        while (i < m && ++pick[i] == static_cast<int>(lists.size())) pick[i++] = 0;
        if (i == m) break;
      }
    }
  }
  r.Done();
  return 0;
}
