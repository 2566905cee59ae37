// Runs the decoder of nisaba/translit/fst on a script of commands (from the file
// in argv[1]), under the controlled scheduler. Columns are separated by tabs.
//   fst PATH | sym ID TEXT | arc FROM TO IN OUT COST | final STATE COST | write
//   decoder TEXTPROTO         the configuration from now on
//   line K TEXT               the result, by one execution
//   explore BOUND LIMIT K LINE...      all schedules, with a new decoder for each
//   runner BOUND LIMIT K WORKERS PATH  the same for the runner on a file
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

#include "fst/arcsort.h"
#include "fst/vector-fst.h"
#include "google/protobuf/text_format.h"
#include "nisaba/translit/fst/pairlm_decoder.h"
#include "nisaba/translit/fst/pairlm_decoder_options.pb.h"
#include "nisaba/translit/fst/pairlm_decoder_runner.h"

using nisaba::translit::fst::PairLMDecoder;
using nisaba::translit::fst::PairLMDecoderOptions;

namespace {

using Table = std::multimap<std::string, double>;

std::vector<std::string> Split(const std::string &s, char by) {
  std::vector<std::string> r;
  std::string word;
  for (char c : s) {
    if (c == by) {
      r.push_back(word);
      word.clear();
    } else {
      word += c;
    }
  }
  r.push_back(word);
  return r;
}

// The printed lines without their costs, which are compared apart.
Table Parse(const std::string &text) {
  Table t;
  for (const std::string &l : Split(text, '\n')) {
    const size_t tab = l.rfind('\t');
    if (tab == std::string::npos) {
      t.emplace(l, 0);
    } else {
      t.emplace(l.substr(0, tab), atof(l.c_str() + tab + 1));
    }
  }
  return t;
}

bool Same(const Table &a, const Table &b) {
  if (a.size() != b.size()) return false;
  auto i = a.begin();
  for (auto j = b.begin(); j != b.end(); ++i, ++j)
    if (i->first != j->first || fabs(i->second - j->second) > 1e-3) return false;
  return true;
}

std::string Quote(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20) {
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

std::string Decode(PairLMDecoder *decoder, const std::string &line, int k,
                   const std::string &prefix) {
  const ::fst::StdVectorFst f = decoder->TransliterateString(line, k);
  return decoder->PrintTransliterations(prefix, f);
}

void Report(const mc::Result &r, const std::string &first) {
  std::string trace;
  for (auto &e : r.trace) trace += (trace.empty() ? "" : ", ") + Quote(e);
  printf("{\"executions\": %lu, \"points\": %lu, \"deepest\": %lu, "
         "\"complete\": %s, \"violation\": %s, \"output\": %s, \"trace\": [%s]}\n",
         r.executions, r.points, r.deepest, r.complete ? "true" : "false",
         Quote(r.violation).c_str(), Quote(first).c_str(), trace.c_str());
  fflush(stdout);
}

}  // namespace

int main(int argc, char **argv) {
  mc::SetPlain(20000);
  std::ifstream in(argv[1]);
  std::string l;
  std::unique_ptr<::fst::StdVectorFst> f;
  std::unique_ptr<::fst::SymbolTable> syms;
  std::string path;
  PairLMDecoderOptions options;
  std::unique_ptr<PairLMDecoder> decoder;
  while (std::getline(in, l)) {
    const auto c = Split(l, '\t');
    if (c[0] == "fst") {
      path = c[1];
      f = std::make_unique<::fst::StdVectorFst>();
      syms = std::make_unique<::fst::SymbolTable>();
    } else if (c[0] == "sym") {
      syms->AddSymbol(c[2], atoi(c[1].c_str()));
    } else if (c[0] == "arc") {
      const int from = atoi(c[1].c_str()), to = atoi(c[2].c_str());
      while (f->NumStates() <= std::max(from, to)) f->AddState();
      f->AddArc(from, ::fst::StdArc(atoi(c[3].c_str()), atoi(c[4].c_str()), atof(c[5].c_str()), to));
    } else if (c[0] == "final") {
      f->SetFinal(atoi(c[1].c_str()), ::fst::StdArc::Weight(atof(c[2].c_str())));
    } else if (c[0] == "write") {
      f->SetStart(0);
      ::fst::ArcSort(f.get(), ::fst::StdILabelCompare());
      if (syms->NumSymbols() > 0) {
        f->SetInputSymbols(syms.get());
        f->SetOutputSymbols(syms.get());
      }
      f->Write(path);
    } else if (c[0] == "decoder") {
      options.Clear();
      if (!google::protobuf::TextFormat::ParseFromString(c[1], &options)) return 3;
      decoder.reset();
    } else if (c[0] == "line") {
      if (decoder == nullptr) decoder = std::make_unique<PairLMDecoder>(options);
      std::string out;
      const auto r = mc::Explore(
          [&] {
            const std::string o = Decode(decoder.get(), c[2], atoi(c[1].c_str()), "");
            mc::Quiet q;
            out = o;
          }, 0, 1);
      if (!r.violation.empty()) out = "violation: " + r.violation;
      printf("%s\n", Quote(out).c_str());
      fflush(stdout);
    } else if (c[0] == "explore" || c[0] == "runner") {
      std::string first;
      Table want;
      bool have = false;
      const int k = atoi(c[3].c_str());
      const auto r = mc::Explore(
          [&] {
            std::string out;
            if (c[0] == "explore") {
              PairLMDecoder d(options);
              for (size_t i = 4; i < c.size(); ++i) out += Decode(&d, c[i], k, std::to_string(i - 4));
            } else {
              const std::string file = c[5] + ".out";
              unlink(file.c_str());
              const auto status =
                  nisaba::translit::fst::RunPairLMDecoder(options, k, atoi(c[4].c_str()), c[5], file);
              std::ifstream o(file);
              std::stringstream all;
              all << o.rdbuf();
              out = status.ok() ? all.str() : "error: " + std::string(status.message());
            }
            if (!have) {
              have = true;
              first = out;
              want = Parse(out);
            } else if (!Same(Parse(out), want)) {
              mc::Fail("the result depends on the schedule: " + out + " instead of " + first);
            }
          }, atoi(c[1].c_str()), strtoull(c[2].c_str(), nullptr, 10));
      Report(r, first);
    }
  }
  printf("\"done\"\n");
  return 0;
}
