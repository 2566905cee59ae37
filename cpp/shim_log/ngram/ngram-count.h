// Stand-in for OpenGrm's n-gram counter at order 1: the weight of every label
// is the total weight of the paths through its arcs, in an acyclic automaton.
// The counts are a one-state automaton with negative log counts, and the
// total weight of all paths as final weight.
#ifndef MC_NGRAM_COUNT_H_
#define MC_NGRAM_COUNT_H_

#include <map>
#include <vector>

#include "fst/shortest-distance.h"
#include "fst/vector-fst.h"

namespace fst {
#ifndef MC_NO_LOG64_ALIAS
using Log64Weight = LogWeightTpl<double>;
#endif
}  // namespace fst

namespace ngram {

template <class W>
class NGramCounter {
 public:
  explicit NGramCounter(int order, bool = false) {
    if (order != 1) abort();
  }

  template <class Arc>
  bool Count(const ::fst::VectorFst<Arc> &f) {
    if (f.Start() < 0) return false;
    std::vector<typename Arc::Weight> before, after;
    ::fst::ShortestDistance(f, &before, false);
    ::fst::ShortestDistance(f, &after, true);
    const auto zero = Arc::Weight::Zero();
    auto at = [&](const std::vector<typename Arc::Weight> &v, int s) {
      return s < static_cast<int>(v.size()) ? v[s] : zero;
    };
    for (int s = 0; s < f.NumStates(); ++s) {
      for (::fst::ArcIterator<::fst::VectorFst<Arc>> i(f, s); !i.Done(); i.Next()) {
        const auto &a = i.Value();
        const auto w = Times(at(before, s), Times(a.weight, at(after, a.nextstate)));
        if (w == zero || a.ilabel == 0) continue;
        const auto found = counts_.find(a.ilabel);
        if (found == counts_.end())
          counts_.emplace(a.ilabel, W(w.Value()));
        else
          found->second = Plus(found->second, W(w.Value()));
      }
    }
    total_ = Plus(total_, W(at(after, f.Start()).Value()));
    return true;
  }

  template <class Arc>
  void GetFst(::fst::VectorFst<Arc> *f) const {
    f->DeleteStates();
    const int s = f->AddState();
    f->SetStart(s);
    for (const auto &c : counts_)
      f->AddArc(s, Arc(c.first, c.first, typename Arc::Weight(c.second.Value()), s));
    f->SetFinal(s, typename Arc::Weight(total_.Value()));
  }

 private:
  std::map<int, W> counts_;
  W total_ = W::Zero();
};

}  // namespace ngram

#endif  // MC_NGRAM_COUNT_H_
