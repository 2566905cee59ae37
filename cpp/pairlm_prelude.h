// Included before everything else (-include): the containers through which the
// decoder's tasks share data report their accesses to the race detector.
#ifndef MC_PAIRLM_PRELUDE_H_
#define MC_PAIRLM_PRELUDE_H_

#include <map>
#include <string>
#include <utility>

#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "mcsched.h"

namespace mc_absl {

template <class Base>
class Watched : public Base {
 public:
  using Base::Base;
  Watched() = default;
  Watched(const Watched &o) : Base((mc::Note(&o, false), o)) {}
  Watched(Watched &&o) : Base((mc::Note(&o, true), std::move(o))) {}
  Watched &operator=(const Watched &o) {
    mc::Note(&o, false);
    mc::Note(this, true);
    Base::operator=(o);
    return *this;
  }
  Watched &operator=(Watched &&o) {
    mc::Note(&o, true);
    mc::Note(this, true);
    Base::operator=(std::move(o));
    return *this;
  }

#define MC_READ(name)                                                        \
  template <class B = Base, class... A>\
  auto name(A &&...a) const -> decltype(std::declval<const B &>().name(   \
      std::forward<A>(a)...)) {                                              \
    mc::Note(this, false);                                                   \
    return Base::name(std::forward<A>(a)...);                                \
  }
#define MC_READ_MUTABLE(name)                                                \
  template <class B = Base, class... A>\
  auto name(A &&...a) -> decltype(std::declval<B &>().name(               \
      std::forward<A>(a)...)) {                                              \
    mc::Note(this, false);                                                   \
    return Base::name(std::forward<A>(a)...);                                \
  }
#define MC_WRITE(name)                                                       \
  template <class B = Base, class... A>\
  auto name(A &&...a) -> decltype(std::declval<B &>().name(               \
      std::forward<A>(a)...)) {                                              \
    mc::Note(this, true);                                                    \
    return Base::name(std::forward<A>(a)...);                                \
  }
  MC_READ(contains)
  MC_READ(count)
  MC_READ(size)
  MC_READ(empty)
  MC_READ(begin)
  MC_READ(end)
  MC_READ_MUTABLE(begin)
  MC_READ_MUTABLE(end)
  MC_READ(find)
  MC_READ_MUTABLE(find)
  MC_READ(at)
  MC_READ_MUTABLE(at)
  MC_WRITE(insert)
  MC_WRITE(insert_or_assign)
  MC_WRITE(emplace)
  MC_WRITE(try_emplace)
  MC_WRITE(erase)
  MC_WRITE(clear)
  MC_WRITE(swap)
  MC_WRITE(merge)
  MC_WRITE(extract)
#undef MC_READ
#undef MC_READ_MUTABLE
#undef MC_WRITE
};

template <class K, class V>
class FlatMap : public Watched<absl::flat_hash_map<K, V>> {
 public:
  using Watched<absl::flat_hash_map<K, V>>::Watched;
  template <class Q>
  V &operator[](Q &&q) {
    mc::Note(this, true);
    return absl::flat_hash_map<K, V>::operator[](std::forward<Q>(q));
  }
};

template <class K>
class FlatSet : public Watched<absl::flat_hash_set<K>> {
 public:
  using Watched<absl::flat_hash_set<K>>::Watched;
};

}  // namespace mc_absl

namespace absl {
ABSL_NAMESPACE_BEGIN
template <class K, class V>
using McFlatMap = ::mc_absl::FlatMap<K, V>;
template <class K>
using McFlatSet = ::mc_absl::FlatSet<K>;
ABSL_NAMESPACE_END
}  // namespace absl
#define flat_hash_map McFlatMap
#define flat_hash_set McFlatSet

#endif  // MC_PAIRLM_PRELUDE_H_
