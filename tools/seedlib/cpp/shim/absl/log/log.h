// Stand-in for absl/log of newer Abseil releases: messages go nowhere, fatal
// ones end the process with status 70.
#ifndef MC_SHIM_ABSL_LOG_H_
#define MC_SHIM_ABSL_LOG_H_

#include <cstdlib>
#include <iostream>
#include <sstream>

#undef LOG
#undef VLOG
#undef CHECK
#undef CHECK_EQ
#undef CHECK_NE
#undef CHECK_LT
#undef CHECK_LE
#undef CHECK_GT
#undef CHECK_GE
#undef DCHECK
#undef DCHECK_EQ
#undef DCHECK_NE
#undef DCHECK_LT
#undef DCHECK_LE
#undef DCHECK_GT
#undef DCHECK_GE

namespace mc_log {
class Message {
 public:
  explicit Message(bool fatal) : fatal_(fatal) {}
  ~Message() {
    if (fatal_) {
      std::cerr << "FATAL: " << out_.str() << std::endl;
      std::_Exit(70);
    }
  }
  template <class T>
  Message &operator<<(const T &x) {
    if constexpr (requires_stream<T>::value) out_ << x;
    return *this;
  }

 private:
  template <class T, class = void>
  struct requires_stream : std::false_type {};
  template <class T>
  struct requires_stream<T, std::void_t<decltype(std::declval<std::ostream &>()
                                                 << std::declval<const T &>())>>
      : std::true_type {};
  bool fatal_;
  std::ostringstream out_;
};
struct Voidify {
  void operator&(const Message &) {}
};
enum Severity { INFO_ = 0, WARNING_ = 0, ERROR_ = 0, FATAL_ = 1, QFATAL_ = 1 };
template <class T>
bool IsOk(const T &x) {
  if constexpr (std::is_same_v<T, bool>)
    return x;
  else
    return x.ok();
}
}  // namespace mc_log

#define LOG(severity) ::mc_log::Message(::mc_log::severity##_ == 1)
#define VLOG(n) ::mc_log::Message(false)
#define CHECK(c) \
  (c) ? (void)0 : ::mc_log::Voidify() & ::mc_log::Message(true) << #c " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#undef CHECK_OK
#define CHECK_OK(s) CHECK(::mc_log::IsOk((s)))
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#define QCHECK CHECK
#define QCHECK_EQ CHECK_EQ
#define QCHECK_NE CHECK_NE
#define QCHECK_LT CHECK_LT
#define QCHECK_LE CHECK_LE
#define QCHECK_GT CHECK_GT
#define QCHECK_GE CHECK_GE
#define QCHECK_OK CHECK_OK

#endif  // MC_SHIM_ABSL_LOG_H_
