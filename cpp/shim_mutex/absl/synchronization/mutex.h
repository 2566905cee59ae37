// Stand-in for absl/synchronization/mutex.h over the controlled scheduler, beside the real one,
// which the other headers of Abseil use: only names used after this header are redirected.
// To be included before everything else (-include).
#ifndef MC_SHIM_MUTEX_RW_H_
#define MC_SHIM_MUTEX_RW_H_

#include <functional>

#include_next "absl/synchronization/mutex.h"

// Everything of Abseil that uses the real mutex comes first.
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/random/random.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
#include "mcsched.h"

namespace mc_absl {

class Condition {
 public:
  Condition(bool (*f)(void *), void *arg) : f_([f, arg] { return f(arg); }) {}
  template <class T>
  Condition(bool (*f)(T *), T *arg) : f_([f, arg] { return f(arg); }) {}
  template <class T>
  Condition(T *o, bool (T::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <class T>
  Condition(const T *o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  template <class T>
  Condition(T *o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  explicit Condition(const bool *b) : f_([b] { return *b; }) {}
  template <class T, class = decltype(std::declval<const T &>()())>
  explicit Condition(const T *f) : f_([f] { return (*f)(); }) {}
  const std::function<bool()> &fn() const { return f_; }

 private:
  std::function<bool()> f_;
};

class Mutex {
 public:
  Mutex() = default;
  Mutex(const Mutex &) = delete;
  void Lock() { m_.Lock(); }
  void Unlock() { m_.Unlock(); }
  bool TryLock() { return m_.TryLock(); }
  void lock() { m_.Lock(); }
  void unlock() { m_.Unlock(); }
  bool try_lock() { return m_.TryLock(); }
  void ReaderLock() { m_.LockShared(); }
  void ReaderUnlock() { m_.UnlockShared(); }
  void lock_shared() { m_.LockShared(); }
  void unlock_shared() { m_.UnlockShared(); }
  void WriterLock() { m_.Lock(); }
  void WriterUnlock() { m_.Unlock(); }
  void AssertHeld() const { m_.AssertHeld(); }
  void AssertReaderHeld() const { m_.AssertSharedHeld(); }
  void Await(const Condition &c) { m_.Await(c.fn()); }
  void LockWhen(const Condition &c) {
    m_.Lock();
    m_.Await(c.fn());
  }
  mc::Mutex *impl() { return &m_; }

 private:
  mc::Mutex m_;
};

class MutexLock {
 public:
  explicit MutexLock(Mutex *m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex &m) : m_(&m) { m_->Lock(); }
  MutexLock(Mutex *m, const Condition &c) : m_(m) { m_->LockWhen(c); }
  MutexLock(Mutex &m, const Condition &c) : m_(&m) { m_->LockWhen(c); }
  MutexLock(const MutexLock &) = delete;
  ~MutexLock() { m_->Unlock(); }

 private:
  Mutex *const m_;
};

class ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex *m) : m_(m) { m_->ReaderLock(); }
  explicit ReaderMutexLock(Mutex &m) : m_(&m) { m_->ReaderLock(); }
  ReaderMutexLock(const ReaderMutexLock &) = delete;
  ~ReaderMutexLock() { m_->ReaderUnlock(); }

 private:
  Mutex *const m_;
};

class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex *m) : m_(m) { m_->Lock(); }
  explicit ReleasableMutexLock(Mutex &m) : m_(&m) { m_->Lock(); }
  ~ReleasableMutexLock() {
    if (m_ != nullptr) m_->Unlock();
  }
  void Release() {
    m_->Unlock();
    m_ = nullptr;
  }

 private:
  Mutex *m_;
};

class CondVar {
 public:
  void Wait(Mutex *m) { c_.Wait(m->impl()); }
  void Signal() { c_.SignalOne(); }
  void SignalAll() { c_.SignalAll(); }

 private:
  mc::CondVar c_;
};

}  // namespace mc_absl

namespace absl {
ABSL_NAMESPACE_BEGIN
using McMutex = ::mc_absl::Mutex;
using McMutexLock = ::mc_absl::MutexLock;
using McReaderMutexLock = ::mc_absl::ReaderMutexLock;
using McReleasableMutexLock = ::mc_absl::ReleasableMutexLock;
using McCondition = ::mc_absl::Condition;
using McCondVar = ::mc_absl::CondVar;
ABSL_NAMESPACE_END
}  // namespace absl
#define Mutex McMutex
#define MutexLock McMutexLock
#define WriterMutexLock McMutexLock
#define ReaderMutexLock McReaderMutexLock
#define ReleasableMutexLock McReleasableMutexLock
#define Condition McCondition
#define CondVar McCondVar

#endif  // MC_SHIM_MUTEX_RW_H_
