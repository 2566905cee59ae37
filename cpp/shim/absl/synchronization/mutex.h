// Stand-in for absl/synchronization/mutex.h over the controlled scheduler.
#ifndef MC_SHIM_ABSL_MUTEX_H_
#define MC_SHIM_ABSL_MUTEX_H_

#include <functional>
#include <limits>

#include "absl/base/thread_annotations.h"
#include "mcsched.h"

namespace absl {

class Condition {
 public:
  Condition(bool (*f)(void *), void *arg) : f_([f, arg] { return f(arg); }) {}
  template <class T>
  Condition(bool (*f)(T *), T *arg) : f_([f, arg] { return f(arg); }) {}
  template <class T>
  Condition(T *o, bool (T::*m)()) : f_([o, m] { return (o->*m)(); }) {}
  template <class T>
  Condition(const T *o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  template <class T>
  Condition(T *o, bool (T::*m)() const) : f_([o, m] { return (o->*m)(); }) {}
  explicit Condition(const bool *b) : f_([b] { return *b; }) {}
  template <class T, class = decltype(std::declval<const T &>()())>
  explicit Condition(const T *f) : f_([f] { return (*f)(); }) {}
  bool Eval() const { return f_(); }
  const std::function<bool()> &fn() const { return f_; }

 private:
  std::function<bool()> f_;
};

class ABSL_LOCKABLE Mutex {
 public:
  Mutex() = default;
  Mutex(const Mutex &) = delete;
  void Lock() { m_.Lock(); }
  void Unlock() { m_.Unlock(); }
  bool TryLock() { return m_.TryLock(); }
  void lock() { m_.Lock(); }
  void unlock() { m_.Unlock(); }
  bool try_lock() { return m_.TryLock(); }
  void ReaderLock() { m_.Lock(); }
  void ReaderUnlock() { m_.Unlock(); }
  void WriterLock() { m_.Lock(); }
  void WriterUnlock() { m_.Unlock(); }
  void AssertHeld() const { m_.AssertHeld(); }
  void AssertReaderHeld() const { m_.AssertHeld(); }
  void Await(const Condition &c) { m_.Await(c.fn()); }
  void LockWhen(const Condition &c) {
    m_.Lock();
    m_.Await(c.fn());
  }
  mc::Mutex *impl() { return &m_; }

 private:
  mc::Mutex m_;
};

class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex *m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex &m) : m_(&m) { m_->Lock(); }
  MutexLock(Mutex *m, const Condition &c) : m_(m) { m_->LockWhen(c); }
  MutexLock(Mutex &m, const Condition &c) : m_(&m) { m_->LockWhen(c); }
  MutexLock(const MutexLock &) = delete;
  ~MutexLock() { m_->Unlock(); }

 private:
  Mutex *const m_;
};
using WriterMutexLock = MutexLock;
using ReaderMutexLock = MutexLock;

class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex *m) : m_(m) { m_->Lock(); }
  ReleasableMutexLock(Mutex *m, const Condition &c) : m_(m) { m_->LockWhen(c); }
  ~ReleasableMutexLock() {
    if (m_ != nullptr) m_->Unlock();
  }
  void Release() {
    m_->Unlock();
    m_ = nullptr;
  }

 private:
  Mutex *m_;
};

class CondVar {
 public:
  void Wait(Mutex *m) { c_.Wait(m->impl()); }
  void Signal() { c_.SignalOne(); }
  void SignalAll() { c_.SignalAll(); }

 private:
  mc::CondVar c_;
};

}  // namespace absl

#endif  // MC_SHIM_ABSL_MUTEX_H_
