// A controlled scheduler: every "thread" is a fiber of one OS thread, every
// synchronization operation is a choice point, and explore() runs the program
// once for every sequence of choices (depth first, by re-execution).
// Memory accesses of the instrumented translation unit (gcc -fsanitize=thread
// code generation, linked with the hooks in sched.cc instead of the tsan
// runtime) are checked for data races with vector clocks.
#ifndef MC_SCHED_H_
#define MC_SCHED_H_

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

using Clock = std::vector<uint32_t>;

// Reports a violation in the current execution (and abandons the execution).
[[noreturn]] void Fail(const std::string &what);
// Appends to the trace of the current execution.
void Event(const std::string &what);
// A choice point of the calling thread, before the operation `what`.
void Point(const char *what);
// Blocks the calling thread until `ready` holds; a choice point.
void WaitUntil(const char *what, const std::function<bool()> &ready);
int Spawn(std::function<void()> body);
void Join(int id);
int Self();

// For programs that are not instrumented: no memory hooks, but the accesses to
// objects that the program's stand-ins report with Note are checked for races.
void SetPlain(size_t max_steps);
void Note(const void *object, bool write);
void Forget(const void *address, size_t size);

// While alive, the calling thread is the monitor's: its memory accesses and
// allocations are not the explored program's.
class Quiet {
 public:
  Quiet();
  ~Quiet();

 private:
  bool saved_;
};

struct Sync {  // happens-before clock of a synchronization object
  Clock clock;
};
// The current step reads or changes `object` (for partial-order reduction).
void Touch(const void *object);
void Acquire(Sync *s);
void Release(Sync *s);

struct Result {
  uint64_t executions = 0, runs = 0, points = 0, steps = 0, deepest = 0;
  bool complete = true;
  std::string violation;
  std::vector<std::string> trace;
};
// preemptions < 0: unbounded. Stops at the first violation.
Result Explore(const std::function<void()> &program, int preemptions,
               uint64_t max_executions);

class Mutex {
 public:
  void Lock();
  bool TryLock();
  void Unlock();
  void LockShared();
  void UnlockShared();
  // Waits, with the mutex held, until `ready` holds; the mutex is free meanwhile.
  void Await(const std::function<bool()> &ready);
  bool held() const { return owner_ >= 0; }
  void AssertHeld() const;
  void AssertSharedHeld() const;
  ~Mutex();

 private:
  bool Reads(int id) const;
  int owner_ = -1;
  std::vector<int> readers_;
  Sync sync_, read_sync_;
};

class CondVar {
 public:
  void Wait(Mutex *mu);
  void SignalOne();
  void SignalAll();

 private:
  struct Waiter { bool signalled = false; };
  std::vector<Waiter *> waiters_;
};

class Thread {
 public:
  Thread() = default;
  template <class F, class... A>
  explicit Thread(F &&f, A &&...a) {
    auto call = std::bind(std::forward<F>(f), std::forward<A>(a)...);
    id_ = Spawn([call]() mutable { call(); });
  }
  Thread(Thread &&o) noexcept : id_(o.id_) { o.id_ = -1; }
  Thread &operator=(Thread &&o) noexcept {
    if (id_ >= 0) Fail("std::terminate: a joinable thread is overwritten");
    id_ = o.id_;
    o.id_ = -1;
    return *this;
  }
  Thread(const Thread &) = delete;
  ~Thread() {
    if (id_ >= 0) Dropped();
  }
  bool joinable() const { return id_ >= 0; }
  void join();
  void detach() { id_ = -1; }
  void swap(Thread &o) { std::swap(id_, o.id_); }
  int get_id() const { return id_; }
  static unsigned hardware_concurrency() { return 2; }

 private:
  void Dropped();
  int id_ = -1;
};

using Signals = CondVar;  // The name survives stand-ins for absl::CondVar.
struct StdMutex {
  void lock() { m.Lock(); }
  bool try_lock() { return m.TryLock(); }
  void unlock() { m.Unlock(); }
  Mutex m;
};

}  // namespace mc

#endif  // MC_SCHED_H_
