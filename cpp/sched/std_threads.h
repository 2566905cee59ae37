// Included before everything else (-include): the standard headers as they are,
// then std::thread, std::mutex and std::condition_variable under the controlled
// scheduler.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <shared_mutex>
#include <string>
#include <thread>
#include <vector>

#include "mcsched.h"

namespace mc {
class StdCondVar {
 public:
  void wait(std::unique_lock<StdMutex> &l) { c_.Wait(&l.mutex()->m); }
  template <class P>
  void wait(std::unique_lock<StdMutex> &l, P p) {
    while (!p()) wait(l);
  }
  void notify_one() { c_.SignalOne(); }
  void notify_all() { c_.SignalAll(); }

 private:
  Signals c_;
};
}  // namespace mc
namespace std {
using mc_thread = ::mc::Thread;
using mc_mutex = ::mc::StdMutex;
using mc_condition_variable = ::mc::StdCondVar;
}  // namespace std
#define thread mc_thread
#define mutex mc_mutex
#define condition_variable mc_condition_variable
