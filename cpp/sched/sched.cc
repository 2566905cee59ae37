#include <algorithm>
#include "mcsched.h"

#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

#include <map>
#include <memory>
#include <new>
#include <set>
#include <unordered_map>

namespace mc {
namespace {

size_t g_stack = 256 << 10;
constexpr int kMaxFibers = 24;
size_t g_max_steps = 600;

struct Fiber {
  ucontext_t ctx;
  std::function<void()> body;
  std::function<bool()> ready;  // empty: runnable
  const char *what = "";
  bool done = false;
  Clock clock;
};

using Touched = std::set<uintptr_t>;

// A node of the tree of executions. Without a preemption bound, sleep sets leave
// out interleavings that only reorder steps on different objects.
struct Choice {
  std::vector<int> enabled;
  std::vector<int> options;
  size_t next = 0;
  std::map<int, Touched> sleep;  // at entry, then the explored options too
  Touched sleep_of_pick;         // what the step taken here touched
};

struct Shadow {
  bool freed = false;
  int writer = -1;
  uint32_t wclock = 0;
  std::vector<std::pair<int, uint32_t>> reads;
};

constexpr size_t kArena = 256 << 10;
char g_arenas[kMaxFibers * kArena];
size_t g_arena_used[kMaxFibers];
char *Arena(int id) { return g_arenas + id * kArena; }

ucontext_t g_main;
std::vector<std::unique_ptr<Fiber>> g_fibers;
std::vector<char *> g_stacks;
int g_current = -1;
bool g_hooks = false;   // memory hooks active
bool g_running = false;
bool g_plain = false;     // only Note
bool g_failed = false;
std::string g_what;
std::vector<std::string> g_trace;
std::vector<Choice> g_choices;
size_t g_depth = 0;
Touched g_touched;       // objects of the current step
bool g_tracing = false;
bool g_pruned = false;
int g_bound = -1, g_preempted = 0;
Result g_result;
std::unordered_map<uintptr_t, Shadow> g_shadow;
std::unordered_map<uintptr_t, Sync> g_atomics;
std::map<uintptr_t, Shadow> g_notes;

using HooksOff = Quiet;

void Join(Clock *a, const Clock &b) {
  if (a->size() < b.size()) a->resize(b.size());
  for (size_t i = 0; i < b.size(); ++i)
    if (b[i] > (*a)[i]) (*a)[i] = b[i];
}

void Tick(Fiber *f, int id) {
  if (f->clock.size() <= static_cast<size_t>(id)) f->clock.resize(id + 1);
  ++f->clock[id];
}

void Entry() {
  const int id = g_current;
  g_hooks = !g_plain;
  g_fibers[id]->body();
  g_hooks = false;
  g_fibers[id]->done = true;
  g_touched.insert(id);
  Tick(g_fibers[id].get(), id);
  setcontext(&g_main);
}

void Switch() {  // from a fiber to the scheduler
  const bool hooks = g_hooks;
  g_hooks = false;
  swapcontext(&g_fibers[g_current]->ctx, &g_main);
  g_hooks = hooks;
}

int NewFiber(std::function<void()> body) {
  const int id = g_fibers.size();
  if (id >= kMaxFibers) Fail("too many threads");
  if (g_stacks.size() <= static_cast<size_t>(id))
    g_stacks.push_back(static_cast<char *>(malloc(g_stack)));
  auto f = std::make_unique<Fiber>();
  f->body = std::move(body);
  f->what = "start";
  if (g_current >= 0) {
    f->clock = g_fibers[g_current]->clock;
    Tick(g_fibers[g_current].get(), g_current);
  }
  Tick(f.get(), id);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = g_stacks[id];
  f->ctx.uc_stack.ss_size = g_stack;
  f->ctx.uc_link = &g_main;
  makecontext(&f->ctx, Entry, 0);
  g_fibers.push_back(std::move(f));
  return id;
}

void Run(const std::function<void()> &program) {
  g_fibers.clear();
  g_shadow.clear();
  g_atomics.clear();
  g_notes.clear();
  memset(g_arena_used, 0, sizeof(g_arena_used));
  g_trace.clear();
  g_failed = false;
  g_pruned = false;
  g_touched.clear();
  g_depth = 0;
  g_preempted = 0;
  g_current = -1;
  g_running = true;
  NewFiber(program);
  int last = -1;
  while (true) {
    std::vector<int> enabled;
    bool all_done = true;
    for (size_t i = 0; i < g_fibers.size(); ++i) {
      Fiber *f = g_fibers[i].get();
      if (f->done) continue;
      all_done = false;
      if (!f->ready || f->ready()) enabled.push_back(i);
    }
    if (all_done) break;
    if (enabled.empty()) {
      std::string who;
      for (size_t i = 0; i < g_fibers.size(); ++i)
        if (!g_fibers[i]->done)
          who += " thread " + std::to_string(i) + " waits at " +
                 g_fibers[i]->what + ";";
      g_failed = true;
      g_what = "deadlock:" + who;
      break;
    }
    // The running thread first; with no preemptions left, it goes on.
    std::vector<int> options;
    bool last_enabled = false;
    for (int i : enabled) last_enabled |= i == last;
    if (last_enabled) options.push_back(last);
    if (!last_enabled || g_bound < 0 || g_preempted < g_bound)
      for (int i : enabled)
        if (i != last) options.push_back(i);
    if (g_depth < g_choices.size()) {
      if (g_choices[g_depth].enabled != enabled) {
        fprintf(stderr, "the program is not deterministic\n");
        abort();
      }
    } else {
      Choice c;
      c.enabled = enabled;
      if (g_bound < 0) {
        if (g_depth > 0) {
          for (auto &q : g_choices[g_depth - 1].sleep) {
            if (q.first == last) continue;
            bool independent = true;
            for (uintptr_t o : g_touched) independent &= !q.second.count(o);
            if (independent) c.sleep.insert(q);
          }
        }
        for (int o : options)
          if (!c.sleep.count(o)) c.options.push_back(o);
      } else {
        c.options = options;
      }
      if (c.options.empty()) {  // Only reorders an execution already explored.
        g_pruned = true;
        break;
      }
      if (g_depth >= g_max_steps) {  // Spins; not explored any deeper.
        g_result.complete = false;
        g_pruned = true;
        break;
      }
      g_choices.push_back(c);
      ++g_result.points;
    }
    const size_t node = g_depth++;
    int pick = g_choices[node].options[g_choices[node].next];
    if (last_enabled && pick != last) ++g_preempted;
    last = pick;
    ++g_result.steps;
    Fiber *f = g_fibers[pick].get();
    if (g_tracing)
      g_trace.push_back("thread " + std::to_string(pick) + ": " + f->what);
    f->ready = nullptr;
    g_current = pick;
    g_touched.clear();
    swapcontext(&g_main, &f->ctx);
    g_current = -1;
    g_choices[node].sleep_of_pick = g_touched;
    if (g_failed) break;
  }
  g_running = false;
  g_hooks = false;
  if (g_depth > g_result.deepest) g_result.deepest = g_depth;
}

}  // namespace

Quiet::Quiet() : saved_(g_hooks) { g_hooks = false; }
Quiet::~Quiet() { g_hooks = saved_; }

void Fail(const std::string &what) {
  g_hooks = false;
  if (!g_running) {
    fprintf(stderr, "outside an execution: %s\n", what.c_str());
    abort();
  }
  g_failed = true;
  g_what = what;
  setcontext(&g_main);
  abort();
}

void Event(const std::string &what) {
  HooksOff off;
  if (g_tracing)
    g_trace.push_back("thread " + std::to_string(g_current) + ": " + what);
}

void Point(const char *what) {
  if (g_current < 0) return;
  HooksOff off;
  g_fibers[g_current]->what = what;
  g_fibers[g_current]->ready = nullptr;
  Switch();
}

void WaitUntil(const char *what, const std::function<bool()> &ready) {
  if (g_current < 0) return;
  HooksOff off;
  g_fibers[g_current]->what = what;
  g_fibers[g_current]->ready = ready;
  Switch();
}

int Spawn(std::function<void()> body) {
  HooksOff off;
  return NewFiber(std::move(body));
}

void Join(int id) {
  HooksOff off;
  WaitUntil("join", [id] { return g_fibers[id]->done; });
  g_touched.insert(id);
  Join(&g_fibers[g_current]->clock, g_fibers[id]->clock);
}

int Self() { return g_current; }

void Touch(const void *object) {
  if (g_current < 0) return;
  HooksOff off;
  g_touched.insert(reinterpret_cast<uintptr_t>(object));
}

void Acquire(Sync *s) {
  if (g_current < 0) return;
  HooksOff off;
  Touch(s);
  Join(&g_fibers[g_current]->clock, s->clock);
}

void Release(Sync *s) {
  if (g_current < 0) return;
  HooksOff off;
  Touch(s);
  Join(&s->clock, g_fibers[g_current]->clock);
  Tick(g_fibers[g_current].get(), g_current);
}

bool Mutex::Reads(int id) const {
  return std::find(readers_.begin(), readers_.end(), id) != readers_.end();
}

void Mutex::Lock() {
  HooksOff off;
  if (g_current >= 0 && owner_ == g_current)
    Fail("a thread locks a mutex it already holds");
  if (g_current >= 0 && Reads(g_current))
    Fail("a thread locks a mutex it already holds as a reader");
  WaitUntil("lock", [this] { return owner_ < 0 && readers_.empty(); });
  owner_ = g_current;
  Acquire(&sync_);
  Acquire(&read_sync_);
}

bool Mutex::TryLock() {
  HooksOff off;
  Point("try lock");
  Touch(&sync_);
  if (owner_ >= 0 || !readers_.empty()) return false;
  owner_ = g_current;
  Acquire(&sync_);
  Acquire(&read_sync_);
  return true;
}

void Mutex::Unlock() {
  HooksOff off;
  if (g_current >= 0 && owner_ != g_current)
    Fail("a thread unlocks a mutex it does not hold");
  owner_ = -1;
  Release(&sync_);
}

void Mutex::LockShared() {
  HooksOff off;
  if (g_current >= 0 && owner_ == g_current)
    Fail("a thread locks a mutex it already holds");
  // A second lock by the same reader waits for ever when a writer waits in between.
  if (g_current >= 0 && Reads(g_current))
    Fail("a thread locks a mutex it already holds as a reader");
  WaitUntil("lock shared", [this] { return owner_ < 0; });
  readers_.push_back(g_current);
  Acquire(&sync_);
}

void Mutex::UnlockShared() {
  HooksOff off;
  const auto it = std::find(readers_.begin(), readers_.end(), g_current);
  if (it == readers_.end()) Fail("a thread unlocks a mutex it does not hold as a reader");
  readers_.erase(it);
  Release(&read_sync_);
}

void Mutex::Await(const std::function<bool()> &ready) {
  HooksOff off;
  if (owner_ != g_current) Fail("Await without holding the mutex");
  if (ready()) return;
  owner_ = -1;
  Release(&sync_);
  WaitUntil("await", [this, &ready] { return owner_ < 0 && readers_.empty() && ready(); });
  owner_ = g_current;
  Acquire(&sync_);
  Acquire(&read_sync_);
}

void Mutex::AssertHeld() const {
  if (owner_ != g_current) Fail("the mutex is not held");
}

void Mutex::AssertSharedHeld() const {
  if (owner_ != g_current && !Reads(g_current)) Fail("the mutex is not held");
}

Mutex::~Mutex() {
  if (g_running && (owner_ >= 0 || !readers_.empty())) Fail("a held mutex is destroyed");
}

void CondVar::Wait(Mutex *mu) {
  HooksOff off;
  Waiter w;
  waiters_.push_back(&w);
  Touch(this);
  mu->Unlock();
  WaitUntil("condition variable", [&w] { return w.signalled; });
  mu->Lock();
}

void CondVar::SignalOne() {
  HooksOff off;
  Point("signal");
  Touch(this);
  if (waiters_.empty()) return;
  waiters_.front()->signalled = true;
  waiters_.erase(waiters_.begin());
}

void CondVar::SignalAll() {
  HooksOff off;
  Point("signal all");
  Touch(this);
  for (Waiter *w : waiters_) w->signalled = true;
  waiters_.clear();
}

void Thread::join() {
  if (id_ < 0) Fail("join of a thread that is not joinable");
  Join(id_);
  id_ = -1;
}

void Thread::Dropped() {
  if (g_running && !g_failed)
    Fail("std::terminate: a joinable thread is destroyed");
}

Result Explore(const std::function<void()> &program, int preemptions,
               uint64_t max_executions) {
  g_result = Result();
  g_choices.clear();
  g_bound = preemptions;
  g_tracing = false;
  while (true) {
    Run(program);
    if (!g_pruned) ++g_result.executions;
    if (g_failed) {
      g_tracing = true;  // Once more, for the trace.
      Run(program);
      g_result.violation = g_what;
      g_result.trace = g_trace;
      g_result.complete = false;
      return g_result;
    }
    while (!g_choices.empty()) {
      Choice &c = g_choices.back();
      c.sleep[c.options[c.next]] = c.sleep_of_pick;
      if (++c.next < c.options.size()) break;
      g_choices.pop_back();
    }
    if (g_choices.empty()) return g_result;
    if (++g_result.runs >= max_executions) {
      g_result.complete = false;
      return g_result;
    }
  }
}

// --- memory accesses --------------------------------------------------------

namespace {

// Whether the access races with one before it.
void Check(Shadow *shadow, bool write) {
  Shadow &s = *shadow;
  const Clock &now = g_fibers[g_current]->clock;
  auto seen = [&now](int t, uint32_t c) {
    return t == g_current ||
           (static_cast<size_t>(t) < now.size() && now[t] >= c);
  };
  if (s.freed) Fail("freed memory is used");
  if (s.writer >= 0 && !seen(s.writer, s.wclock)) {
    Fail(std::string("data race: thread ") + std::to_string(g_current) +
         (write ? " writes" : " reads") + " what thread " +
         std::to_string(s.writer) + " wrote without synchronization");
  }
  if (write) {
    for (auto &r : s.reads)
      if (!seen(r.first, r.second))
        Fail(std::string("data race: thread ") + std::to_string(g_current) +
             " writes what thread " + std::to_string(r.first) +
             " read without synchronization");
    s.reads.clear();
    s.writer = g_current;
    s.wclock = now[g_current];
  } else {
    bool found = false;
    for (auto &r : s.reads)
      if (r.first == g_current) {
        r.second = now[g_current];
        found = true;
      }
    if (!found) s.reads.push_back({g_current, now[g_current]});
  }
}

void Access(void *addr, size_t size, bool write) {
  if (!g_hooks || g_current < 0) return;
  HooksOff off;
  const uintptr_t first = reinterpret_cast<uintptr_t>(addr) & ~uintptr_t{7};
  const uintptr_t last = reinterpret_cast<uintptr_t>(addr) + size;
  for (uintptr_t p = first; p < last; p += 8) Check(&g_shadow[p], write);
}

void Freed(void *addr, size_t size) {
  HooksOff off;
  const uintptr_t first = reinterpret_cast<uintptr_t>(addr) & ~uintptr_t{7};
  for (uintptr_t p = first; p < first + size; p += 8) g_shadow[p].freed = true;
}

void AtomicPoint(const volatile void *p) {
  if (!g_hooks || g_current < 0) return;
  Point("atomic");
  HooksOff off;
  g_touched.insert(reinterpret_cast<uintptr_t>(p));
  Sync &s = g_atomics[reinterpret_cast<uintptr_t>(p)];
  Join(&g_fibers[g_current]->clock, s.clock);
  Join(&s.clock, g_fibers[g_current]->clock);
  Tick(g_fibers[g_current].get(), g_current);
}

}  // namespace

void SetPlain(size_t max_steps) {
  g_plain = true;
  g_stack = 8 << 20;
  g_max_steps = max_steps;
}

void Note(const void *object, bool write) {
  if (g_current < 0) return;
  HooksOff off;
  Touch(object);
  Check(&g_notes[reinterpret_cast<uintptr_t>(object)], write);
}

void Forget(const void *address, size_t size) {
  if (g_notes.empty()) return;
  const auto p = reinterpret_cast<uintptr_t>(address);
  const auto from = g_notes.lower_bound(p), to = g_notes.lower_bound(p + size);
  if (from != to) g_notes.erase(from, to);
}

}  // namespace mc

// Memory allocated by the explored program comes from an arena of its thread, so
// that addresses depend only on what the thread did; it is not reused within an
// execution, and touching freed memory is a violation.
void *operator new(size_t size) {
  if (mc::g_hooks && mc::g_current >= 0) {
    const size_t need = 16 + ((size + 15) & ~size_t{15});
    size_t &used = mc::g_arena_used[mc::g_current];
    if (used + need <= mc::kArena) {
      char *p = mc::Arena(mc::g_current) + used;
      used += need;
      *reinterpret_cast<size_t *>(p) = size;
      return p + 16;
    }
    mc::Fail("out of memory");
  }
  void *p = malloc(size);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept {
  if (p == nullptr) return;
  char *c = static_cast<char *>(p);
  if (c < mc::g_arenas || c >= mc::g_arenas + mc::kMaxFibers * mc::kArena) {
    if (mc::g_plain && mc::g_current >= 0) mc::Forget(p, malloc_usable_size(p));
    free(p);
    return;
  }
  if (mc::g_hooks) {
    const size_t size = *reinterpret_cast<size_t *>(c - 16);
    mc::Access(p, size, true);
    mc::Freed(p, size);
  }
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }

#define HOOK(n)                                                            \
  extern "C" void __tsan_read##n(void *p) { mc::Access(p, n, false); }     \
  extern "C" void __tsan_write##n(void *p) { mc::Access(p, n, true); }     \
  extern "C" void __tsan_unaligned_read##n(void *p) {                      \
    mc::Access(p, n, false);                                               \
  }                                                                        \
  extern "C" void __tsan_unaligned_write##n(void *p) {                     \
    mc::Access(p, n, true);                                                \
  }                                                                        \
  extern "C" void __tsan_volatile_read##n(void *p) {                       \
    mc::Access(p, n, false);                                               \
  }                                                                        \
  extern "C" void __tsan_volatile_write##n(void *p) { mc::Access(p, n, true); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
extern "C" void __tsan_read_range(void *p, size_t n) { mc::Access(p, n, false); }
extern "C" void __tsan_write_range(void *p, size_t n) { mc::Access(p, n, true); }
extern "C" void __tsan_vptr_update(void **p, void *) { mc::Access(p, 8, true); }
extern "C" void __tsan_vptr_read(void **p) { mc::Access(p, 8, false); }
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_init() {}
extern "C" void *__tsan_memcpy(void *d, const void *s, size_t n) {
  return memmove(d, s, n);
}
extern "C" void *__tsan_memset(void *d, int c, size_t n) {
  return memset(d, c, n);
}

#define ATOMIC(bits, type)                                                    \
  extern "C" type __tsan_atomic##bits##_load(const volatile type *p, int) {   \
    mc::AtomicPoint(p);                                                       \
    return *p;                                                                \
  }                                                                           \
  extern "C" void __tsan_atomic##bits##_store(volatile type *p, type v, int) { \
    mc::AtomicPoint(p);                                                       \
    *p = v;                                                                   \
  }                                                                           \
  extern "C" type __tsan_atomic##bits##_exchange(volatile type *p, type v,    \
                                                 int) {                       \
    mc::AtomicPoint(p);                                                       \
    type o = *p;                                                              \
    *p = v;                                                                   \
    return o;                                                                 \
  }                                                                           \
  extern "C" type __tsan_atomic##bits##_fetch_add(volatile type *p, type v,   \
                                                  int) {                      \
    mc::AtomicPoint(p);                                                       \
    type o = *p;                                                              \
    *p = o + v;                                                               \
    return o;                                                                 \
  }                                                                           \
  extern "C" type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v,   \
                                                  int) {                      \
    mc::AtomicPoint(p);                                                       \
    type o = *p;                                                              \
    *p = o - v;                                                               \
    return o;                                                                 \
  }                                                                           \
  extern "C" type __tsan_atomic##bits##_fetch_or(volatile type *p, type v,    \
                                                 int) {                       \
    mc::AtomicPoint(p);                                                       \
    type o = *p;                                                              \
    *p = o | v;                                                               \
    return o;                                                                 \
  }                                                                           \
  extern "C" type __tsan_atomic##bits##_fetch_and(volatile type *p, type v,   \
                                                  int) {                      \
    mc::AtomicPoint(p);                                                       \
    type o = *p;                                                              \
    *p = o & v;                                                               \
    return o;                                                                 \
  }                                                                           \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(               \
      volatile type *p, type *e, type v, int, int) {                          \
    mc::AtomicPoint(p);                                                       \
    if (*p == *e) {                                                           \
      *p = v;                                                                 \
      return 1;                                                               \
    }                                                                         \
    *e = *p;                                                                  \
    return 0;                                                                 \
  }                                                                           \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(                 \
      volatile type *p, type *e, type v, int a, int b) {                      \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b);      \
  }                                                                           \
  extern "C" type __tsan_atomic##bits##_compare_exchange_val(                 \
      volatile type *p, type e, type v, int a, int b) {                       \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, a, b);            \
    return e;                                                                 \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
