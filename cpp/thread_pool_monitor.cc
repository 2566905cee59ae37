// The monitor of thread_pool_mc.cc, compiled without instrumentation: its state
// is not the program's (all fibers share one OS thread).
#include "thread_pool_monitor.h"

#include <set>
#include <vector>

#include "mcsched.h"

namespace monitor {
namespace {

struct Task {
  int from = 0, seq = 0;           // producer and number within it
  int runs = 0;
  bool began = false, ended = false;
};

struct World {
  Scenario sc;
  std::vector<Task> tasks;         // in the order of their Schedule calls
  int running = 0;
  int tokens = 0;
  bool closed = false;             // the pool's destructor returned
};
World w;

std::string Name(int t) {
  return "task " + std::to_string(w.tasks[t].from) + "." +
         std::to_string(w.tasks[t].seq);
}

}  // namespace

void Start(const Scenario &sc) {
  const mc::Quiet quiet;
  w = World();
  w.sc = sc;
}

int NewTask(int from, int seq) {
  const mc::Quiet quiet;
  Task k;
  k.from = from;
  k.seq = seq;
  w.tasks.push_back(k);
  return w.tasks.size() - 1;
}

void Begin(int t) {
  const mc::Quiet quiet;
  if (w.sc.meet || w.sc.nested > 0) mc::Touch(&w);
  mc::Event("begin " + Name(t));
  Task &k = w.tasks[t];
  if (w.closed) mc::Fail(Name(t) + " runs after the pool is gone");
  if (!w.sc.start) mc::Fail(Name(t) + " runs although no worker was started");
  if (++k.runs > 1) mc::Fail(Name(t) + " runs twice");
  if (mc::Self() == 0 || (mc::Self() <= w.sc.producers && w.sc.early))
    mc::Fail(Name(t) + " runs on a thread that is not a worker");
  k.began = true;
  // Tasks are taken in the order in which they were scheduled: of the earlier
  // ones, only what the other workers hold may still not have begun.
  int waiting = 0;
  for (const Task &o : w.tasks)
    if (o.from == k.from && o.seq < k.seq && !o.began) ++waiting;
  if (waiting > w.sc.workers - 1)
    mc::Fail(Name(t) + " overtakes " + std::to_string(waiting) +
             " earlier tasks");
  if (++w.running > w.sc.workers)
    mc::Fail("more tasks run at a time than there are workers");
}

void End(int t) {
  const mc::Quiet quiet;
  mc::Point("task ends");
  if (w.sc.meet || w.sc.nested > 0) mc::Touch(&w);
  mc::Event("end " + Name(t));
  w.tasks[t].ended = true;
  --w.running;
}

int Meeting() { return w.sc.meet == 3 ? w.sc.workers : 2; }

void MeetOthers() {
  const mc::Quiet quiet;
  mc::WaitUntil("the other tasks", [] {
    int began = 0;
    for (const Task &t : w.tasks) began += t.from == 0 && t.seq < Meeting() && t.began;
    return began == Meeting();
  });
  mc::Touch(&w);
}

void WaitForMeeting() {
  const mc::Quiet quiet;
  mc::WaitUntil("the tasks that meet", [] {
    int ended = 0;
    for (const Task &t : w.tasks) ended += t.from == 0 && t.seq < Meeting() && t.ended;
    return ended == Meeting();
  });
  mc::Touch(&w);
}

void WaitForNested() {
  const mc::Quiet quiet;
  mc::WaitUntil("the nested tasks", [] {
    int ended = 0;
    for (const Task &t : w.tasks) ended += t.from == kNested && t.ended;
    return ended == w.sc.nested;
  });
  mc::Touch(&w);
}

void Token(int n) { w.tokens += n; }

void Closing() {
  const mc::Quiet quiet;
  mc::Event("destroy the pool"); }

void Closed() {
  const mc::Quiet quiet;
  mc::Event("the pool is gone");
  w.closed = true;
  for (size_t t = 0; t < w.tasks.size(); ++t) {
    if (w.sc.start && w.sc.workers > 0) {
      if (w.tasks[t].runs != 1) mc::Fail(Name(t) + " is never run");
      if (!w.tasks[t].ended) mc::Fail(Name(t) + " has not ended");
    } else if (w.tasks[t].runs != 0) {
      mc::Fail(Name(t) + " runs without a worker");
    }
  }
  if (w.tokens != 0)
    mc::Fail("scheduled functions outlive the pool: " +
             std::to_string(w.tokens));
}

}  // namespace monitor
