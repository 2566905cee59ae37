#ifndef MC_THREAD_POOL_MONITOR_H_
#define MC_THREAD_POOL_MONITOR_H_

namespace monitor {

constexpr int kNested = 100;  // the "producer" of tasks scheduled by tasks

struct Scenario {
  int workers, before, after;      // tasks scheduled before / after StartWorkers
  int producers, each;             // extra threads, and the tasks each schedules
  bool early;                      // producers run before StartWorkers too
  int nested;                      // task 0 schedules this many, main waits
  // Tasks that wait for each other: 1 the first two, 2 also the owner waits for them before it
  // closes the pool, 3 as 2 with as many as there are workers.
  int meet;
  bool start;                      // StartWorkers is called
  int bound;                       // preemptions, -1 for all interleavings
};

void Start(const Scenario &sc);
int NewTask(int from, int seq);
void Begin(int t);
void End(int t);
int Meeting();
void MeetOthers();
void WaitForMeeting();
void WaitForNested();
void Token(int n);
void Closing();
void Closed();

}  // namespace monitor

#endif  // MC_THREAD_POOL_MONITOR_H_
