// Explores every interleaving of small programs over nisaba::ThreadPool.
// Output: one JSON object.
#include <stdio.h>
#include <stdlib.h>

#include "nisaba/port/thread_pool.h"
#include "thread_pool_monitor.h"

namespace {

using monitor::Scenario;

// Counts the live copies of a scheduled function.
struct Token {
  Token() { monitor::Token(1); }
  Token(const Token &) { monitor::Token(1); }
  Token &operator=(const Token &) = default;
  ~Token() { monitor::Token(-1); }
};

void Put(nisaba::ThreadPool *pool, const Scenario *sc, int from, int seq) {
  const int t = monitor::NewTask(from, seq);
  const Token token;
  pool->Schedule([pool, sc, t, token, from, seq] {
    monitor::Begin(t);
    if (sc->meet && from == 0 && seq < monitor::Meeting()) monitor::MeetOthers();
    if (from == 0 && seq == 0)
      for (int i = 0; i < sc->nested; ++i) Put(pool, sc, monitor::kNested, i);
    monitor::End(t);
  });
}

void Program(const Scenario *sc) {
  monitor::Start(*sc);
  auto pool = std::make_unique<nisaba::ThreadPool>(sc->workers);
  nisaba::ThreadPool *p = pool.get();
  std::vector<int> producers;
  auto produce = [&producers, p, sc] {
    for (int i = 0; i < sc->producers; ++i)
      producers.push_back(mc::Spawn([p, i, sc] {
        for (int k = 0; k < sc->each; ++k) Put(p, sc, i + 1, k);
      }));
  };
  if (sc->early) produce();
  for (int i = 0; i < sc->before; ++i) Put(p, sc, 0, i);
  if (sc->start) p->StartWorkers();
  if (!sc->early) produce();
  for (int i = 0; i < sc->after; ++i) Put(p, sc, 0, sc->before + i);
  for (int id : producers) mc::Join(id);
  if (sc->nested > 0) monitor::WaitForNested();
  if (sc->meet > 1) monitor::WaitForMeeting();
  monitor::Closing();
  pool.reset();
  monitor::Closed();
}

std::string Quote(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    r += c;
  }
  return r + "\"";
}

}  // namespace

int main(int argc, char **argv) {
  // workers before after producers each early nested meet start bound limit
  int v[10];
  for (int i = 0; i < 10; ++i) v[i] = atoi(argv[1 + i]);
  const uint64_t limit = strtoull(argv[11], nullptr, 10);
  const Scenario sc = {v[0], v[1], v[2], v[3], v[4], v[5] != 0, v[6],
                       v[7], v[8] != 0, v[9]};
  const mc::Result r = mc::Explore([&sc] { Program(&sc); }, sc.bound, limit);
  std::string trace;
  for (auto &e : r.trace) trace += (trace.empty() ? "" : ", ") + Quote(e);
  printf("{\"executions\": %lu, \"points\": %lu, \"steps\": %lu, "
         "\"deepest\": %lu, \"complete\": %s, \"violation\": %s, "
         "\"trace\": [%s]}\n",
         r.executions, r.points, r.steps, r.deepest,
         r.complete ? "true" : "false", Quote(r.violation).c_str(),
         trace.c_str());
  return 0;
}
