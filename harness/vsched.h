// A controlled scheduler: one managed thread (of any of the case's processes) runs at a time, and hands over at
// every call through which threads and processes can affect one another (locks, condition variables, sleeping,
// sockets, files).  Time is virtual: it advances only when nothing can run.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Schedule {
  // "seg": runs the named worker for so many steps, one segment after another, then lowest first;
  // "pri": highest priority first, priorities dropping at the given steps;  "rnd": the k-th choice is seq[k] mod n
  std::string kind = "seg";
  std::vector<std::pair<int, int>> segs;
  std::vector<int> pri, drops, seq;
  std::vector<std::pair<int, int>> kills;  // (worker, after that many of its own steps): SIGKILL of its process
  std::vector<std::pair<int, int>> stalls;  // (thread, after that many of its own steps): the others go first for a long while
  int64_t fromMs = 0;  // the schedule begins at that virtual time; until then the lowest runs first
  int chop = 0;        // 0: whole transfers; k>0: a socket call moves at most k bytes
  int eintr = 0;       // k>0: every k-th blocking socket call is interrupted first
  int maxSteps = 200000;
  int64_t horizonMs = 1000000, lingerMs = 0;   // virtual
};
Schedule parse(const std::vector<std::string>& toks);

// Prepares the shared state; call once, before any worker is started.
void init(const Schedule& s);
// A worker as a thread of this process, or in a process of its own.
int threadWorker(const std::function<void()>& body);
int processWorker(const std::function<void()>& body);
// Runs the schedule to the end; "done", "stuck" or "limit".
std::string run();

int64_t nowMs();
void sleepMs(int64_t ms);      // virtual
void note(const std::string& text);   // appends "<virtual ms> <text>" to the history
std::vector<std::string> history();
int steps();
int live();      // threads that have not ended
void killAll();  // ends the worker processes
std::string blockedAt(int worker);
bool killed(int worker);
int died();   // how many process workers ended other than by exiting normally or by a scheduled kill
}  // namespace sched
