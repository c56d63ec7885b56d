#pragma once
#include "Utils/CUDAUtils.h"
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace fake {
// Work is queued on streams and done when something that depends on it has to be done (or at once, if eager).
struct Call { std::string name; const void* src = nullptr; void* dst = nullptr; size_t count = 0; int dtype = -1, op = -1, peer = -1, a = 0, b = 0; };
extern std::vector<Call> calls;
extern std::function<bool()> eventDone;          // further condition on events, for works without queued operations
extern std::function<void(const Call&)> hook;    // moves the data of an operation when it is done
extern std::map<std::string, int> fail;          // name of a call -> what its next use answers
extern int inProgress, endPolls;
extern bool eager, hung;
extern size_t openGroups;
void onCompute(int device, std::function<void()> f);   // queues a computation on the device's current stream
void flush();                                          // does everything that is not held up
}
