// Records the NCCL calls the back end makes, and orders their effects as streams and events would; no data moves unless a
// harness installs a hook.
#include "fakenccl.h"
#include <mutex>
namespace fake {
std::vector<Call> calls;
std::function<bool()> eventDone = [] { return true; };
std::function<void(const Call&)> hook;
std::map<std::string, int> fail;
int inProgress = 0, endPolls = 0;
bool eager = true, hung = false;
size_t openGroups = 0;
static std::recursive_mutex m;
struct Task { std::function<void()> f; int on; size_t upTo; };
struct Queue { std::deque<Task> q; size_t done = 0; };
static std::map<int, Queue> queues;
static std::vector<std::pair<int, Call>> group;
static int ids = 100;
// does what stream s has up to position n; false if something holds it up
static bool run(int s, size_t n) {
  auto& q = queues[s];
  while (q.done < n && q.done < q.q.size()) {
    Task t = q.q[q.done];
    if (t.on >= 0 && !run(t.on, t.upTo)) return false;
    if (t.f && s >= 100 && hung) return false;
    q.done++;
    if (t.f) t.f();
  }
  return q.done >= n;
}
static int answer(const char* n) {
  auto it = fail.find(n);
  if (it == fail.end() || it->second == 0) return 0;
  int c = it->second; it->second = 0; return c;
}
ncclResult_t op(Call c, cudaStream_t st) {
  std::lock_guard<std::recursive_mutex> l(m);
  if (int a = answer("op")) return (ncclResult_t)a;
  calls.push_back(c);
  int s = reinterpret_cast<tinytorch::cuda::CUDAStream*>(st)->id;
  group.emplace_back(s, c);
  if (openGroups == 0) {
    for (auto& g : group) queues[g.first].q.push_back({[k = g.second] { if (hook) hook(k); }, -1, 0});
    group.clear();
  }
  return ncclSuccess;
}
void onCompute(int device, std::function<void()> f) {
  std::lock_guard<std::recursive_mutex> l(m);
  queues[tinytorch::cuda::getCurrentCUDAStream(device).id].q.push_back({std::move(f), -1, 0});
}
void flush() {
  std::lock_guard<std::recursive_mutex> l(m);
  for (auto& kv : queues) run(kv.first, kv.second.q.size());
}
static ncclResult_t note(Call c, const char* f) { std::lock_guard<std::recursive_mutex> l(m); int a = answer(f); if (!a) calls.push_back(c); return (ncclResult_t)a; }
}  // namespace fake
using fake::Call;
struct ncclComm { int rank, size; };
const char* ncclGetErrorString(ncclResult_t) { return "fake"; }
ncclResult_t ncclGetUniqueId(ncclUniqueId* id) { for (int i = 0; i < 128; i++) id->internal[i] = static_cast<char>(i * 7); return fake::note({"id"}, "id"); }
ncclResult_t ncclCommInitRankConfig(ncclComm_t* c, int n, ncclUniqueId id, int r, ncclConfig_t*) {
  for (int i = 0; i < 128; i++) if (id.internal[i] != static_cast<char>(i * 7)) return ncclInvalidArgument;
  *c = new ncclComm{r, n};
  Call k{"init"}; k.a = r; k.b = n; return fake::note(k, "init");
}
ncclResult_t ncclCommGetAsyncError(ncclComm_t, ncclResult_t* e) { std::lock_guard<std::recursive_mutex> l(fake::m); if (fake::inProgress > 0) { fake::inProgress--; *e = ncclInProgress; } else *e = ncclSuccess; return ncclSuccess; }
ncclResult_t ncclCommAbort(ncclComm_t c) { delete c; return fake::note({"abort"}, ""); }
ncclResult_t ncclCommFinalize(ncclComm_t) { return ncclSuccess; }
ncclResult_t ncclCommDestroy(ncclComm_t c) { delete c; return fake::note({"destroy"}, ""); }
ncclResult_t ncclGroupStart() { std::lock_guard<std::recursive_mutex> l(fake::m); if (int a = fake::answer("start")) return (ncclResult_t)a; fake::openGroups++; return ncclSuccess; }
ncclResult_t ncclGroupEnd() {
  std::lock_guard<std::recursive_mutex> l(fake::m);
  if (fake::openGroups == 0) return ncclInvalidUsage;
  if (--fake::openGroups > 0) return ncclSuccess;
  auto g = std::move(fake::group);
  fake::group.clear();
  if (int a = fake::answer("end")) return (ncclResult_t)a;
  for (auto& x : g) fake::queues[x.first].q.push_back({[k = x.second] { if (fake::hook) fake::hook(k); }, -1, 0});
  if (fake::eager) for (auto& x : g) fake::run(x.first, fake::queues[x.first].q.size());
  if (fake::endPolls) { fake::inProgress = fake::endPolls; return ncclInProgress; }
  return ncclSuccess;
}
static Call mk(const char* n, const void* s, void* d, size_t cnt, int dt, int op, int peer, ncclComm_t c) { Call k{n}; k.src = s; k.dst = d; k.count = cnt; k.dtype = dt; k.op = op; k.peer = peer; k.a = c ? c->rank : -1; k.b = c ? c->size : -1; return k; }
ncclResult_t ncclBroadcast(const void* s, void* d, size_t n, ncclDataType_t t, int root, ncclComm_t c, cudaStream_t q) { return fake::op(mk("broadcast", s, d, n, t, -1, root, c), q); }
ncclResult_t ncclAllReduce(const void* s, void* d, size_t n, ncclDataType_t t, ncclRedOp_t o, ncclComm_t c, cudaStream_t q) { return fake::op(mk("allReduce", s, d, n, t, o, -1, c), q); }
ncclResult_t ncclReduce(const void* s, void* d, size_t n, ncclDataType_t t, ncclRedOp_t o, int root, ncclComm_t c, cudaStream_t q) { return fake::op(mk("reduce", s, d, n, t, o, root, c), q); }
ncclResult_t ncclAllGather(const void* s, void* d, size_t n, ncclDataType_t t, ncclComm_t c, cudaStream_t q) { return fake::op(mk("allGather", s, d, n, t, -1, -1, c), q); }
ncclResult_t ncclReduceScatter(const void* s, void* d, size_t n, ncclDataType_t t, ncclRedOp_t o, ncclComm_t c, cudaStream_t q) { return fake::op(mk("reduceScatter", s, d, n, t, o, -1, c), q); }
ncclResult_t ncclSend(const void* s, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t q) { return fake::op(mk("send", s, nullptr, n, t, -1, peer, c), q); }
ncclResult_t ncclRecv(void* d, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t q) { return fake::op(mk("recv", nullptr, d, n, t, -1, peer, c), q); }
namespace tinytorch::cuda {
using namespace fake;
// the host is the computing stream: what that has to wait for is done when it has to
void CUDAStream::synchronize() const { std::lock_guard<std::recursive_mutex> l(m); fake::run(id, queues[id].q.size()); }
void CUDAStream::waitStream(const CUDAStream& o) const { std::lock_guard<std::recursive_mutex> l(m); queues[id].q.push_back({nullptr, o.id, queues[o.id].q.size()}); }
void CUDAEvent::record(const CUDAStream& s) const { std::lock_guard<std::recursive_mutex> l(m); on = s.id; upTo = queues[s.id].q.size(); }
void CUDAEvent::block(const CUDAStream& s) const {
  std::lock_guard<std::recursive_mutex> l(m);
  if (on < 0) return;
  queues[s.id].q.push_back({nullptr, on, upTo});
  if (s.id < 100) fake::run(s.id, queues[s.id].q.size());
}
bool CUDAEvent::query() const { std::lock_guard<std::recursive_mutex> l(m); return (on < 0 || queues[on].done >= upTo) && eventDone(); }
CUDAStream createCUDAStream(int device) { CUDAStream s(device); s.id = ids++; return s; }
CUDAEvent createCUDAEvent(int device, unsigned int) { return CUDAEvent(device); }
CUDAStream& getCurrentCUDAStream(int device) { static CUDAStream s[17]; int k = (device + 17) % 17; s[k].id = 1 + k; return s[k]; }
}  // namespace tinytorch::cuda
