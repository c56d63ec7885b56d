// Data-parallel training over a stand-in back end: every rank is a process under the controlled scheduler, the
// collectives meet in shared memory.
#include "drv.h"
#include "vsched.h"
#include "Distributed/DistributedModule.h"
#include "Modules.h"
#include "Functions.h"
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <atomic>
#include <deque>
using namespace tinytorch;
using namespace tinytorch::distributed;
using drv::Toks;
std::string drv::out;

namespace {
enum Kind { BROADCAST_ = 1, ALLREDUCE_ = 2 };
struct Slot { std::atomic<int> have[4]; int kind[4], n[4], arg[4]; float data[4][512]; };
struct World { Slot slot[512]; };
World* G = nullptr;
int stepNo = 0;   // the step of the program this rank is in
int world = 1, lateSnap = 0, eager = 0;
struct P { std::vector<int64_t> shape; bool rg; };
std::vector<P> decl;
std::vector<Toks> steps;
std::string dir;

std::string vals(const float* d, int64_t n) { std::string s; char b[32]; for (int64_t i = 0; i < n; i++) { snprintf(b, 32, "%s%.9g", i ? "," : "", d[i]); s += b; } return n ? s : "-"; }

struct Fake;
struct FakeWork : Work {
  FakeWork(Fake* f, int k, int st, Tensor t, void* p) : be(f), slot(k), step(st), tensor(std::move(t)), ptr(p) {}
  bool wait(std::chrono::milliseconds) override;
  bool tryFinish();
  Fake* be; int slot, step; Tensor tensor; void* ptr; bool contributed = false, over = false;
};
struct Fake : Backend {
  Fake(int r, int n) : Backend(r, n), opt(std::make_shared<BackendOptions>("fake")) {}
  void setTimeout(std::chrono::milliseconds t) override { opt->timeout = t; }
  std::string getBackendName() const override { return "fake"; }
  std::shared_ptr<BackendOptions> getBackendOptions() override { return opt; }
  std::shared_ptr<Work> issue(Kind kind, std::vector<Tensor>& ts, int arg) {
    if (ts.size() != 1 || ts[0].numel() > 512 || ts[0].dtype() != DType::Float32) _exit(9);
    int k = next++;
    auto& s = G->slot[k];
    s.kind[rank_] = kind; s.n[rank_] = (int)ts[0].numel(); s.arg[rank_] = arg;
    auto w = std::make_shared<FakeWork>(this, k, stepNo, ts[0], ts[0].dataPtr<>());   // the address is taken now, as NCCL does
    pending.push_back(w);
    if (!lateSnap) contribute(k);
    if (eager) for (auto& x : pending) if (auto y = x.lock()) y->tryFinish();
    return w;
  }
  void contribute(int upTo) {
    for (auto& x : pending) {
      auto w = x.lock();
      if (!w || w->contributed || w->slot > upTo) continue;
      auto& s = G->slot[w->slot];
      memcpy(s.data[rank_], w->ptr, sizeof(float) * s.n[rank_]);
      w->contributed = true;
      sched::note("op " + std::to_string(rank_) + " " + std::to_string(w->step) + " " + (s.kind[rank_] == ALLREDUCE_ ? "reduce " : "broadcast ") + std::to_string(s.arg[rank_]) + " " + vals(s.data[rank_], s.n[rank_]));
      s.have[rank_].store(1);
    }
  }
  std::shared_ptr<Work> broadcast(std::vector<Tensor>& t, const BroadcastOptions& o) override { return issue(BROADCAST_, t, o.rootRank); }
  std::shared_ptr<Work> allReduce(std::vector<Tensor>& t, const AllReduceOptions& o) override { return issue(ALLREDUCE_, t, o.reduceOp); }
  std::shared_ptr<BackendOptions> opt;
  std::deque<std::weak_ptr<FakeWork>> pending;
  int next = 0;
};
bool FakeWork::tryFinish() {
  if (over) return true;
  auto& s = G->slot[slot];
  for (int r = 0; r < world; r++) if (!s.have[r].load()) return false;
  int me = be->getRank();
  over = true;
  for (int r = 0; r < world; r++)
    if (s.kind[r] != s.kind[me] || s.n[r] != s.n[me] || s.arg[r] != s.arg[me]) { finish("mismatch"); return true; }
  auto* d = static_cast<float*>(ptr);
  for (int i = 0; i < s.n[me]; i++) {
    if (s.kind[me] == BROADCAST_) { d[i] = s.data[s.arg[me]][i]; continue; }
    float a = s.data[0][i];
    for (int r = 1; r < world; r++) { float b = s.data[r][i]; switch (s.arg[me]) { case PRODUCT: a *= b; break; case MIN: a = std::min(a, b); break; case MAX: a = std::max(a, b); break; default: a += b; } }
    d[i] = s.arg[me] == AVG ? a / (float)world : a;
  }
  finish("");
  return true;
}
bool FakeWork::wait(std::chrono::milliseconds) {
  be->contribute(slot);
  while (!tryFinish()) sched::sleepMs(1);
  return exception().empty();
}

// 12 * k: averages over up to four ranks, and of averages, stay whole
float gval(int r, int p, int t, int64_t i) { return 12.f * (float)((p * 16 + i) * 5 + r + 3 * t); }
struct Model : nn::Module {
  explicit Model(int rank) : r(rank) {
    int p = 0;
    for (auto& d : decl) {
      Tensor t = Tensor::empty(SizeVector(d.shape), d.rg ? options::requiresGrad(true) : Options());
      float* q = t.dataPtr<float>();
      for (int64_t i = 0; i < t.numel(); i++) q[i] = (float)(r * 1000 + p * 16 + i);
      ps.push_back(t); p++;
    }
  }
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override {
    std::vector<std::pair<std::string, TensorPtr>> v;
    for (size_t i = 0; i < ps.size(); i++) v.emplace_back("p" + std::to_string(i), &ps[i]);
    return v;
  }
  Tensor loss(int p, int t) {
    Tensor g = Tensor::empty(ps[p].sizes());
    float* q = g.dataPtr<float>();
    for (int64_t i = 0; i < g.numel(); i++) q[i] = gval(r, p, t, i);
    return function::sum(ps[p] * g);
  }
  Tensor forward(const Tensor& x) override {
    Tensor acc;
    for (int p : order) { Tensor l = loss(p, t); acc = acc.defined() ? (fold == 0 ? acc + l : l + acc) : l; }
    return acc.defined() ? acc : x;
  }
  std::vector<Tensor> ps;
  int r, t = 0, fold = 0;
  std::vector<int> order;
};

void body(int r) {
  auto pg = std::make_shared<DistributedProcessGroup>();
  if (!pg->initProcessGroup(NCCL, "file://" + dir, r, world)) { sched::note("bad init"); return; }
  pg->getProcessGroup()->setBackend(DeviceType::CPU, (BackendType)7, std::make_shared<Fake>(r, world));
  Model m(r);
  std::unique_ptr<DistributedModule> ddp;
  Tensor dummy = Tensor::zeros({1});
  for (auto& s : steps) {
    auto& k = s[0];
    if (k == "make") ddp = std::make_unique<DistributedModule>(m, pg, atoi(s[1].c_str()), atoll(s[2].c_str()));
    else if (k == "pass") {     // pass graph|graph2|direct zero t order-of-rank0/order-of-rank1/...
      m.t = atoi(s[3].c_str());
      if (s[2] == "1") for (auto& p : m.ps) if (p.requiresGrad()) p.zeroGrad();
      auto o = drv::ints(drv::split(s[4], '/')[r]);
      std::vector<int> order(o.begin(), o.end());
      if (s[1] == "direct") {
        m.order = {};
        if (ddp) ddp->forward(dummy);
        for (int p : order) { auto l = m.loss(p, m.t); l.backward(); }
      } else {
        m.order = order; m.fold = s[1] == "graph2";
        Tensor l = ddp ? ddp->forward(dummy) : m.forward(dummy);
        if (!order.empty()) l.backward();
      }
    } else if (k == "eval") {
      WithNoGrad { m.order = {}; if (ddp) ddp->forward(dummy); }
    } else if (k == "drop") ddp.reset();
    else _exit(9);
    std::string line = "st " + std::to_string(r) + " " + std::to_string(stepNo++);
    for (auto& p : m.ps) {
      line += " " + vals(static_cast<const Tensor&>(p).dataPtr<float>(), p.numel()) + ";";
      if (p.requiresGrad() && p.grad().defined()) { const Tensor g = p.grad(); line += vals(static_cast<const Tensor&>(g).dataPtr<float>(), g.numel()); } else line += "-";
    }
    sched::note(line);
  }
  ddp.reset();
}
void rmTree(const std::string& p) {
  DIR* d = opendir(p.c_str());
  if (d) {
    while (auto* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") rmTree(p + "/" + n); }
    closedir(d); rmdir(p.c_str());
  } else ::unlink(p.c_str());
}
void exec(const Toks& t) {
  if (t[0] == "DDP") { world = atoi(t[1].c_str()); lateSnap = atoi(t[2].c_str()); eager = atoi(t[3].c_str()); }
  else if (t[0] == "P") { auto v = drv::ints(t[1]); decl.push_back({std::vector<int64_t>(v.begin(), v.end()), t[2] == "1"}); }
  else if (t[0] == "S") steps.push_back(Toks(t.begin() + 1, t.end()));
  else if (t[0] == "RUN") {
    const char* base = getenv("TT_SCRATCH");
    std::string top = std::string(base ? base : "/dev/shm") + "/ttkv-XXXXXX";
    if (!mkdtemp(&top[0])) _exit(9);
    dir = top + "/store";
    G = static_cast<World*>(mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (G == MAP_FAILED) _exit(9);
    sched::init(sched::parse(Toks(t.begin() + 1, t.end())));
    std::string bl;
    std::vector<int> slots;
    for (int r = 0; r < world; r++) slots.push_back(sched::processWorker([r] { body(r); }));
    auto how = sched::run();
    for (auto& h : sched::history()) drv::emit("H " + h);
    for (int s : slots) bl += " " + sched::blockedAt(s);
    drv::emit("R " + how + " " + std::to_string(sched::nowMs()) + " died " + std::to_string(sched::died()) + bl);
    sched::killAll();
    if (top.find("/ttkv-") != std::string::npos) rmTree(top);
  } else _exit(9);
}
}  // namespace
int main() { return drv::mainLoop(exec, 30); }
