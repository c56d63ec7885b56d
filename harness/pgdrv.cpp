// Process groups: the registry of back ends, the NCCL back end over a stand-in NCCL, initialisation, and work handles used by
// several threads under the controlled scheduler.
#include "drv.h"
#include "vsched.h"
#include "fakenccl.h"
#include "Distributed/BackendNCCL.h"
#include "Distributed/DistributedProcessGroup.h"
#include "Distributed/FileStore.h"
#include "Functions.h"
#include <dirent.h>
#include <sys/stat.h>
using namespace tinytorch;
using namespace tinytorch::distributed;
using drv::Toks;
using std::chrono::milliseconds;
std::string drv::out;

namespace {
std::string top;
std::string scratch() {
  if (top.empty()) {
    const char* base = getenv("TT_SCRATCH");
    top = std::string(base ? base : "/dev/shm") + "/ttkv-XXXXXX";
    if (!mkdtemp(&top[0])) _exit(9);
  }
  return top;
}
void rmTree(const std::string& p) {
  DIR* d = opendir(p.c_str());
  if (d) {
    while (auto* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") rmTree(p + "/" + n); }
    closedir(d); rmdir(p.c_str());
  } else ::unlink(p.c_str());
}
void clean() { if (!top.empty() && top.find("/ttkv-") != std::string::npos) rmTree(top); top.clear(); }
std::string num(int64_t v) { return std::to_string(v); }
int in(const std::string& s) { return atoi(s.c_str()); }

// ---- whole numbers in tensors of any type
DType dt(const std::string& s) { return s == "f16" ? DType::Float16 : s == "bf16" ? DType::BFloat16 : s == "i32" ? DType::Int32 : s == "i64" ? DType::Int64 : s == "b8" ? DType::Bool : DType::Float32; }
size_t width(DType d) { switch (d) { case DType::Int64: return 8; case DType::Float16: case DType::BFloat16: return 2; case DType::Bool: return 1; default: return 4; } }
void put(void* p, DType d, size_t i, int64_t v) {
  switch (d) {
    case DType::Float32: ((float*)p)[i] = (float)v; break;
    case DType::Float16: ((Half*)p)[i] = Half((float)v); break;
    case DType::BFloat16: ((BFloat16*)p)[i] = BFloat16((float)v); break;
    case DType::Int32: ((int32_t*)p)[i] = (int32_t)v; break;
    case DType::Int64: ((int64_t*)p)[i] = v; break;
    default: ((uint8_t*)p)[i] = (uint8_t)v;
  }
}
int64_t get(const void* p, DType d, size_t i) {
  switch (d) {
    case DType::Float32: return (int64_t)((const float*)p)[i];
    case DType::Float16: return (int64_t)(float)((const Half*)p)[i];
    case DType::BFloat16: return (int64_t)(float)((const BFloat16*)p)[i];
    case DType::Int32: return ((const int32_t*)p)[i];
    case DType::Int64: return ((const int64_t*)p)[i];
    default: return ((const uint8_t*)p)[i];
  }
}
int64_t inVal(DType d, int j, int64_t i) { return d == DType::Bool ? (i + j) % 2 : 1 + 7 * j + i; }
int64_t resVal(DType d, int64_t i) { return d == DType::Bool ? (i % 3 == 0) : 3 + 2 * i; }
std::string show(const Tensor& t) { std::string s; const void* p = t.dataPtr<>(); for (int64_t i = 0; i < t.numel(); i++) s += (i ? "," : "") + num(get(p, t.dtype(), i)); return s; }
Tensor fresh(DType d, int64_t n) {
  Tensor t = (n > 1 && n % 2 == 0) ? Tensor::zeros({2, n / 2}, Options(Device(DeviceType::CPU), d)) : Tensor::zeros({n}, Options(Device(DeviceType::CPU), d));
  return t;
}

// ---- the NCCL back end
struct Op { std::string kind; DType d; std::vector<Tensor> ins, outs; std::shared_ptr<Work> w; std::string seen; };
std::map<int, Op> ops;
std::shared_ptr<BackendNCCL> nb;
struct FS : FileStore {
  FS(const std::string& p, milliseconds t) : FileStore(p) { timeout_ = t; }
};
std::shared_ptr<FileStore> fst;
int nRank = 0, nWorld = 1;
size_t logged = 0;
std::map<const void*, std::string> seenAt;   // by what identifies a call: filled by the hook in order
std::deque<std::pair<int, int>> order;
std::vector<Tensor> junk;
std::string newCalls() {
  std::string s;
  for (; logged < fake::calls.size(); logged++) {
    auto& c = fake::calls[logged];
    s += s.empty() ? "" : ",";
    if (c.name == "init") s += "init:" + num(c.a) + ":" + num(c.b);
    else if (c.dtype < 0) s += c.name;
    else s += c.name + ":" + num(c.count) + ":" + num(c.dtype) + ":" + num(c.op) + ":" + num(c.peer) + ":" + num(c.a) + ":" + num(c.b);
  }
  return s.empty() ? "-" : s;
}
DType ofNccl(int t) { switch (t) { case 2: return DType::Int32; case 4: return DType::Int64; case 6: return DType::Float16; case 9: return DType::BFloat16; case 1: return DType::Bool; default: return DType::Float32; } }
std::vector<std::string> seenLog;
void move(const fake::Call& c) {
  DType d = ofNccl(c.dtype);
  size_t nin = c.name == "reduceScatter" ? c.count * c.b : c.count, nout = c.name == "allGather" ? c.count * c.b : c.count;
  std::string s = c.name + ":";
  if (c.src && !(c.name == "broadcast" && c.a != c.peer)) for (size_t i = 0; i < nin; i++) s += (i ? "," : "") + num(get(c.src, d, i));
  seenLog.push_back(s);
  if (c.dst && !(c.name == "reduce" && c.a != c.peer)) for (size_t i = 0; i < nout; i++) put(c.dst, d, i, resVal(d, (int64_t)i));
}
void nccl(const Toks& t) {
  auto& k = t[0];
  if (k == "NC") {
    nRank = in(t[1]); nWorld = in(t[2]);
    fake::hook = move;
    fst = std::make_shared<FS>(scratch() + "/st", milliseconds(200));
    if (nRank != 0) {   // the first rank publishes the identity of the communicator
      auto first = std::make_shared<BackendNCCL>(fst, 0, nWorld);
      std::vector<Tensor> v = {fresh(DType::Float32, 1)};
      auto w = first->allReduce(v, {}); w->wait(); first->shutdown(); fake::flush();
      fake::calls.clear(); seenLog.clear(); logged = 0;
    }
    nb = std::make_shared<BackendNCCL>(fst, nRank, nWorld);
  } else if (k == "NO") {   // NO id kind dtype red root n fail eager late drop polls
    Op o; o.kind = t[2]; o.d = dt(t[3]);
    int red = in(t[4]), root = in(t[5]); int64_t n = in(t[6]);
    bool late = t[9] == "1", drop = t[10] == "1";
    fake::eager = t[8] == "1"; fake::endPolls = in(t[11]);
    if (t[7] != "-") fake::fail[t[7]] = ncclInternalError;
    int nin = o.kind == "reduceScatter" ? nWorld : 1;
    for (int j = 0; j < nin; j++) o.ins.push_back(fresh(o.d, n));
    std::vector<Tensor> ins = o.ins;
    DType d = o.d;
    if (late) for (int j = 0; j < nin; j++) fake::onCompute(0, [p = ins[j].dataPtr<>(), n, d, j] { for (int64_t i = 0; i < n; i++) put(p, d, i, inVal(d, j, i)); });
    else for (int j = 0; j < nin; j++) for (int64_t i = 0; i < n; i++) put(ins[j].dataPtr<>(), d, i, inVal(d, j, i));
    // inputs written late must be kept by the caller until they are written
    std::vector<Tensor> v;
    if (o.kind == "broadcast" || o.kind == "allReduce" || o.kind == "reduce" || o.kind == "send" || o.kind == "recv") {
      v = {o.ins[0]}; o.outs = {o.ins[0]};
      if (o.kind == "broadcast") { BroadcastOptions b; b.rootRank = root; o.w = nb->broadcast(v, b); }
      else if (o.kind == "allReduce") { AllReduceOptions b; b.reduceOp = (ReduceOpType)red; o.w = nb->allReduce(v, b); }
      else if (o.kind == "reduce") { ReduceOptions b; b.reduceOp = (ReduceOpType)red; b.rootRank = root; o.w = nb->reduce(v, b); }
      else if (o.kind == "send") o.w = nb->send(v, root);
      else o.w = nb->recv(v, root);
      if (drop) o.outs.clear();
    } else if (o.kind == "allGather") {
      std::vector<std::vector<Tensor>> outs(1);
      for (int j = 0; j < nWorld; j++) outs[0].push_back(fresh(o.d, n));
      v = {o.ins[0]}; o.outs = outs[0];
      o.w = nb->allGather(outs, v, {});
    } else {
      std::vector<std::vector<Tensor>> ii = {o.ins};
      v = {fresh(o.d, n)}; o.outs = v;
      ReduceScatterOptions b; b.reduceOp = (ReduceOpType)red;
      o.w = nb->reduceScatter(v, ii, b);
    }
    fake::fail.clear();
    if (drop) {   // the caller lets go of what it handed over; the memory is used for something else
      o.ins.clear(); ins.clear(); v.clear();
      for (int q = 0; q < 6; q++) for (int64_t m : {n, n * nWorld}) { Tensor x = fresh(o.d, m); memset(x.dataPtr<>(), 0x77, width(o.d) * m); junk.push_back(x); }
    }
    drv::emit("O " + num(o.w != nullptr) + " " + num((int)nb->getError()) + " " + newCalls() + " open " + num((int64_t)fake::openGroups) + (o.w ? " " + num(o.w->getRank()) + " " + opTypeToString(o.w->getOpType()) : ""));
    ops[in(t[1])] = std::move(o);
  } else if (k == "NW") {
    auto& o = ops[in(t[1])];
    int ms = in(t[2]);
    bool r = ms ? o.w->wait(milliseconds(ms)) : o.w->wait();
    drv::emit("W " + num(r) + " " + num(o.w->isCompleted()) + " " + num(o.w->isSuccess()) + " " + num(o.w->exception().empty()));
  } else if (k == "NQ") {
    auto& o = ops[in(t[1])];
    drv::emit("Q " + num(o.w->isCompleted()) + " " + num(o.w->isSuccess()) + " " + num(o.w->exception().empty()));
  } else if (k == "NV") {
    auto& o = ops[in(t[1])];
    std::string s = "V";
    for (auto& x : o.outs) s += " " + show(x);
    drv::emit(s);
  } else if (k == "NL") {   // what the operations done so far read
    std::string s = "L"; for (auto& x : seenLog) s += " " + x; seenLog.clear(); drv::emit(s);
  } else if (k == "NH") fake::hung = t[1] == "1";
  else if (k == "NF") fake::flush();
  else if (k == "NA") { nb->abort(); drv::emit("A " + num((int)nb->getError()) + " " + newCalls()); }
  else if (k == "NS") { nb->shutdown(); drv::emit("A " + num((int)nb->getError()) + " " + newCalls()); }
  else if (k == "NX") { ops.clear(); nb.reset(); drv::emit("A 0 " + newCalls()); clean(); }
  else _exit(9);
}

// ---- the registry
std::vector<std::string> glog;
struct FWork : Work { explicit FWork(int i) : id(i) { finish(""); } bool wait(milliseconds) override { waits++; return true; } int id, waits = 0; };
std::shared_ptr<FWork> lastWork;
bool nullWork = false;
std::vector<Tensor> mine;
std::string who(const std::vector<Tensor>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) {
    int f = -1;
    for (size_t j = 0; j < mine.size(); j++) if (v[i].dataPtr<>() == mine[j].dataPtr<>() && v[i].numel() == mine[j].numel()) f = (int)j;
    s += (i ? "," : "") + num(f);
  }
  return s + "]";
}
std::string who(const std::vector<std::vector<Tensor>>& v) { std::string s = "["; for (auto& x : v) s += who(x); return s + "]"; }
struct FB : Backend {
  FB(int i, int r, int n) : Backend(r, n), id(i), opt(std::make_shared<BackendOptions>("fb")) {}
  void setTimeout(milliseconds t) override { opt->timeout = t; }
  std::string getBackendName() const override { return "fb"; }
  std::shared_ptr<BackendOptions> getBackendOptions() override { return opt; }
  std::shared_ptr<Work> log(const std::string& s) { glog.push_back(num(id) + ":" + s); lastWork = std::make_shared<FWork>(++works); if (nullWork) return nullptr; return lastWork; }
  std::shared_ptr<Work> broadcast(std::vector<Tensor>& t, const BroadcastOptions& o) override { return log("broadcast:" + who(t) + ":" + num(o.rootRank)); }
  std::shared_ptr<Work> allReduce(std::vector<Tensor>& t, const AllReduceOptions& o) override { return log("allReduce:" + who(t) + ":" + num(o.reduceOp)); }
  std::shared_ptr<Work> reduce(std::vector<Tensor>& t, const ReduceOptions& o) override { return log("reduce:" + who(t) + ":" + num(o.rootRank) + ":" + num(o.reduceOp)); }
  std::shared_ptr<Work> allGather(std::vector<std::vector<Tensor>>& o, std::vector<Tensor>& i, const AllGatherOptions&) override { return log("allGather:" + who(o) + ":" + who(i)); }
  std::shared_ptr<Work> reduceScatter(std::vector<Tensor>& o, std::vector<std::vector<Tensor>>& i, const ReduceScatterOptions& p) override { return log("reduceScatter:" + who(o) + ":" + who(i) + ":" + num(p.reduceOp)); }
  std::shared_ptr<Work> send(std::vector<Tensor>& t, int d) override { return log("send:" + who(t) + ":" + num(d)); }
  std::shared_ptr<Work> recv(std::vector<Tensor>& t, int d) override { return log("recv:" + who(t) + ":" + num(d)); }
  std::shared_ptr<Work> barrier(const BarrierOptions& o) override {
    std::string s; for (auto x : o.deviceIds) s += (s.empty() ? "" : ",") + num(x);
    return log("barrier:" + s + ":" + (o.device.has_value() ? num((int)o.device->type) : "-"));
  }
  void abort() override { glog.push_back(num(id) + ":abort"); }
  void shutdown() override { glog.push_back(num(id) + ":shutdown"); }
  int id; std::shared_ptr<BackendOptions> opt;
  static int works;
};
int FB::works = 0;
std::map<int, std::shared_ptr<FB>> objs;
std::shared_ptr<ProcessGroup> pg;
std::shared_ptr<DistributedProcessGroup> dpg;
std::string flat() { std::string s; for (auto& x : glog) s += (s.empty() ? "" : ";") + x; glog.clear(); return s.empty() ? "-" : s; }
std::string nameOf(const std::shared_ptr<Backend>& b) {
  if (!b) return "none";
  for (auto& kv : objs) if (kv.second.get() == b.get()) return num(kv.first);
  return b->getBackendName() == "nccl" ? "0" : "?";
}
DeviceType dev(const std::string& s) { return s == "1" ? DeviceType::CUDA : DeviceType::CPU; }
void group(const Toks& t) {
  auto& k = t[0];
  if (k == "GP") {   // GP wrapped rank world
    if (t[1] == "1") {
      dpg = std::make_shared<DistributedProcessGroup>();
      if (!dpg->initProcessGroup(NCCL, "file://" + scratch() + "/st", in(t[2]), in(t[3]))) _exit(9);
      pg = dpg->getProcessGroup();
    } else pg = std::make_shared<ProcessGroup>(nullptr, in(t[2]), in(t[3]));
    for (int i = 1; i <= 4; i++) objs[i] = std::make_shared<FB>(i, in(t[2]), in(t[3]));
    for (int64_t n : {3, 4, 5, 6, 7, 8, 9, 10}) mine.push_back(Tensor::zeros({n}));
  } else if (k == "GB") {   // GB device type object|-
    if (t[3] == "-") pg->setBackend(dev(t[1]), (BackendType)in(t[2]), std::nullopt);
    else pg->setBackend(dev(t[1]), (BackendType)in(t[2]), std::shared_ptr<Backend>(objs[in(t[3])]));
  } else if (k == "GD") pg->setDefaultBackend((BackendType)in(t[1]));
  else if (k == "GT") pg->setTimeout(milliseconds(in(t[1])));
  else if (k == "GN") pg->setGroupName(t[1]);
  else if (k == "GE") pg->setGroupDesc(t[1]);
  else if (k == "GU") pg->setBoundDeviceId(t[1] == "-" ? std::nullopt : std::make_optional(Device(DeviceType::CUDA, (DeviceIndex)in(t[1]))));
  else if (k == "GA") { pg->abort(); drv::emit("A " + flat()); }
  else if (k == "GS") { pg->shutdown(); drv::emit("A " + flat()); }
  else if (k == "GR") pg->releaseResources();
  else if (k == "GX") { pg.reset(); dpg->destroyProcessGroup(); drv::emit("A " + flat() + " " + num(dpg->isInitialized())); }
  else if (k == "GC") {   // GC direct kind a b n null
    bool direct = t[1] == "1"; auto& c = t[2]; int a = in(t[3]), b = in(t[4]), n = in(t[5]);
    nullWork = t[6] == "1"; lastWork.reset();
    std::vector<Tensor> v(mine.begin(), mine.begin() + n), w(mine.begin() + n, mine.begin() + 2 * n);
    std::vector<std::vector<Tensor>> vv = {w};
    std::shared_ptr<Work> r;
    if (c == "broadcast") { BroadcastOptions o; o.rootRank = a; r = direct ? pg->broadcast(v, o) : dpg->broadcast(v, a); }
    else if (c == "allReduce") { AllReduceOptions o; o.reduceOp = (ReduceOpType)b; r = direct ? pg->allReduce(v, o) : dpg->allReduce(v, (ReduceOpType)b); }
    else if (c == "reduce") { ReduceOptions o; o.reduceOp = (ReduceOpType)b; o.rootRank = a; r = direct ? pg->reduce(v, o) : dpg->reduce(v, a, (ReduceOpType)b); }
    else if (c == "allGather") r = direct ? pg->allGather(vv, v, {}) : dpg->allGather(vv, v);
    else if (c == "reduceScatter") { ReduceScatterOptions o; o.reduceOp = (ReduceOpType)b; r = direct ? pg->reduceScatter(v, vv, o) : dpg->reduceScatter(v, vv, (ReduceOpType)b); }
    else if (c == "send") r = direct ? pg->send(v, a) : dpg->send(v, a);
    else if (c == "recv") r = direct ? pg->recv(v, a) : dpg->recv(v, a);
    else if (c == "barrier") {   // a: -1 no device, 0 CPU, 1 CUDA;  b: how many device numbers
      BarrierOptions o; for (int i = 0; i < b; i++) o.deviceIds.push_back(4 + 3 * i);
      if (a >= 0) o.device = Device(a ? DeviceType::CUDA : DeviceType::CPU, 0);
      r = direct ? pg->barrier(o) : dpg->barrier(a == 0, o.deviceIds);
    } else _exit(9);
    drv::emit("P " + flat() + " " + (r == nullptr ? "null" : r.get() == lastWork.get() ? "same" : "other") + " " + num(lastWork ? lastWork->waits : 0));
  } else if (k == "GQ") {   // GQ devices types
    std::string s = "Q " + num(pg->hasBackends()) + " " + num(pg->getBackendType()) + " " + num(pg->getRank()) + " " + num(pg->getSize());
    for (int64_t d : drv::ints(t[1])) { auto be = pg->getBackend(d ? DeviceType::CUDA : DeviceType::CPU); s += " d" + num(d) + "=" + nameOf(be); }
    for (int64_t y : drv::ints(t[2])) s += " t" + num(y) + "=" + nameOf(pg->getBackend((BackendType)y));
    std::vector<int> ds; for (auto& d : pg->getDeviceTypes()) ds.push_back(d.type == DeviceType::CUDA); std::sort(ds.begin(), ds.end());
    s += " has="; for (int d : ds) s += num(d);
    s += " desc=" + pg->getGroupDesc();
    for (auto& o : objs) { auto bd = o.second->getBoundDeviceId(); s += " o" + num(o.first) + "=" + num(o.second->opt->timeout.count()) + ":" + o.second->getGroupName() + ":" + o.second->getGroupDesc() + ":" + (bd ? num(bd->index) : "-"); }
    drv::emit(s);
  } else if (k == "GZ") { pg.reset(); dpg.reset(); clean(); }
  else _exit(9);
}

// ---- initialisation, and works used by several threads
struct Init { int rank, world; std::vector<std::pair<std::string, std::string>> env; std::string method; int backend; long tmo; };
std::vector<Init> inits;
void initBody(int w) {
  auto& c = inits[w];
  for (auto& e : c.env) setenv(e.first.c_str(), e.second.c_str(), 1);
  DistributedProcessGroup g;
  std::string m = c.method;
  if (auto p = m.find("@"); p != std::string::npos) m = m.substr(0, p) + scratch() + m.substr(p + 1);
  bool ok = g.initProcessGroup((BackendType)c.backend, m, c.rank, c.world, milliseconds(c.tmo), false);
  std::string s = "init " + num(w) + " " + num(ok) + " " + num(g.isInitialized());
  if (g.isInitialized()) {
    s += " " + num(g.getRank()) + " " + num(g.getWorldSize());
    auto st = g.getProcessGroup()->getStore();
    if (auto* q = dynamic_cast<TCPStore*>(st.get())) s += " tcp " + q->getHost() + " " + num(q->getPort());
    else if (dynamic_cast<FileStore*>(st.get())) { st->set("there", "1"); s += " file"; }
    else s += " other";
    s += " " + num(g.getProcessGroup()->getBackend(DeviceType::CUDA)->getBackendOptions()->timeout.count()) + " " + num(g.getProcessGroup()->getBackendType());
    sched::note(s);
    bool again = g.initProcessGroup(NCCL, "file://" + scratch() + "/other", 0, 1);
    sched::note("again " + num(w) + " " + num(again) + " " + num(g.isInitialized()) + " " + num(g.getProcessGroup()->getStore() == st));
    sched::sleepMs(500);
    g.destroyProcessGroup();
    bool third = g.initProcessGroup(NCCL, "file://" + scratch() + "/third", 1, 3);
    sched::note("third " + num(w) + " " + num(third) + " " + num(third ? g.getRank() : -1) + " " + num(third ? g.getWorldSize() : -1));
  } else sched::note(s);
}
struct XWork : Work { XWork() : Work(2, OpType::SEND) {} using Work::finish; };
std::shared_ptr<Work> theWork;
bool evDone = false;
std::vector<std::vector<Toks>> progs;
std::function<void()> makeWork;
std::once_flag made;
void workBody(int w) {
  std::call_once(made, [] { makeWork(); });
  int id = 0;
  for (auto& o : progs[w]) {
    if (o[0] == "at") { int64_t d = atoll(o[1].c_str()) - sched::nowMs(); if (d > 0) sched::sleepMs(d); continue; }
    std::string line; for (auto& x : o) line += " " + x;
    std::string tag = num(w) + " " + num(id++);
    sched::note("call " + tag + line);
    int64_t r = 0;
    if (o[0] == "ok") static_cast<XWork*>(theWork.get())->finish("");
    else if (o[0] == "err") static_cast<XWork*>(theWork.get())->finish("bad" + o[1]);
    else if (o[0] == "ev") { sched::sleepMs(0); evDone = true; }
    else if (o[0] == "wait") r = o.size() > 1 && o[1] != "0" ? theWork->wait(milliseconds(in(o[1]))) : theWork->wait();
    else if (o[0] == "done") r = theWork->isCompleted();
    else if (o[0] == "succ") r = theWork->isSuccess();
    else if (o[0] == "exc") { std::string e = theWork->exception(); r = e.empty() ? 0 : e.compare(0, 3, "bad") == 0 ? in(e.substr(3)) : 99; }
    else _exit(9);
    sched::note("ret " + tag + " " + num(r));
  }
}
void result(const std::string& how) {
  for (auto& h : sched::history()) drv::emit("H " + h);
  drv::emit("R " + how + " " + num(sched::nowMs()) + " died " + num(sched::died()));
  sched::killAll();
}
void exec(const Toks& t) {
  auto& k = t[0];
  if (k[0] == 'N') nccl(t);
  else if (k[0] == 'G') group(t);
  else if (k == "IN") {   // IN backend rank world timeout method ENV=VALUE...
    Init c{in(t[2]), in(t[3]), {}, t[5], in(t[1]), in(t[4])};
    for (size_t i = 6; i < t.size(); i++) { auto p = t[i].find('='); c.env.emplace_back(t[i].substr(0, p), t[i].substr(p + 1)); }
    inits.push_back(c);
  } else if (k == "IRUN") {
    for (const char* e : {"MASTER_ADDR", "MASTER_PORT", "WORLD_SIZE", "RANK"}) unsetenv(e);
    scratch();
    sched::init(sched::parse(Toks(t.begin() + 1, t.end())));
    for (size_t w = 0; w < inits.size(); w++) sched::processWorker([w] { initBody((int)w); });
    result(sched::run());
    std::string s; 
    if (DIR* d = opendir(top.c_str())) { std::vector<std::string> v; while (auto* e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); std::sort(v.begin(), v.end()); for (auto& x : v) s += " " + x; }
    drv::emit("F" + s);
    clean();
  } else if (k == "WP") { size_t w = in(t[1]); if (progs.size() <= w) progs.resize(w + 1); progs[w].push_back(Toks(t.begin() + 2, t.end())); }
  else if (k == "WRUN") {   // WRUN base|nccl schedule
    sched::init(sched::parse(Toks(t.begin() + 2, t.end())));
    bool base = t[1] == "base";
    makeWork = [base] {   // by a managed thread: its clock is the virtual one
      if (base) { theWork = std::make_shared<XWork>(); return; }
      static Device d(DeviceType::CPU, 0);
      fake::eventDone = [] { return evDone; };
      auto w = std::make_shared<WorkNCCL>("u", "d", d, 2, OpType::SEND);
      w->setCudaEvent(cuda::createCUDAEvent(0));
      w->setOpTimeout(milliseconds(5000));
      theWork = w;
    };
    for (size_t w = 0; w < progs.size(); w++) sched::threadWorker([w] { workBody((int)w); });
    result(sched::run());
  } else _exit(9);
}
}  // namespace
int main() { return drv::mainLoop(exec, 30); }
