// Module tree commands (included by ttdrv.cpp after its tensor helpers).
#pragma once
#include "Modules.h"
#include "Serializer.h"

struct NodeH {
  std::shared_ptr<nn::Module> m; nn::ModuleList* list = nullptr;
  std::function<bool()> training; std::string kind; std::vector<int> kids;
};
static std::map<int, NodeH> MD;
struct RootAccess {};
template <class M> struct Pb : M { using M::M; bool tr() const { return this->training_; } };
// a user's module: own parameter and plain state (block) or neither (plain), forward is an affine map followed by the children
struct Blk : nn::Module {
  Blk(int id, bool own) : id_(id), own_(own) { if (own) { scale = Tensor::empty({2}, options::requiresGrad(true)); mean = Tensor::empty({1, 2}); } }
  Tensor forward(const Tensor& x) override { Tensor y = x * 2 + id_; for (auto& k : subModules_) y = k.second.get()(y); return y; }
  void resetParameters() override { if (own_) { scale.fill_(5); mean.fill_(6); } Module::resetParameters(); }
  bool tr() const { return training_; }
  std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { if (own_) return {{"scale", &scale}}; return {}; }
  std::vector<std::pair<std::string, TensorPtr>> namedStates_() override { if (own_) return {{"scale", &scale}, {"mean", &mean}}; return {}; }
  int id_; bool own_; Tensor scale, mean;
};
// a module with arbitrary named states
struct Holder : nn::Module {
  std::vector<std::string> names; std::deque<Tensor> ts;
  std::vector<std::pair<std::string, TensorPtr>> namedStates_() override {
    std::vector<std::pair<std::string, TensorPtr>> r; for (size_t i = 0; i < names.size(); i++) r.emplace_back(names[i], &ts[i]); return r; }
};
template <class M, class... A> static NodeH mkNode(A&&... a) { auto p = std::make_shared<Pb<M>>(std::forward<A>(a)...); auto* q = p.get(); NodeH h; h.m = p; h.training = [q] { return q->tr(); }; return h; }
template <class M> static NodeH mkList() { auto p = std::make_shared<Pb<M>>(std::initializer_list<std::shared_ptr<nn::Module>>{}); auto* q = p.get(); NodeH h; h.m = p; h.list = q; h.training = [q] { return q->tr(); }; return h; }
static NodeH makeModule(const std::string& k, int id) {
  NodeH h;
  if (k == "linear") h = mkNode<nn::Linear>(2, 2, true);
  else if (k == "linnb") h = mkNode<nn::Linear>(2, 2, false);
  else if (k == "conv") h = mkNode<nn::Conv2D>(2, 3, Dim2D(2, 1));
  else if (k == "convnb") h = mkNode<nn::Conv2D>(2, 1, Dim2D(2), Dim2D(1), Dim2D(0), false);
  else if (k == "lnorm") h = mkNode<nn::LayerNorm>(SizeVector{3});
  else if (k == "lnormnb") h = mkNode<nn::LayerNorm>(SizeVector{3}, 1e-5f, false);
  else if (k == "rms") h = mkNode<nn::RMSNorm>(SizeVector{4});
  else if (k == "emb") h = mkNode<nn::Embedding>(5, 3);
  else if (k == "rope") h = mkNode<nn::RoPE>(4, 3, 100.f);
  else if (k == "relu") h = mkNode<nn::Relu>();
  else if (k == "flat") h = mkNode<nn::Flatten>();
  else if (k == "drop") h = mkNode<nn::Dropout>(0.5f);
  else if (k == "list") h = mkList<nn::ModuleList>();
  else if (k == "seq") h = mkList<nn::Sequential>();
  else if (k == "block" || k == "plain") { auto p = std::make_shared<Blk>(id, k == "block"); h.m = p; auto* q = p.get(); h.training = [q] { return q->tr(); }; }
  else { fprintf(stderr, "bad module kind %s\n", k.c_str()); _exit(9); }
  h.kind = k;
  return h;
}
static std::vector<std::pair<std::string, TensorPtr>> own(int id) {
  auto& h = MD[id];
  if (h.kind == "block" || h.kind == "plain") return ((Blk*)h.m.get())->namedStates_();
  if (h.list) return {};
  return h.m->namedStates();
}
static void each(int id, const std::function<void(int, const std::string&, Tensor&)>& f) {
  for (auto& p : own(id)) f(id, p.first, *p.second);
  for (int k : MD[id].kids) each(k, f);
}
static std::string states(const std::vector<std::pair<std::string, TensorPtr>>& l, bool grads) {
  std::string s = "["; bool first = true;
  for (auto& p : l) {
    s += (first ? "" : ","); first = false;
    s += "[\"" + p.first + "\"," + obs(*p.second);
    if (grads) s += "," + (p.second->requiresGrad() ? obs(p.second->grad()) : std::string("{\"u\":3}"));
    s += "]";
  }
  return s + "]";
}
static bool modExec(const Toks& t) {
  const auto& k = t[0];
  if (k == "MN") {  // MN id kind parent name how
    int id = atoi(t[1].c_str()), par = atoi(t[3].c_str());
    if (par && MD[par].list && t.size() > 5 && t[5] == "emplace" && (t[2] == "relu" || t[2] == "linear" || t[2] == "seq" || t[2] == "drop")) {
      auto* l = MD[par].list; NodeH h; h.kind = t[2];
      if (t[2] == "relu") l->emplaceBack<Pb<nn::Relu>>();
      else if (t[2] == "linear") l->emplaceBack<Pb<nn::Linear>>(2, 2);
      else if (t[2] == "drop") l->emplaceBack<Pb<nn::Dropout>>(0.5f);
      else l->emplaceBack<Pb<nn::Sequential>>(std::initializer_list<std::shared_ptr<nn::Module>>{});
      h.m = *(l->end() - 1);
      if (t[2] == "relu") { auto* q = (Pb<nn::Relu>*)h.m.get(); h.training = [q] { return q->tr(); }; }
      if (t[2] == "linear") { auto* q = (Pb<nn::Linear>*)h.m.get(); h.training = [q] { return q->tr(); }; }
      if (t[2] == "drop") { auto* q = (Pb<nn::Dropout>*)h.m.get(); h.training = [q] { return q->tr(); }; }
      if (t[2] == "seq") { auto* q = (Pb<nn::Sequential>*)h.m.get(); h.list = q; h.training = [q] { return q->tr(); }; }
      MD[id] = h;
    } else {
      MD[id] = makeModule(t[2], id);
      if (par) { if (MD[par].list) MD[par].list->pushBack(MD[id].m); else if (t.size() > 5 && t[5] == "batch") MD[par].m->registerModules({{t[4], *MD[id].m}}); else MD[par].m->registerModule(t[4], *MD[id].m); }
    }
    if (par) MD[par].kids.push_back(id);
  } else if (k == "MI") {  // MI id list|seq child,child: a container built from an initializer list of existing modules
    int id = atoi(t[1].c_str()); auto c = ints(t.size() > 3 ? t[3] : "-"); NodeH h; h.kind = t[2];
    using P = std::shared_ptr<nn::Module>; std::vector<P> v; for (auto x : c) { v.push_back(MD[x].m); h.kids.push_back((int)x); }
    auto make = [&](std::initializer_list<P> l) {
      if (t[2] == "list") { auto p = std::make_shared<Pb<nn::ModuleList>>(l); auto* q = p.get(); h.m = p; h.list = q; h.training = [q] { return q->tr(); }; }
      else { auto p = std::make_shared<Pb<nn::Sequential>>(l); auto* q = p.get(); h.m = p; h.list = q; h.training = [q] { return q->tr(); }; } };
    switch (v.size()) { case 0: make({}); break; case 1: make({v[0]}); break; case 2: make({v[0], v[1]}); break; default: make({v[0], v[1], v[2]}); }
    MD[id] = h;
  } else if (k == "MA") {  // MA parent name child: attach an existing module
    int par = atoi(t[1].c_str()), id = atoi(t[3].c_str());
    if (MD[par].list) MD[par].list->pushBack(MD[id].m); else MD[par].m->registerModule(t[2], *MD[id].m);
    MD[par].kids.push_back(id);
  } else if (k == "MS") {  // MS id [prefix]: the states, and the parameters, under their paths
    auto& m = *MD[atoi(t[1].c_str())].m; std::string pre = t.size() > 2 ? t[2] : "";
    emit("MS s " + states(m.namedStates(pre), true)); emit("MP s " + states(m.namedParameters(pre), false));
    auto a = m.states(), b = m.parameters(); auto x = m.namedStates(pre), y = m.namedParameters(pre); bool same = a.size() == x.size() && b.size() == y.size();
    for (size_t i = 0; same && i < a.size(); i++) same = a[i] == x[i].second;
    for (size_t i = 0; same && i < b.size(); i++) same = b[i] == y[i].second;
    std::set<TensorPtr> u(a.begin(), a.end());
    // the listed tensors are the modules' own
    std::set<TensorPtr> mine; each(atoi(t[1].c_str()), [&](int, const std::string&, Tensor& x) { mine.insert(&x); });
    emit(std::string("MU s [") + (same ? "1" : "0") + "," + (u.size() == a.size() ? "1" : "0") + "," + (u == mine ? "1" : "0") + "]");
  } else if (k == "MQ") { std::string s = "{"; for (auto& p : MD) s += (s.size() > 1 ? ",\"" : "\"") + std::to_string(p.first) + "\":" + (p.second.training() ? "1" : "0"); emit("MQ s " + s + "}");
  } else if (k == "MT") { auto& m = *MD[atoi(t[1].c_str())].m; if (t[2] == "0") m.eval(); else m.train();
  } else if (k == "MZ") { MD[atoi(t[1].c_str())].m->zeroGrad();
  } else if (k == "MR") { if (t.size() > 2) MD[atoi(t[1].c_str())].m->initParameters(); else MD[atoi(t[1].c_str())].m->resetParameters();
  } else if (k == "MTO") { auto& m = *MD[atoi(t[1].c_str())].m; if (t.size() > 3) m.to(dt(t[2]), Device::cpu()); else { m.to(dt(t[2])); m.to(Device::cpu()); }
  } else if (k == "MFILL") { double v = strtod(t[2].c_str(), nullptr); each(atoi(t[1].c_str()), [&](int, const std::string&, Tensor& x) { NoGradGuard g; x.fill_((float)v); });
  } else if (k == "MGRAD") { double v = strtod(t[2].c_str(), nullptr); each(atoi(t[1].c_str()), [&](int, const std::string&, Tensor& x) { if (x.requiresGrad()) { Tensor g = Tensor::empty(x.shape(), options::dtype(x.dtype())); g.fill_((float)v); x.setGrad(g); } });
  } else if (k == "MFRZ") { for (auto& p : own(atoi(t[1].c_str()))) if (p.first == t[2]) p.second->setRequiresGrad(false);
  } else if (k == "MF") { R[t[2]] = (*MD[atoi(t[1].c_str())].m)(R[t[3]]);
  } else if (k == "MH") {  // MH id parent name: a holder of arbitrary states
    int id = atoi(t[1].c_str()), par = atoi(t[2].c_str()); NodeH h; h.m = std::make_shared<Holder>(); h.kind = "holder"; h.training = [] { return true; }; MD[id] = h;
    if (par) { MD[par].m->registerModule(t[3] == "''" ? "" : t[3], *h.m); MD[par].kids.push_back(id); }
  } else if (k == "MHS") {  // MHS id name reg: adds the tensor in reg as a state ('' for the empty name, a*N for N letters)
    std::string n = t[2] == "''" ? "" : t[2]; if (n.size() > 2 && n[1] == '*') n = std::string(atoi(n.c_str() + 2), n[0]);
    auto* h = (Holder*)MD[atoi(t[1].c_str())].m.get(); h->names.push_back(n); h->ts.push_back(std::move(R[t[3]])); R.erase(t[3]);
  } else if (k == "MHR") {  // MHR id index reg: register reg becomes a handle on the state's tensor
    R[t[3]] = ((Holder*)MD[atoi(t[1].c_str())].m.get())->ts.at(atoi(t[2].c_str()));
  } else if (k == "MBITS") {  // MBITS reg values: overwrite the tensor's elements, as bit patterns
    auto& x = R[t[1]]; auto v = ints(t[2]); Tensor y = Tensor::empty(x.shape(), options::dtype(x.dtype())); void* p = y.dataPtr<void>();
    for (size_t i = 0; i < v.size(); i++) switch (dtypeSize(x.dtype())) { case 1: ((uint8_t*)p)[i] = (uint8_t)v[i]; break; case 2: ((uint16_t*)p)[i] = (uint16_t)v[i]; break;
      case 4: ((uint32_t*)p)[i] = (uint32_t)v[i]; break; default: ((int64_t*)p)[i] = v[i]; }
    { NoGradGuard g; x.fill_(0); } memcpy(x.dataPtr<void>(), ((const Tensor&)y).dataPtr<void>(), v.size() * dtypeSize(x.dtype()));
  } else if (k == "SAVE") { emit("SAVE s " + std::to_string((int)save(*MD[atoi(t[1].c_str())].m, t[2])));
  } else if (k == "LOAD") { emit("LOAD s " + std::to_string((int)load(*MD[atoi(t[1].c_str())].m, t[2], t[3] == "1")));
  } else return false;
  return true;
}
