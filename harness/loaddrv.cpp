// Drives DataLoader, the samplers and the MNIST data set, and records what they hand out.
#include "drv.h"
#include "Data/DataLoader.h"
#include "Data/DatasetMNIST.h"
#include "Data/Transform.h"
#ifdef TT_DIST
#include "Distributed/DistributedSampler.h"
#endif
std::string drv::out;
using namespace tinytorch;
using namespace drv;

struct Numbers : data::Dataset {
  size_t n;
  explicit Numbers(size_t k) : n(k) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override {
    float x = static_cast<float>(i);
    std::vector<float> m;
    for (int j = 1; j <= 6; j++) m.push_back(100 * x + j);
    Tensor a(m, options::dtype(DType::Float32));
    a.reshape_({2, 3});
    return {a, Tensor::scalar(static_cast<int64_t>(i), options::dtype(DType::Int64)),
            Tensor(std::vector<float>{-x, x * x}, options::dtype(DType::Float32))};
  }
};
struct Given : data::Sampler {
  std::vector<size_t> v;
  std::vector<size_t> indices() const override { return v; }
  size_t size() const override { return v.size(); }
};

static std::string num(double d) {
  if (d == static_cast<double>(static_cast<int64_t>(d))) return std::to_string(static_cast<int64_t>(d));
  char b[64]; snprintf(b, 64, "%.9g", d); return b;
}
static std::string show(const Tensor& t) {
  std::string s = "{\"shape\":[";
  for (int64_t i = 0; i < t.dim(); i++) s += (i ? "," : "") + std::to_string(t.size(i));
  s += "],\"dt\":" + std::to_string(static_cast<int>(t.dtype())) + ",\"d\":[";
  bool first = true;
  auto add = [&](double d) { s += (first ? "" : ",") + num(d); first = false; };
  if (t.dtype() == DType::Int64) for (auto x : t.toList<int64_t>()) add(static_cast<double>(x));
  else for (auto x : t.toList<float>()) add(x);
  return s + "]}";
}
static std::string list(const std::vector<size_t>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}

static std::shared_ptr<data::Dataset> ds;
static std::map<std::string, std::shared_ptr<data::Sampler>> smp;
static std::unique_ptr<data::DataLoader> ld;
static std::vector<data::DataLoader::Iterator> its;

static void batch(const std::string& ev, int k) {
  auto [no, b] = *its[k];
  std::string s = "{\"e\":\"" + ev + "\",\"it\":" + std::to_string(k + 1) + ",\"no\":" + std::to_string(no) + ",\"f\":[";
  for (size_t j = 0; j < b.size(); j++) s += (j ? "," : "") + show(b[j]);
  emit(s + "]}");
}

static void exec(const Toks& t) {
  const auto& c = t[0];
  if (c == "DS") ds = std::make_shared<Numbers>(std::stoull(t[1]));
  else if (c == "MNIST") {   // dir train(0/1) k1,j1;k2,j2...
    std::shared_ptr<data::transforms::Transform> tr;
    auto norm = [](const std::string& s) { auto v = ints(s); return data::transforms::Normalize(static_cast<float>(v[0]) / 255.f, 1.f / static_cast<float>(1 << v[1])); };
    if (t.size() > 3) {
      auto ps = split(t[3], ';');
      if (ps.size() == 1 && t[4] == "plain") tr = std::make_shared<data::transforms::Normalize>(norm(ps[0]));
      else if (t[4] == "list") {
        auto cp = ps.size() == 1 ? std::make_shared<data::transforms::Compose>(std::initializer_list<std::shared_ptr<data::transforms::Transform>>{std::make_shared<data::transforms::Normalize>(norm(ps[0]))})
                : std::make_shared<data::transforms::Compose>(std::initializer_list<std::shared_ptr<data::transforms::Transform>>{std::make_shared<data::transforms::Normalize>(norm(ps[0])), std::make_shared<data::transforms::Normalize>(norm(ps[1]))});
        tr = cp;
      } else if (ps.size() == 1) tr = std::make_shared<data::transforms::Compose>(norm(ps[0]));
      else if (ps.size() == 2) tr = std::make_shared<data::transforms::Compose>(norm(ps[0]), norm(ps[1]));
      else tr = std::make_shared<data::transforms::Compose>(norm(ps[0]), norm(ps[1]), norm(ps[2]));
    }
    ds = std::make_shared<data::DatasetMNIST>(t[1], t[2] == "1" ? data::DatasetMNIST::TRAIN : data::DatasetMNIST::TEST, tr);
    emit("{\"e\":\"data\",\"n\":" + std::to_string(ds->size()) + "}");
  } else if (c == "ITEM") {
    auto v = ds->getItem(std::stoull(t[1]));
    std::string s = "{\"e\":\"item\",\"i\":" + t[1] + ",\"f\":[";
    for (size_t j = 0; j < v.size(); j++) s += (j ? "," : "") + show(v[j]);
    emit(s + "]}");
  } else if (c == "GSEED") { manualSeed(std::stoull(t[1])); }
  else if (c == "SMP") {  // name kind args
    if (t[2] == "seq") smp[t[1]] = std::make_shared<data::SequentialSampler>(std::stoull(t[3]));
    else if (t[2] == "rand") smp[t[1]] = std::make_shared<data::RandomSampler>(std::stoull(t[3]), std::stoull(t[4]));
    else if (t[2] == "list") { auto g = std::make_shared<Given>(); for (auto x : ints(t[3])) g->v.push_back(static_cast<size_t>(x)); smp[t[1]] = g; }
#ifdef TT_DIST
    else if (t[2] == "dist")  // n R rank shuffle seed drop
      smp[t[1]] = std::make_shared<distributed::DistributedSampler>(std::stoull(t[3]), std::stoull(t[4]), std::stoull(t[5]), t[6] == "1", std::stoull(t[7]), t[8] == "1");
#endif
    else _exit(9);
  } else if (c == "EPOCH") smp[t[1]]->setEpoch(std::stoull(t[2]));
  else if (c == "IDX") emit("{\"e\":\"idx\",\"s\":\"" + t[1] + "\",\"list\":" + list(smp[t[1]]->indices()) + ",\"size\":" + std::to_string(smp[t[1]]->size()) + "}");
  else if (c == "LD") {  // batch drop sampler|shuffle|natural
    its.clear();
    std::shared_ptr<data::Sampler> s;
    if (t[3] != "shuffle" && t[3] != "natural") s = smp[t[3]];
    ld = std::make_unique<data::DataLoader>(ds, std::stoull(t[1]), s, t[3] == "shuffle", t[2] == "1");
    emit("{\"e\":\"size\",\"size\":" + std::to_string(ld->size()) + ",\"batch\":" + std::to_string(ld->batchSize()) + ",\"data\":" + std::to_string(ld->dataset().size()) + "}");
  } else if (c == "BEGIN") its.push_back(ld->begin());
  else if (c == "TAKE" || c == "PEEK") {
    int k = std::stoi(t[1]) - 1;
    if (!(its[k] != ld->end())) { emit("{\"e\":\"end\",\"it\":" + t[1] + "}"); return; }
    batch(c == "TAKE" ? "take" : "peek", k);
    if (c == "TAKE") ++its[k];
  } else if (c == "ALL") {  // one whole pass in a range-for loop, as users write it
    int k = std::stoi(t[1]) - 1;
    emit("{\"e\":\"begin\"}");
    for (auto [no, b] : *ld) {
      std::string s = "{\"e\":\"take\",\"it\":" + std::to_string(k + 1) + ",\"no\":" + std::to_string(no) + ",\"f\":[";
      for (size_t j = 0; j < b.size(); j++) s += (j ? "," : "") + show(b[j]);
      emit(s + "]}");
      if (no > 100000) break;
    }
    its.push_back(ld->end());
    emit("{\"e\":\"end\",\"it\":" + std::to_string(k + 1) + "}");
  } else _exit(9);
}
int main() { return mainLoop(exec, 30); }
