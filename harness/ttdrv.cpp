// Driver for tensor / autograd / layer behaviours.  Commands are documented beside their handlers.
#include "drv.h"
#include <atomic>
#include <cmath>
#include <deque>
#include <thread>
#include "Tensor.h"
#include "Functions.h"
#include "Modules.h"
#include "Operations.h"
#include "Optimizer.h"
#include "Scheduler.h"
#include "Tensor/NoGradGuard.h"
#include "Utils/RandomGenerator.h"
#include "Data/DataLoader.h"

using namespace tinytorch;
using namespace drv;
std::string drv::out;

static std::map<std::string, Tensor> R;
static std::vector<std::pair<Tensor, std::vector<double>>> kept;  // tensors that share memory with operands
static std::deque<std::unique_ptr<NoGradGuard>> guards;
static std::map<std::string, int64_t> hookIds;
static std::deque<std::pair<std::string, std::string>> hookCtx;

static DType dt(const std::string& s) {
  if (s == "f32") return DType::Float32;
  if (s == "f16") return DType::Float16;
  if (s == "bf16") return DType::BFloat16;
  if (s == "i32") return DType::Int32;
  if (s == "i64") return DType::Int64;
  if (s == "b") return DType::Bool;
  fprintf(stderr, "bad dtype %s\n", s.c_str()); _exit(9);
}
static const char* dtn(DType d) {
  switch (d) { case DType::Float32: return "f32"; case DType::Float16: return "f16"; case DType::BFloat16: return "bf16";
    case DType::Int32: return "i32"; case DType::Int64: return "i64"; case DType::Bool: return "b"; default: return "?"; }
}
static SizeVector sv(const std::vector<int64_t>& v) { SizeVector r; for (auto x : v) r.pushBack(x); return r; }

template <typename T> static Tensor mk(const std::vector<double>& v, const std::vector<int64_t>& s, DType d, bool rg) {
  std::vector<T> x; for (auto y : v) x.push_back(static_cast<T>((float)y));
  return Tensor(Array1d<T>(x), sv(s), options::dtype(d).requiresGrad(rg));
}
static Tensor mkT(const std::vector<double>& v, const std::vector<int64_t>& s, DType d, bool rg) {
  switch (d) {
    case DType::Float32: return mk<float>(v, s, d, rg);
    case DType::Float16: return mk<Half>(v, s, d, rg);
    case DType::BFloat16: return mk<BFloat16>(v, s, d, rg);
    case DType::Int32: { std::vector<int32_t> x; for (auto y : v) x.push_back((int32_t)y); return Tensor(Array1d<int32_t>(x), sv(s), options::dtype(d).requiresGrad(rg)); }
    case DType::Int64: { std::vector<int64_t> x; for (auto y : v) x.push_back((int64_t)y); return Tensor(Array1d<int64_t>(x), sv(s), options::dtype(d).requiresGrad(rg)); }
    case DType::Bool: {
      Tensor t = Tensor::empty(sv(s), options::dtype(d).requiresGrad(rg));
      auto* p = t.dataPtr<bool>(); for (size_t i = 0; i < v.size(); i++) p[i] = v[i] != 0; return t; }
    default: _exit(9);
  }
}
static std::vector<double> vals(const Tensor& t) {
  std::vector<double> r; int64_t n = t.numel();
  const void* p = t.dataPtr<void>();
  for (int64_t i = 0; i < n; i++) switch (t.dtype()) {
    case DType::Float32: r.push_back(((const float*)p)[i]); break;
    case DType::Float16: r.push_back((float)((const Half*)p)[i]); break;
    case DType::BFloat16: r.push_back((float)((const BFloat16*)p)[i]); break;
    case DType::Int32: r.push_back(((const int32_t*)p)[i]); break;
    case DType::Int64: r.push_back((double)((const int64_t*)p)[i]); break;
    case DType::Bool: r.push_back(((const uint8_t*)p)[i]); break;
    default: _exit(9);
  }
  return r;
}
static std::string num(double v) {
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64]; if (v == std::floor(v) && std::fabs(v) < 1e15) { snprintf(b, sizeof b, (v == 0 && std::signbit(v)) ? "-0.0" : "%.0f", v); return b; }
  snprintf(b, sizeof b, "%.10g", v); return b;
}
static std::string obs(const Tensor& t) {
  if (!t.defined()) return "{\"u\":1}";
  std::string s = "{\"s\":[";
  auto sh = t.shape();
  for (size_t i = 0; i < sh.size(); i++) s += (i ? "," : "") + std::to_string(sh[i]);
  s += "],\"d\":[";
  auto v = vals(t);
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]);
  s += std::string("],\"t\":\"") + dtn(t.dtype()) + "\",\"rg\":" + (t.requiresGrad() ? "1" : "0") + "}";
  return s;
}

struct Ctx {
  std::string name; std::vector<std::string> outs, ins; std::vector<std::vector<int64_t>> il; std::vector<double> fl; std::string str;
  Tensor& in(size_t k) { auto it = R.find(ins.at(k)); if (it == R.end()) { fprintf(stderr, "no reg %s\n", ins[k].c_str()); _exit(9); } return it->second; }
  Tensor opt(size_t k) { if (k >= ins.size() || ins[k] == "_") return {}; return in(k); }
  std::vector<Tensor> all() { std::vector<Tensor> v; for (size_t i = 0; i < ins.size(); i++) v.push_back(in(i)); return v; }
  int64_t i(size_t l, size_t k = 0) { return il.at(l).at(k); }
  bool has(size_t l) { return l < il.size(); }
  SizeVector s(size_t l) { return sv(il.at(l)); }
  double f(size_t k) { return fl.at(k); }
  void set(const Tensor& t) { R[outs.at(0)] = t; }
  void set(const TensorPair& t) { R[outs.at(0)] = t.first; if (outs.size() > 1) R[outs[1]] = t.second; }
  void set(const std::vector<Tensor>& v) { for (size_t k = 0; k < v.size(); k++) R[outs.at(0) + "." + std::to_string(k)] = v[k]; R[outs.at(0) + ".n"] = Tensor::scalar((int64_t)v.size(), options::dtype(DType::Int64)); }
};
using H = std::function<void(Ctx&)>;
static std::map<std::string, H> OPS;
static Dim2D d2(const std::vector<int64_t>& v) { return v.size() == 1 ? Dim2D(v[0]) : Dim2D(v[0], v[1]); }

struct IndexSet : data::Dataset {
  size_t n; explicit IndexSet(size_t n) : n(n) {}
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override { return {Tensor::scalar((float)i)}; }
};
#define OP(n, body) OPS[n] = [](Ctx& c) { body; };
static void initOps() {
  namespace F = function;
  // --- layout
  OP("reshape", c.set(c.in(0).reshape(c.s(0))))
  OP("view", c.set(c.in(0).view(c.s(0))))
  OP("permute", c.set(c.in(0).permute(c.s(0))))
  OP("permuteAll", c.set(c.in(0).permute()))
  OP("transpose", c.set(c.in(0).transpose(c.i(0, 0), c.i(0, 1))))
  OP("t", c.set(c.in(0).t()))
  OP("flatten", c.set(c.in(0).flatten(c.i(0, 0), c.i(0, 1))))
  OP("unflatten", c.set(c.in(0).unflatten(c.i(0, 0), c.s(1))))
  OP("squeeze", c.set(c.in(0).squeeze(c.s(0))))
  OP("squeeze1", c.set(c.in(0).squeeze(c.i(0, 0))))
  OP("unsqueeze", c.set(c.in(0).unsqueeze(c.i(0, 0))))
  OP("split", c.set(c.in(0).split(c.i(0, 0), c.i(0, 1))))
  OP("splitSections", c.set(c.in(0).split(c.s(0), c.i(1, 0))))
  OP("chunk", c.set(c.in(0).chunk(c.i(0, 0), c.i(0, 1))))
  OP("concat", auto v = c.all(); c.set(F::concat(ArrayView<Tensor>(v), c.i(0, 0))))
  OP("stack", auto v = c.all(); c.set(F::stack(ArrayView<Tensor>(v), c.i(0, 0))))
  OP("hstack", auto v = c.all(); c.set(F::hstack(ArrayView<Tensor>(v))))
  OP("vstack", auto v = c.all(); c.set(F::vstack(ArrayView<Tensor>(v))))
  OP("narrow", c.set(c.in(0).narrow(c.i(0, 0), c.i(0, 1), c.i(0, 2))))
  OP("gather", c.set(F::gather(c.in(0), c.i(0, 0), c.in(1))))
  OP("scatter", c.set(F::scatter(c.in(0), c.i(0, 0), c.in(1), c.in(2))))
  OP("scatter_", c.in(0).scatter_(c.i(0, 0), c.in(1), c.in(2)))
  OP("expand", c.set(F::expand(c.in(0), c.s(0))))
  OP("indexSelect", c.set(F::indexSelect(c.in(0), c.i(0, 0), c.in(1))))
  OP("repeatInterleave", c.set(F::repeatInterleave(c.in(0), c.i(0, 0), c.i(0, 1))))
  OP("tril", c.set(c.in(0).tril(c.i(0, 0))))
  OP("triu", c.set(c.in(0).triu(c.i(0, 0))))
  OP("index", c.set(op::index(c.in(0), c.s(0))))
  OP("indexAdvance", auto v = c.all(); std::vector<Tensor> ix(v.begin() + 1, v.end()); c.set(op::indexAdvance(c.in(0), ArrayView<Tensor>(ix))))
  OP("indexPut_", op::indexPut(c.in(0), c.s(0), c.in(1)))
  OP("indexPutAdvance_", auto v = c.all(); std::vector<Tensor> ix(v.begin() + 2, v.end()); op::indexPutAdvance(c.in(0), ArrayView<Tensor>(ix), c.in(1)))
  OP("im2col", c.set(op::im2col(c.in(0), d2(c.il[0]), d2(c.il[1]), d2(c.il[2]))))
  OP("col2im", c.set(op::col2im(c.in(0), c.s(3), d2(c.il[0]), d2(c.il[1]), d2(c.il[2]))))
  OP("arangei", c.set(Tensor::arange<int64_t>(c.i(0, 0), c.i(0, 1), c.i(0, 2))))
  OP("arangef", c.set(Tensor::arange<float>((float)c.f(0), (float)c.f(1), (float)c.f(2))))
  OP("linspacei", c.set(Tensor::linspace<int64_t>(c.i(0, 0), c.i(0, 1), c.i(0, 2))))
  OP("linspacef", c.set(Tensor::linspace<float>((float)c.f(0), (float)c.f(1), c.i(0, 0))))
  OP("onesLike", c.set(Tensor::onesLike(c.in(0))))
  OP("zerosLike", c.set(Tensor::zerosLike(c.in(0))))
  OP("fullLike", c.set(Tensor::fullLike(c.in(0), (float)c.f(0))))
  OP("reshape_", c.in(0).reshape_(c.s(0)))
  OP("permute_", c.in(0).permute_(c.s(0)))
  OP("permuteAll_", c.in(0).permute_())
  OP("flatten_", c.in(0).flatten_(c.i(0, 0), c.i(0, 1)))
  OP("unflatten_", c.in(0).unflatten_(c.i(0, 0), c.s(1)))
  OP("squeeze_", c.in(0).squeeze_(c.s(0)))
  OP("unsqueeze_", c.in(0).unsqueeze_(c.i(0, 0)))
  OP("transpose_", c.in(0).transpose_(c.i(0, 0), c.i(0, 1)))
  OP("t_", c.in(0).t_())
  // --- elementwise
#define U1(n) OP(#n, c.set(op::n(c.in(0)))) OP(#n "_", op::n##Inplace(c.in(0))) OP(#n "Out", op::n##Out(R[c.outs.at(0)], c.in(0)))
  U1(abs) U1(neg) U1(sign) U1(square) U1(exp) U1(log) U1(sigmoid) U1(tanh) U1(logicNot)
  OP("sqrt", c.set(c.in(0).sqrt())) OP("sqrt_", op::sqrtInplace(c.in(0))) OP("sqrtOut", op::sqrtOut(R[c.outs.at(0)], c.in(0)))
  OP("sin", c.set(c.in(0).sin())) OP("sin_", op::sinInplace(c.in(0))) OP("sinOut", op::sinOut(R[c.outs.at(0)], c.in(0)))
  OP("cos", c.set(c.in(0).cos())) OP("cos_", op::cosInplace(c.in(0))) OP("cosOut", op::cosOut(R[c.outs.at(0)], c.in(0)))
  OP("relu", c.set(F::relu(c.in(0)))) OP("relu_", op::reluInplace(c.in(0))) OP("reluOut", op::reluOut(R[c.outs.at(0)], c.in(0)))
  OP("gelu", c.set(F::gelu(c.in(0)))) OP("gelu_", op::geluInplace(c.in(0))) OP("geluOut", op::geluOut(R[c.outs.at(0)], c.in(0)))
  OP("silu", c.set(F::silu(c.in(0)))) OP("silu_", op::siluInplace(c.in(0))) OP("siluOut", op::siluOut(R[c.outs.at(0)], c.in(0)))
  OP("not", c.set(~c.in(0)))
  OP("siluMul", c.set(F::siluMul(c.in(0))))
#define B2(n, o) OP(#n, c.set(c.in(0) o c.in(1))) OP(#n "_", c.in(0) o## = c.in(1)) OP(#n "S", c.set(c.in(0) o Scalar(c.f(0)))) \
  OP(#n "R", c.set(Scalar(c.f(0)) o c.in(0))) OP(#n "S_", c.in(0) o## = Scalar(c.f(0)))
#undef B2
#define B2(n, o, oe) OP(#n, c.set(c.in(0) o c.in(1))) OP(#n "_", c.in(0) oe c.in(1)) OP(#n "S", c.set(c.in(0) o Scalar((float)c.f(0)))) \
  OP(#n "R", c.set(Scalar((float)c.f(0)) o c.in(0))) OP(#n "S_", c.in(0) oe Scalar((float)c.f(0)))
  B2(add, +, +=) B2(sub, -, -=) B2(mul, *, *=) B2(div, /, /=)
  OP("addA", c.set(F::add(c.in(0), c.in(1), (float)c.f(0)))) OP("subA", c.set(F::sub(c.in(0), c.in(1), (float)c.f(0))))
  OP("addI", op::addInplace(c.in(0), c.in(1), (float)c.f(0))) OP("subI", op::subInplace(c.in(0), c.in(1), (float)c.f(0)))
  OP("mulI", op::mulInplace(c.in(0), c.in(1))) OP("divI", op::divInplace(c.in(0), c.in(1))) OP("powI", op::powInplace(c.in(0), c.in(1)))
  OP("addOut", op::addOut(R[c.outs.at(0)], c.in(0), c.in(1), (float)c.f(0)))
  OP("subOut", op::subOut(R[c.outs.at(0)], c.in(0), c.in(1), (float)c.f(0)))
  OP("mulOut", op::mulOut(R[c.outs.at(0)], c.in(0), c.in(1)))
  OP("divOut", op::divOut(R[c.outs.at(0)], c.in(0), c.in(1)))
  OP("powOut", op::powOut(R[c.outs.at(0)], c.in(0), c.in(1)))
  OP("pow", c.set(c.in(0).pow(c.in(1)))) OP("powS", c.set(c.in(0).pow(Scalar((float)c.f(0)))))
#define CMP(n, o) OP(#n, c.set(c.in(0) o c.in(1))) OP(#n "S", c.set(c.in(0) o Scalar((float)c.f(0)))) OP(#n "Out", op::n##Out(R[c.outs.at(0)], c.in(0), c.in(1)))
  CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=) CMP(eq, ==) CMP(ne, !=)
  OP("logicAnd", c.set(c.in(0) & c.in(1))) OP("logicOr", c.set(c.in(0) | c.in(1)))
  OP("logicAnd_", op::logicAndInplace(c.in(0), c.in(1))) OP("logicOr_", op::logicOrInplace(c.in(0), c.in(1)))
  OP("logicAndOut", op::logicAndOut(R[c.outs.at(0)], c.in(0), c.in(1))) OP("logicOrOut", op::logicOrOut(R[c.outs.at(0)], c.in(0), c.in(1)))
  OP("maximum", c.set(Tensor::maximum(c.in(0), c.in(1)))) OP("minimum", c.set(Tensor::minimum(c.in(0), c.in(1))))
  OP("maximumOut", op::maximumOut(R[c.outs.at(0)], c.in(0), c.in(1))) OP("minimumOut", op::minimumOut(R[c.outs.at(0)], c.in(0), c.in(1)))
  OP("clampMin", c.set(op::clampMin(c.in(0), c.in(1)))) OP("clampMax", c.set(op::clampMax(c.in(0), c.in(1))))
  OP("clampMin_", op::clampMinInplace(c.in(0), c.in(1))) OP("clampMax_", op::clampMaxInplace(c.in(0), c.in(1)))
  OP("clampMinOut", op::clampMinOut(R[c.outs.at(0)], c.in(0), c.in(1))) OP("clampMaxOut", op::clampMaxOut(R[c.outs.at(0)], c.in(0), c.in(1)))
  OP("clamp", c.set(op::clamp(c.in(0), c.in(1), c.in(2)))) OP("clamp_", op::clampInplace(c.in(0), c.in(1), c.in(2)))
  OP("clampOut", op::clampOut(R[c.outs.at(0)], c.in(0), c.in(1), c.in(2)))
  OP("addcmul", c.set(op::addcmul(c.in(0), c.in(1), c.in(2), (float)c.f(0)))) OP("addcmul_", op::addcmulInplace(c.in(0), c.in(1), c.in(2), (float)c.f(0)))
  OP("addcmulOut", op::addcmulOut(R[c.outs.at(0)], c.in(0), c.in(1), c.in(2), (float)c.f(0)))
  // --- fill
  OP("fill_", c.in(0).fill_((float)c.f(0))) OP("fillZero_", c.in(0).fillZero_()) OP("fillOne_", c.in(0).fillOne_())
  OP("fillMasked_", c.in(0).fillMasked_(c.in(1), (float)c.f(0)))
  OP("fillMasked", c.set(op::fillMasked(c.in(0), c.in(1), (float)c.f(0))))
  OP("fillMaskedOut", op::fillMaskedOut(R[c.outs.at(0)], c.in(0), c.in(1), (float)c.f(0)))
  OP("fillOffset_", op::fillOffset(c.in(0), c.in(1), c.i(0, 0), c.i(0, 1)))
  OP("fillUniform_", c.in(0).fillUniform_((float)c.f(0), (float)c.f(1)))
  OP("fillNormal_", c.in(0).fillNormal_((float)c.f(0), (float)c.f(1)))
  OP("fillBernoulli_", c.in(0).fillBernoulli_((float)c.f(0)))
  OP("fillLinSpace_", c.in(0).fillLinSpace_((float)c.f(0), (float)c.f(1), c.i(0, 0)))
  // constructors: ints0 = shape
  OP("zeros", c.set(Tensor::zeros(c.s(0)))) OP("ones", c.set(Tensor::ones(c.s(0)))) OP("full", c.set(Tensor::full(c.s(0), (float)c.f(0))))
  OP("scalar", c.set(Tensor::scalar((float)c.f(0))))
  OP("rand", c.set(Tensor::rand(c.s(0)))) OP("randn", c.set(Tensor::randn(c.s(0))))
  OP("uniform", c.set(Tensor::uniform(c.s(0), (float)c.f(0), (float)c.f(1)))) OP("bernoulli", c.set(Tensor::bernoulli(c.s(0), (float)c.f(0))))
  // --- reduce
  OP("sum", c.set(c.in(0).sum())) OP("mean", c.set(c.in(0).mean())) OP("min", c.set(c.in(0).min())) OP("max", c.set(c.in(0).max()))
  OP("argmin", c.set(c.in(0).argmin())) OP("argmax", c.set(c.in(0).argmax()))
  OP("var", c.set(c.in(0).var(c.i(0, 0) != 0))) OP("varMean", c.set(c.in(0).varMean(c.i(0, 0) != 0)))
  OP("sumD", c.set(c.in(0).sum(c.i(0, 0), c.i(1, 0) != 0))) OP("meanD", c.set(c.in(0).mean(c.i(0, 0), c.i(1, 0) != 0)))
  OP("minD", c.set(c.in(0).min(c.i(0, 0), c.i(1, 0) != 0))) OP("maxD", c.set(c.in(0).max(c.i(0, 0), c.i(1, 0) != 0)))
  OP("argminD", c.set(c.in(0).argmin(c.i(0, 0), c.i(1, 0) != 0))) OP("argmaxD", c.set(c.in(0).argmax(c.i(0, 0), c.i(1, 0) != 0)))
  OP("varD", c.set(c.in(0).var(c.i(0, 0), c.i(2, 0) != 0, c.i(1, 0) != 0))) OP("varMeanD", c.set(c.in(0).varMean(c.i(0, 0), c.i(2, 0) != 0, c.i(1, 0) != 0)))
  OP("sumDs", c.set(c.in(0).sum(IntArrayView(c.s(0)), c.i(1, 0) != 0))) OP("meanDs", c.set(c.in(0).mean(IntArrayView(c.s(0)), c.i(1, 0) != 0)))
  OP("varDs", c.set(c.in(0).var(IntArrayView(c.s(0)), c.i(2, 0) != 0, c.i(1, 0) != 0))) OP("varMeanDs", c.set(c.in(0).varMean(IntArrayView(c.s(0)), c.i(2, 0) != 0, c.i(1, 0) != 0)))
  // --- sampling
  OP("sort", c.set(F::sort(c.in(0), c.i(0, 0), c.i(1, 0) != 0)))
  OP("topk", c.set(F::topk(c.in(0), c.i(0, 0), c.i(0, 1), c.i(1, 0) != 0, c.i(1, 1) != 0)))
  OP("cumsum", c.set(F::cumsum(c.in(0), c.i(0, 0))))
  OP("multinomial", c.set(F::multinomial(c.in(0), c.i(0, 0), c.i(1, 0) != 0)))
  // --- linalg
  OP("matmul", c.set(c.in(0).matmul(c.in(1), c.has(0) && !c.il[0].empty() && c.i(0, 0) != 0, c.has(0) && c.il[0].size() > 1 && c.i(0, 1) != 0)))
  OP("dot", c.set(op::dot(c.in(0), c.in(1))))
  // --- nn
  OP("linear", c.set(F::linear(c.in(0), c.in(1), c.opt(2))))
  OP("conv2d", c.set(F::conv2d(c.in(0), c.in(1), c.opt(2), d2(c.il[0]), d2(c.il[1]))))
  OP("maxPool2d", c.set(F::maxPool2d(c.in(0), d2(c.il[0]), d2(c.il[1]), d2(c.il[2]))))
  OP("softmax", c.set(F::softmax(c.in(0), c.i(0, 0)))) OP("logSoftmax", c.set(F::logSoftmax(c.in(0), c.i(0, 0))))
  OP("softmaxOut", op::softmaxOut(R[c.outs.at(0)], c.in(0), c.i(0, 0))) OP("logSoftmaxOut", op::logSoftmaxOut(R[c.outs.at(0)], c.in(0), c.i(0, 0)))
  OP("dropout", c.set(F::dropout(c.in(0), (float)c.f(0), c.i(0, 0) != 0)))
  OP("dropoutMasked", c.set(op::dropoutMasked(c.in(0), c.in(1), (float)c.f(0))))
  OP("embedding", c.set(F::embedding(c.in(0), c.in(1))))
  OP("layerNorm", c.set(F::layerNorm(c.in(0), c.s(0), c.opt(1), c.opt(2), (float)c.f(0))))
  OP("rmsNorm", c.set(F::rmsNorm(c.in(0), c.s(0), c.opt(1), (float)c.f(0))))
  // sdpa ins q,k,v[,mask]; ints0 = causal; floats = dropoutP[,scale]
  OP("sdpa", std::optional<float> sc; if (c.fl.size() > 1) sc = (float)c.f(1);
     c.set(F::sdpAttention(c.in(0), c.in(1), c.in(2), c.i(0, 0) != 0, c.opt(3), (float)c.f(0), sc)))
  // ropeInit ints0 = headDim,ctxLen[;origCtx] floats = theta[,factor,high,low]
  OP("ropeInit", std::optional<RopeScalingConfig> sc; if (c.fl.size() > 1) sc = RopeScalingConfig((float)c.f(1), (float)c.f(2), (float)c.f(3), c.i(1, 0));
     c.set(op::ropeInit(c.i(0, 0), c.i(0, 1), (float)c.f(0), sc, Options())))
  OP("ropeApply", c.set(F::ropeApply(c.in(0), c.in(1), c.i(0, 0))))
  OP("mseLoss", c.set(F::mseLoss(c.in(0), c.in(1), (LossReduction)c.i(0, 0)))) OP("nllLoss", c.set(F::nllLoss(c.in(0), c.in(1), (LossReduction)c.i(0, 0))))
  OP("mMseLoss", nn::MSELoss l((LossReduction)c.i(0, 0)); c.set(l(c.in(0), c.in(1))))
  OP("mNllLoss", nn::NLLLoss l((LossReduction)c.i(0, 0)); c.set(l(c.in(0), c.in(1))))
  // modules with given parameters
  OP("mLinear", auto& w = c.in(1); nn::Linear m(w.shape(1), w.shape(0), c.opt(2).defined()); m.weight() = w; if (c.opt(2).defined()) m.bias() = c.in(2); c.set(m(c.in(0))))
  OP("mConv2d", auto& w = c.in(1); nn::Conv2D m(w.shape(1), w.shape(0), Dim2D(w.shape(2), w.shape(3)), d2(c.il[0]), d2(c.il[1]), c.opt(2).defined());
     m.weight() = w; if (c.opt(2).defined()) m.bias() = c.in(2); c.set(m(c.in(0))))
  OP("mMaxPool2d", nn::MaxPool2D m(d2(c.il[0]), d2(c.il[1]), d2(c.il[2])); c.set(m(c.in(0))))
  OP("mMaxPool2dDef", nn::MaxPool2D m(d2(c.il[0])); c.set(m(c.in(0))))
  OP("mLayerNorm", nn::LayerNorm m(c.s(0), (float)c.f(0), c.opt(2).defined()); m.weight() = c.in(1); if (c.opt(2).defined()) m.bias() = c.in(2); c.set(m(c.in(0))))
  OP("mRMSNorm", nn::RMSNorm m(c.s(0), (float)c.f(0)); m.weight() = c.in(1); c.set(m(c.in(0))))
  OP("mEmbedding", auto& w = c.in(1); nn::Embedding m(w.shape(0), w.shape(1)); m.weight() = w; c.set(m(c.in(0))))
  OP("mFlatten", nn::Flatten m(c.i(0, 0), c.i(0, 1)); c.set(m(c.in(0))))
  OP("mRelu", nn::Relu m; c.set(m(c.in(0)))) OP("mGelu", nn::Gelu m; c.set(m(c.in(0)))) OP("mSilu", nn::Silu m; c.set(m(c.in(0))))
  OP("mSoftmax", nn::Softmax m(c.i(0, 0)); c.set(m(c.in(0)))) OP("mLogSoftmax", nn::LogSoftmax m(c.i(0, 0)); c.set(m(c.in(0))))
  OP("mDropout", nn::Dropout m((float)c.f(0)); if (!c.i(0, 0)) m.eval(); c.set(m(c.in(0))))
  OP("mRope", nn::RoPE m(c.i(0, 0), c.i(0, 1), (float)c.f(0)); c.set(m(c.in(0), c.i(0, 2))))
  // --- randomness beyond single tensors: initial parameters, shuffled loaders, samplers
  OP("resetLinear", nn::Linear m(c.i(0, 0), c.i(0, 1)); m.resetParameters(); c.set(m.weight().clone()); if (c.outs.size() > 1) R[c.outs[1]] = m.bias().clone())
  OP("resetConv", nn::Conv2D m(c.i(0, 0), c.i(0, 1), Dim2D(3)); m.resetParameters(); c.set(m.weight().clone()))
  OP("resetEmbedding", nn::Embedding m(c.i(0, 0), c.i(0, 1)); m.resetParameters(); c.set(m.weight().clone()))
  OP("shuffle", data::DataLoader l(std::make_shared<IndexSet>(c.i(0, 0)), c.i(0, 0), nullptr, true); auto b = *l.begin(); c.set(std::get<1>(b)[0]))
  OP("sampler", data::RandomSampler sp(c.i(0, 0), c.i(0, 1)); std::vector<float> v; for (auto x : sp.indices()) v.push_back((float)x); c.set(Tensor(Array1d<float>(v))))
  // --- tensors as values
  OP("clone", c.set(c.in(0).clone())) OP("alias", Tensor t = c.in(0); c.set(t)) OP("copy_", c.in(0).copy_(c.in(1)))
  OP("to", c.set(c.in(0).to(dt(c.str))))
}

#include <set>
#include "Tensor/CachedAllocator.h"
#include "modcmds.h"
__attribute__((weak)) size_t memLive(size_t, size_t); __attribute__((weak)) size_t memAll(); __attribute__((weak)) size_t memBad();
static std::unique_ptr<optim::Optimizer> OPTI;
static std::unique_ptr<optim::lr_scheduler::StepLR> SCHED;
static void exec1(const Toks& t);
static std::thread scopeThread;
static std::atomic<bool> scopeOpen{false}, scopeStop{false};

static void exec(const Toks& t) {
  const auto& k = t[0];
  if (k == "TH") {  // run the rest of the line on another thread, to completion
    Toks r(t.begin() + 1, t.end()); std::thread th([&] { exec1(r); }); th.join();
  } else exec1(t);
}
static void exec1(const Toks& t) {
  const auto& k = t[0];
  if (k[0] == 'M' || k == "SAVE" || k == "LOAD") { if (modExec(t)) return; }
  if (k == "T") {  // T reg dtype requiresGrad shape vals [layout variant]
    auto s = ints(t[4]); auto v = dbls(t[5]); bool rg = t[3] == "1"; DType d = dt(t[2]);
    int var = t.size() > 6 ? atoi(t[6].c_str()) : 0;
    if (var == 2 && s.empty()) {
      auto base = mkT({71, v.at(0), 73}, {3}, d, false); kept.push_back({base, vals(base)});
      R[t[1]] = base.narrow(0, 1, 1).reshape({});
    } else if (var == 2) {
      int64_t row = 1; for (size_t i = 1; i < s.size(); i++) row *= s[i];
      std::vector<double> b; for (int64_t i = 0; i < row; i++) b.push_back(71 + i); b.insert(b.end(), v.begin(), v.end());
      for (int64_t i = 0; i < 2 * row; i++) b.push_back(-91 - i);
      auto bs = s; bs[0] += 3; auto base = mkT(b, bs, d, false); kept.push_back({base, vals(base)});
      R[t[1]] = base.narrow(0, 1, s[0]);
    } else if (var == 3) {
      auto base = mkT(v, {(int64_t)v.size()}, d, false); kept.push_back({base, vals(base)}); R[t[1]] = base.view(sv(s));
    } else if (var == 1) {
      auto base = mkT(v, s, d, false); kept.push_back({base, vals(base)}); R[t[1]] = base.clone();
    } else R[t[1]] = mkT(v, s, d, rg);
    if (var && rg) R[t[1]].setRequiresGrad(true);
  } else if (k == "O") {  // O name outs ins intlists floats [str]
    Ctx c; c.name = t[1]; c.outs = split(t.at(2), ','); c.ins = t.at(3) == "-" ? Toks{} : split(t[3], ',');
    if (t.size() > 4) for (auto& x : split(t[4], ';')) c.il.push_back(ints(x));
    if (t.size() > 5) c.fl = dbls(t[5]);
    if (t.size() > 6) c.str = t[6];
    auto it = OPS.find(c.name); if (it == OPS.end()) { fprintf(stderr, "no op %s\n", c.name.c_str()); _exit(9); }
    it->second(c);
  } else if (k == "MEM") {  // MEM lo-hi,...: live blocks in each size range, live blocks in all, frees of unknown pointers
    std::string s = "["; for (auto& r : split(t[1], ',')) { auto p = split(r, '-'); s += std::to_string(memLive(strtoull(p[0].c_str(), 0, 10), strtoull(p[1].c_str(), 0, 10))) + ","; }
    emit("MEM m " + s + std::to_string(memAll()) + "," + std::to_string(memBad()) + "]");
  } else if (k == "TF") {  // TF reg rg n v: n elements v, v+1, ... (mod 13), never zero
    int64_t n = atoll(t[3].c_str()); std::vector<double> v; v.reserve(n); for (int64_t i = 0; i < n; i++) v.push_back(1 + (i + atoi(t[4].c_str())) % 13);
    R[t[1]] = mkT(v, {n}, DType::Float32, t[2] == "1");
  } else if (k == "CK") {  // checksum of the elements
    auto& x = R[t[1]]; auto* p = (const uint8_t*)((const Tensor&)x).dataPtr<void>(); uint64_t h = 1469598103934665603ull; int64_t n = x.numel() * dtypeSize(x.dtype());
    for (int64_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; emit("CK " + t[1] + " " + std::to_string(h % 1000000007ull));
  } else if (k == "MEMC") { CachedAllocator::setCacheEnabled(t[1] == "1");
  } else if (k == "CHAIN") {  // CHAIN r a n: r = a + a + ... recorded n times
    Tensor x = R[t[2]]; int n = atoi(t[3].c_str()); for (int i = 0; i < n; i++) x = i % 2 ? x + R[t[2]] : function::sin(x); R[t[1]] = x;
  } else if (k == "G") { emit("G " + t[1] + " " + (R.count(t[1]) ? obs(R[t[1]]) : std::string("{\"u\":2}")));
  } else if (k == "TB") {  // TB reg dtype shape rawvalues: elements given as bit patterns (floats) or integers
    DType d = dt(t[2]); auto s = ints(t[3]); auto v = ints(t[4]); Tensor x = Tensor::empty(sv(s), options::dtype(d)); void* p = x.dataPtr<void>();
    for (size_t i = 0; i < v.size(); i++) switch (dtypeSize(d)) { case 1: ((uint8_t*)p)[i] = (uint8_t)v[i]; break; case 2: ((uint16_t*)p)[i] = (uint16_t)v[i]; break;
      case 4: ((uint32_t*)p)[i] = (uint32_t)v[i]; break; default: ((int64_t*)p)[i] = v[i]; }
    R[t[1]] = x;
  } else if (k == "GB") {  // raw elements
    auto& x = R[t[1]]; const void* p = ((const Tensor&)x).dataPtr<void>(); std::string s = "[\"" + std::string(dtn(x.dtype())) + "\""; bool in = x.dtype() == DType::Int32;
    for (int64_t i = 0; i < x.numel(); i++) switch (dtypeSize(x.dtype())) { case 1: s += "," + std::to_string(((uint8_t*)p)[i]); break; case 2: s += "," + std::to_string(((uint16_t*)p)[i]); break;
      case 4: s += "," + (in ? std::to_string(((int32_t*)p)[i]) : std::to_string(((uint32_t*)p)[i])); break; default: s += "," + std::to_string(((int64_t*)p)[i]); }
    emit("GB " + t[1] + " " + s + "]");
  } else if (k == "FS") {  // FS reg dtype scalartype value: full({2}, Scalar(value of scalartype)) with the element type
    double v = strtod(t[4].c_str(), nullptr); Scalar sc = t[3] == "f32" ? Scalar((float)v) : t[3] == "f16" ? Scalar((Half)(float)v) : t[3] == "bf16" ? Scalar((BFloat16)(float)v)
      : t[3] == "i32" ? Scalar((int32_t)v) : t[3] == "i64" ? Scalar((int64_t)v) : Scalar(v != 0);
    R[t[1]] = Tensor::full({2}, sc, options::dtype(dt(t[2])));
  } else if (k == "GL") {  // a list result
    int64_t n = R[t[1] + ".n"].item<int64_t>(); std::string s = "["; for (int64_t i = 0; i < n; i++) s += (i ? "," : "") + obs(R[t[1] + "." + std::to_string(i)]); emit("L " + t[1] + " " + s + "]");
  } else if (k == "GG") {  // gradient of reg
    auto& r = R[t[1]]; emit("GG " + t[1] + " " + (r.requiresGrad() ? obs(r.grad()) : std::string("{\"u\":3}")));
  } else if (k == "Q") { auto& r = R[t[1]]; emit("Q " + t[1] + " {\"rg\":" + (r.requiresGrad() ? "1" : "0") + ",\"leaf\":" + (r.isLeaf() ? "1" : "0") + "}");
  } else if (k == "K") {  // shared bases unchanged?
    int ok = 1; for (auto& b : kept) if (vals(b.first) != b.second) ok = 0; emit(std::string("K ") + (ok ? "1" : "0"));
  } else if (k == "B") { if (t.size() > 2) R[t[1]].backward(R[t[2]]); else R[t[1]].backward();
  } else if (k == "GR") { R[t[1]] = R[t[2]].grad();
  } else if (k == "SG") { R[t[1]].setGrad(R[t[2]]);
  } else if (k == "ZG") { R[t[1]].zeroGrad();
  } else if (k == "RG") { R[t[1]].setRequiresGrad(t[2] == "1");
  } else if (k == "MV") { Tensor x = R[t[2]]; R[t[1]] = x; R.erase(t[2]);
  } else if (k == "DL") { for (auto it = R.begin(); it != R.end();) it = it->first.rfind(t[1] + ".", 0) == 0 ? R.erase(it) : std::next(it);
  } else if (k == "D") { R.erase(t[1]);
  } else if (k == "DA") { R.clear(); kept.clear(); OPTI.reset();
  } else if (k == "TN+") {  // a thread that opens a scope and keeps it open until TN-
    scopeStop = false; scopeOpen = false;
    scopeThread = std::thread([] { NoGradGuard g; scopeOpen = true; while (!scopeStop) std::this_thread::sleep_for(std::chrono::microseconds(50)); });
    while (!scopeOpen) std::this_thread::yield();
  } else if (k == "TN-") { scopeStop = true; scopeThread.join();
  } else if (k == "N+") { guards.push_back(std::make_unique<NoGradGuard>());
  } else if (k == "N-") { guards.pop_back();
  } else if (k == "NQ") { emit(std::string("NQ ") + (NoGradGuard::isGradEnabled() ? "1" : "0"));
  } else if (k == "SEED") { manualSeed(strtoul(t[1].c_str(), nullptr, 10));
  } else if (k == "HK") {  // HK reg label: register hook
    hookCtx.push_back({t[2], t[1]});
    auto* ctx = &hookCtx.back();
    hookIds[t[2]] = R[t[1]].registerHook([](void* p, Tensor& g) { auto* c = (std::pair<std::string, std::string>*)p; emit("HK " + c->first + " " + obs(g)); }, ctx);
  } else if (k == "HU") { R[t[1]].unregisterHook(hookIds[t[2]]);
  } else if (k == "OPT") {  // OPT name params ints floats
    std::vector<TensorPtr> ps; for (auto& x : split(t[2], ',')) ps.push_back(&R[x]);
    auto iv = ints(t[3]); std::vector<float> f; for (auto d : dbls(t[4])) f.push_back((float)d);
    if (t[1] == "SGD") OPTI = std::make_unique<optim::SGD>(std::move(ps), f[0], f[1], f[2], f[3], iv[0] != 0);
    else if (t[1] == "Adagrad") OPTI = std::make_unique<optim::Adagrad>(std::move(ps), f[0], f[1], f[2], f[3], f[4]);
    else if (t[1] == "RMSprop") OPTI = std::make_unique<optim::RMSprop>(std::move(ps), f[0], f[1], f[2], f[3], f[4], iv[0] != 0);
    else if (t[1] == "AdaDelta") OPTI = std::make_unique<optim::AdaDelta>(std::move(ps), f[0], f[1], f[2], f[3]);
    else if (t[1] == "Adam") OPTI = std::make_unique<optim::Adam>(std::move(ps), f[0], std::make_pair(f[1], f[2]), f[3], f[4], iv[0] != 0);
    else if (t[1] == "AdamW") OPTI = std::make_unique<optim::AdamW>(std::move(ps), f[0], std::make_pair(f[1], f[2]), f[3], f[4], iv[0] != 0);
    else _exit(9);
  } else if (k == "STEP") { OPTI->step();
  } else if (k == "OZG") { OPTI->zeroGrad();
  } else if (k == "LR") { OPTI->setLr((float)strtod(t[1].c_str(), nullptr));
  } else if (k == "SCH") { SCHED.reset(); SCHED = std::make_unique<optim::lr_scheduler::StepLR>(*OPTI, strtoll(t[1].c_str(), nullptr, 10), (float)strtod(t[2].c_str(), nullptr), strtoll(t[3].c_str(), nullptr, 10));
  } else if (k == "SS") { if (t.size() > 1) SCHED->step(strtoll(t[1].c_str(), nullptr, 10)); else SCHED->step();
  } else if (k == "SQ") { emit("SQ s {\"lr\":" + num(OPTI->getLr()) + ",\"last\":" + num(SCHED->getLastLr()) + ",\"epoch\":" + std::to_string(SCHED->getLastEpoch()) + "}");
  } else if (k == "LRQ") { emit("LRQ " + num(OPTI->getLr()));
  } else { fprintf(stderr, "bad command %s\n", k.c_str()); _exit(9); }
}
int main() { initOps(); return mainLoop(exec); }
