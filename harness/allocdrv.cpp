// Drives CachedAllocator over a recording stand-in for the underlying allocator (addresses only; sequential histories) or
// over real memory (concurrent histories, where every block is filled and checked).
#include "drv.h"
#include "Tensor/CachedAllocator.h"
#include <mutex>
#include <random>
#include <thread>
#include <atomic>
std::string drv::out;
using namespace tinytorch;
using namespace drv;

static std::mutex lg;
static std::map<uintptr_t, std::pair<int, int64_t>> regions;  // start -> (number, size), also those given back
static int nextRegion = 1;
static bool refuse = false, real = false;
static uintptr_t nextAddr = 0x500000000000ull;

static void loc(uintptr_t p, int& r, int64_t& off) {
  r = 0; off = 0;
  auto it = regions.upper_bound(p);
  if (it == regions.begin()) return;
  --it;
  if (p <= it->first + static_cast<uint64_t>(it->second.second)) { r = it->second.first; off = static_cast<int64_t>(p - it->first); }
}
struct Base : Allocator {
  void* allocate(int64_t n) override {
    std::lock_guard<std::mutex> l(lg);
    if (refuse || n < 0 || n > 1000000000) { emit("{\"e\":\"bfail\"}"); return nullptr; }
    uintptr_t p;
    if (real) p = reinterpret_cast<uintptr_t>(aligned_alloc(64, (n + 63) / 64 * 64));
    else { p = nextAddr; nextAddr += (static_cast<uint64_t>(n) + 4095) / 4096 * 4096 + 4096; }
    int r = nextRegion++;
    regions[p] = {r, n};
    emit("{\"e\":\"balloc\",\"r\":" + std::to_string(r) + ",\"size\":" + std::to_string(n) + "}");
    return reinterpret_cast<void*>(p);
  }
  void deallocate(void* q) override {
    std::lock_guard<std::mutex> l(lg);
    auto p = reinterpret_cast<uintptr_t>(q);
    auto it = regions.find(p);
    emit("{\"e\":\"bfree\",\"r\":" + std::to_string(it == regions.end() ? 0 : it->second.first) + "}");
    if (real && it != regions.end()) { regions.erase(it); free(q); }
  }
};
static std::unique_ptr<CachedAllocator> al;
struct Live { int id; void* p; int64_t n; };
static std::vector<Live> live;
static std::atomic<int> nextId{1};

static void logAlloc(int id, void* p, int64_t n) {
  int r; int64_t off;
  loc(reinterpret_cast<uintptr_t>(p), r, off);
  emit("{\"e\":\"alloc\",\"id\":" + std::to_string(id) + ",\"n\":" + std::to_string(n) + ",\"r\":" + std::to_string(r) + ",\"off\":" + std::to_string(off) + ",\"al\":" + std::to_string(reinterpret_cast<uintptr_t>(p) % 4096) + "}");
}
static int64_t clip(int64_t n) { return n > 2000000000 ? 2000000000 : n; }

static void exec(const Toks& t) {
  const auto& c = t[0];
  if (c == "NEW") { al = std::make_unique<CachedAllocator>(std::make_unique<Base>()); CachedAllocator::setCacheEnabled(true); }
  else if (c == "alloc") {
    int64_t n = std::stoll(t[1]);
    emit("{\"e\":\"req\",\"n\":" + std::to_string(clip(n)) + "}");
    void* p = al->allocate(n);
    if (!p) { emit("{\"e\":\"null\"}"); return; }
    int id = nextId++;
    live.push_back({id, p, n});
    logAlloc(id, p, clip(n));
  } else if (c == "free") {
    size_t j = std::stoul(t[1]) - 1;
    if (j >= live.size()) { if (live.empty()) return; j = j % live.size(); }
    auto b = live[j];
    live.erase(live.begin() + static_cast<long>(j));
    emit("{\"e\":\"free\",\"id\":" + std::to_string(b.id) + "}");
    al->deallocate(b.p);
  } else if (c == "on" || c == "off") { CachedAllocator::setCacheEnabled(c == "on"); emit(std::string("{\"e\":\"switch\",\"on\":") + (c == "on" ? "true" : "false") + "}"); }
  else if (c == "refuse") refuse = true;
  else if (c == "grant") refuse = false;
  else if (c == "DESTROY") {
    while (!live.empty()) exec({"free", "1"});
    al.reset();
    emit("{\"e\":\"destroyed\"}");
  } else if (c == "THREADS") {  // threads ops seed switch
    real = true;
    int T = std::stoi(t[1]), ops = std::stoi(t[2]);
    unsigned seed = static_cast<unsigned>(std::stoul(t[3]));
    std::atomic<int> bad{0};
    std::vector<std::thread> th;
    for (int k = 0; k < T; k++)
      th.emplace_back([&, k] {
        std::mt19937 g(seed * 97 + static_cast<unsigned>(k));
        std::vector<Live> mine;
        const int64_t sz[] = {1, 40, 512, 600, 4096, 70000, 1048576, 1100000};
        for (int i = 0; i < ops; i++) {
          if (mine.size() < 6 && g() % 2) {
            int64_t n = sz[g() % (g() % 8 == 0 ? 8 : 5)];
            void* p = al->allocate(n);
            int id = nextId++;
            { std::lock_guard<std::mutex> l(lg); logAlloc(id, p, n); }
            memset(p, id & 0xff, static_cast<size_t>(n));
            mine.push_back({id, p, n});
          } else if (!mine.empty()) {
            size_t j = g() % mine.size();
            auto b = mine[j];
            mine.erase(mine.begin() + static_cast<long>(j));
            auto* q = static_cast<unsigned char*>(b.p);
            if (q[0] != (b.id & 0xff) || q[b.n - 1] != (b.id & 0xff) || q[b.n / 2] != (b.id & 0xff)) bad++;
            { std::lock_guard<std::mutex> l(lg); emit("{\"e\":\"free\",\"id\":" + std::to_string(b.id) + "}"); }
            al->deallocate(b.p);
          }
        }
        for (auto& b : mine) { { std::lock_guard<std::mutex> l(lg); emit("{\"e\":\"free\",\"id\":" + std::to_string(b.id) + "}"); } al->deallocate(b.p); }
      });
    for (auto& x : th) x.join();
    emit("{\"e\":\"bad\",\"n\":" + std::to_string(bad.load()) + "}");
  } else _exit(9);
}
int main() { return mainLoop(exec, 30); }
