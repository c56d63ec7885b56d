// Linked into memdrv: every block obtained from the C library, by size; frees of anything else are counted.
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cerrno>
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
}
namespace {
constexpr size_t N = 1 << 22, M = 1 << 16;
uint32_t C[M];  // live blocks by size
struct Ent { uintptr_t p; size_t n; };
Ent T[N];
std::atomic_flag lk = ATOMIC_FLAG_INIT;
size_t live = 0, bad = 0;
struct L { L() { while (lk.test_and_set(std::memory_order_acquire)) {} } ~L() { lk.clear(std::memory_order_release); } };
size_t h(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 40; }
void add(void* q, size_t n) {
  if (!q) return; L l; auto p = (uintptr_t)q; size_t i = h(p) % N;
  while (T[i].p > 1) i = (i + 1) % N;
  T[i] = {p, n}; live++; if (n < M) C[n]++;
}
bool del(void* q, size_t* sz = nullptr) {
  L l; auto p = (uintptr_t)q; size_t i = h(p) % N;
  while (T[i].p && T[i].p != p) i = (i + 1) % N;
  if (!T[i].p) { bad++; return false; }
  if (sz) *sz = T[i].n;
  if (T[i].n < M) C[T[i].n]--;
  T[i].p = T[(i + 1) % N].p ? 1 : 0; live--; return true;
}
}
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); add(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); add(p, a * b); return p; }
void free(void* p) { if (p && del(p)) __libc_free(p); }
void* realloc(void* p, size_t n) { size_t o = 0; if (p && !del(p, &o)) return nullptr; void* q = __libc_realloc(p, n); if (q) add(q, n); else if (p && n) add(p, o); return q; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); add(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
void* valloc(size_t n) { return memalign(4096, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
size_t memLive(size_t lo, size_t hi) { L l; size_t c = 0; for (size_t n = lo; n < hi && n < M; n++) c += C[n]; return c; }
size_t memAll() { L l; return live; }
size_t memBad() { L l; return bad; }
