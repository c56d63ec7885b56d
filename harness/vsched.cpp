#include "vsched.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sched {
enum { NEW = 1, PARKED, RUNNING, BLOCKED, DONE, STALLED };
struct Slot {
  std::atomic<int> state;
  std::atomic<int> turn;
  int pid;
  int64_t deadline;     // ns, -1: none
  uint64_t blockedAt;   // progress count when it blocked
  int steps;
  int killedBy;
  int script;
  char what[32];
};
struct Shared {
  std::atomic<int> n;
  std::atomic<int> ctl;
  std::atomic<int> running;
  std::atomic<int64_t> now;
  std::atomic<uint64_t> progress;
  std::atomic<int> steps;
  std::atomic<int> died;
  std::atomic<uint32_t> ioCalls;
  std::atomic<size_t> logLen;
  Slot slot[1024];
  char log[1 << 22];
};
static Shared* S = nullptr;
static Schedule sc;
static thread_local int me = -1;
static int caseTag = 0;

template <class F> static F real(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "no %s\n", name); abort(); }
  return (F)p;
}
#define REAL(f) static auto real_##f = real<decltype(&::f)>(#f)

static void futexWait(std::atomic<int>* a, int v, int ms = -1) {
  timespec ts{ms / 1000, (ms % 1000) * 1000000L};
  syscall(SYS_futex, (int*)a, FUTEX_WAIT, v, ms < 0 ? nullptr : &ts, nullptr, 0);
}
static void futexWake(std::atomic<int>* a) { syscall(SYS_futex, (int*)a, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
static void tellController() { S->ctl.fetch_add(1); futexWake(&S->ctl); }
static void awaitTurn() {
  Slot& s = S->slot[me];
  while (s.turn.load() == 0) futexWait(&s.turn, 0);
  s.turn.store(0);
}
static void park(const char* what) {
  if (me < 0) return;
  Slot& s = S->slot[me];
  strncpy(s.what, what, 31);
  s.state.store(PARKED);
  tellController();
  awaitTurn();
}
static void block(const char* what, int64_t deadline) {
  Slot& s = S->slot[me];
  strncpy(s.what, what, 31);
  s.deadline = deadline;
  s.blockedAt = S->progress.load();
  s.state.store(BLOCKED);
  tellController();
  awaitTurn();
}
static void progress() { if (me >= 0) S->progress.fetch_add(1); }
static const int64_t BASE = 1000000000000000LL;   // virtual clocks start here

int64_t nowMs() { return S->now.load() / 1000000; }
void note(const std::string& text) {
  std::string l = std::to_string(nowMs()) + " " + std::to_string(S->steps.load()) + " " + text + "\n";
  size_t o = S->logLen.fetch_add(l.size());
  if (o + l.size() < sizeof(S->log)) memcpy(S->log + o, l.data(), l.size());
}
static void vsleep(int64_t ns) {
  park("sleep");
  int64_t until = S->now.load() + ns;
  while (S->now.load() < until) block("sleep", until);
  progress();
}
void sleepMs(int64_t ms) { vsleep(ms * 1000000); }

static std::vector<long> ints(const std::string& s) {
  std::vector<long> r; size_t i = 0;
  if (s == "-") return r;
  while (i < s.size()) { char* e; r.push_back(strtol(s.c_str() + i, &e, 10)); i = e - s.c_str() + 1; }
  return r;
}
Schedule parse(const std::vector<std::string>& t) {
  Schedule s;
  for (auto& x : t) {
    auto k = x.substr(0, x.find('=')); auto v = x.substr(x.find('=') + 1);
    auto l = ints(v);
    if (k == "seg") { s.kind = "seg"; for (size_t i = 0; i + 1 < l.size(); i += 2) s.segs.push_back({(int)l[i], (int)l[i + 1]}); }
    else if (k == "pri") { s.kind = "pri"; s.pri.assign(l.begin(), l.end()); }
    else if (k == "drop") s.drops.assign(l.begin(), l.end());
    else if (k == "rnd") { s.kind = "rnd"; s.seq.assign(l.begin(), l.end()); }
    else if (k == "stall") { for (size_t i = 0; i + 1 < l.size(); i += 2) s.stalls.push_back({(int)l[i], (int)l[i + 1]}); }
    else if (k == "kill") { for (size_t i = 0; i + 1 < l.size(); i += 2) s.kills.push_back({(int)l[i], (int)l[i + 1]}); }
    else if (k == "chop") s.chop = (int)l[0];
    else if (k == "eintr") s.eintr = (int)l[0];
    else if (k == "horizon") s.horizonMs = l[0];
    else if (k == "from") s.fromMs = l[0];
    else if (k == "linger") s.lingerMs = l[0];
    else if (k == "max") s.maxSteps = (int)l[0];
    else { fprintf(stderr, "bad schedule item %s\n", x.c_str()); _exit(9); }
  }
  return s;
}

void init(const Schedule& s) {
  sc = s;
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  caseTag = getpid();
}
static int newSlot() {
  int i = S->n.fetch_add(1);
  if (i >= 1024) _exit(9);
  S->slot[i].deadline = -1;
  S->slot[i].pid = getpid();
  S->slot[i].state.store(NEW);
  return i;
}
struct Start { int slot; void* (*fn)(void*); void* arg; std::function<void()>* body; };
static void finish() {
  int k = me;
  me = -1;
  S->progress.fetch_add(1);
  S->slot[k].state.store(DONE);
  tellController();
}
static void* trampoline(void* p) {
  Start st = *(Start*)p; delete (Start*)p;
  me = st.slot;
  park("start");
  void* r = nullptr;
  if (st.body) (*st.body)(); else r = st.fn(st.arg);
  finish();
  return r;
}
static int realCreate(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  return rc(t, a, f, x);
}
int threadWorker(const std::function<void()>& body) {
  auto* st = new Start{newSlot(), nullptr, nullptr, new std::function<void()>(body)};
  int k = st->slot;
  S->slot[k].script = 1;
  pthread_t t;
  realCreate(&t, nullptr, trampoline, st);
  pthread_detach(t);
  return k;
}
int processWorker(const std::function<void()>& body) {
  int k = newSlot();
  S->slot[k].script = 1;
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = k;
    S->slot[k].pid = getpid();
    park("start");
    body();
    // the worker's process goes on existing (its other threads may still serve) until the run is over
    finish();
    for (;;) pause();
  }
  S->slot[k].pid = p;
  return k;
}
static void reap(bool final) {
  int st; pid_t p;
  while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
    bool expected = false;
    for (int i = 0; i < S->n.load(); i++)
      if (S->slot[i].pid == p) { expected |= S->slot[i].killedBy != 0; if (S->slot[i].state.load() != DONE) S->slot[i].state.store(DONE); }
    if (!expected && !final) S->died.fetch_add(1);
    S->progress.fetch_add(1);
  }
}
static bool choose(const std::vector<int>& c, size_t& seg, int& left, int step, int& pick) {
  if (sc.kind == "seg") {
    while (seg < sc.segs.size()) {
      if (left < 0) left = sc.segs[seg].second;
      if (left == 0) { seg++; left = -1; continue; }
      for (int x : c) if (x == sc.segs[seg].first) { pick = x; left--; return true; }
      seg++; left = -1;   // it cannot run: on to the next
    }
    pick = c[0];
    return true;
  }
  if (sc.kind == "rnd") {
    if (sc.seq.empty()) { pick = c[0]; return true; }
    unsigned v = (unsigned)sc.seq[step % sc.seq.size()] * 2654435761u + (unsigned)(step / sc.seq.size()) * 40503u;
    pick = c[(v >> 7) % c.size()];
    return true;
  }
  static std::map<int, int> pr;
  static int low = -1;
  auto prio = [&](int x) -> int& {
    if (!pr.count(x)) pr[x] = x < (int)sc.pri.size() ? sc.pri[x] : 500 + (x * 37) % 101;
    return pr[x];
  };
  int best = c[0];
  for (int x : c) if (prio(x) > prio(best)) best = x;
  for (int d : sc.drops) if (d == step) { prio(best) = low--; best = c[0]; for (int x : c) if (prio(x) > prio(best)) best = x; }
  pick = best;
  return true;
}
std::string run() {
  size_t seg = 0; int left = -1; int64_t after = -1;
  while (true) {
    int seen = S->ctl.load();
    bool busy = false;
    for (int i = 0; i < S->n.load(); i++) { int st = S->slot[i].state.load(); if (st == RUNNING || st == NEW) busy = true; }
    if (busy) {
      timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
      futexWait(&S->ctl, seen, 20);
      reap(false);
      // a thread that stays away for long is inside a call the scheduler does not know: go on without it
      static int64_t since = 0; static int lastSeen = -1;
      int64_t t = t0.tv_sec * 1000 + t0.tv_nsec / 1000000;
      if (lastSeen != seen) { lastSeen = seen; since = t; }
      else if (t - since > 3000)
        for (int i = 0; i < S->n.load(); i++) { int r = RUNNING; S->slot[i].state.compare_exchange_strong(r, STALLED); }
      continue;
    }
    std::vector<int> c;
    int64_t next = -1; bool live = false, stalled = false, scripts = false;
    uint64_t pg = S->progress.load(); int64_t now = S->now.load();
    for (int i = 0; i < S->n.load(); i++) {
      Slot& s = S->slot[i];
      int st = s.state.load();
      if (st == PARKED) c.push_back(i);
      else if (st == STALLED) stalled = true;
      else if (st == BLOCKED) {
        if (s.blockedAt != pg || (s.deadline >= 0 && s.deadline <= now)) c.push_back(i);
        else if (s.deadline >= 0 && (next < 0 || s.deadline < next)) next = s.deadline;
      }
      if (st != DONE) live = true;
      if (s.script && st != DONE) scripts = true;
    }
    if (scripts) after = -1; else if (after < 0) after = now;
    if (!scripts && (!live || now - after > sc.lingerMs * 1000000LL)) return "done";
    if (now > sc.horizonMs * 1000000LL) return "horizon";
    if (c.empty()) {
      if (stalled) {   // give the uncontrolled call some real time
        static int patience = 0;
        if (++patience > 100) return "stuck";
        futexWait(&S->ctl, seen, 50); reap(false); continue;
      }
      if (next < 0) return scripts ? "stuck" : "done";
      S->now.store(next);
      continue;
    }
    int step = S->steps.fetch_add(1);
    if (step > sc.maxSteps) return "limit";
    int pick = c[0];
    // before that time, lowest first; steps are counted from then on
    static bool begun = false; static int step0 = 0; static std::map<int, int> own0;
    if (!begun && now >= sc.fromMs * 1000000LL) {
      begun = true; step0 = sc.fromMs ? step : 0;
      if (sc.fromMs) for (int i = 0; i < S->n.load(); i++) own0[i] = S->slot[i].steps;
    }
    auto own = [&](int x) { return S->slot[x].steps - (own0.count(x) ? own0[x] : 0); };
    if (begun && !sc.stalls.empty() && c.size() > 1) {   // a stalled thread lets the others go first, for so many steps of theirs
      static std::map<int, int> waited;
      std::vector<int> d;
      for (int x : c) {
        bool off = false;
        for (auto& k : sc.stalls) if (k.first == x && k.second == own(x)) off = true;
        if (off && waited[x * 1000 + S->slot[x].steps]++ < 600) continue;
        d.push_back(x);
      }
      if (!d.empty()) c = d;
    }
    pick = c[0];
    if (begun) choose(c, seg, left, step - step0, pick);
    Slot& s = S->slot[pick];
    bool kill9 = false;
    for (auto& k : sc.kills) if (k.first == pick && k.second == s.steps) kill9 = true;
    s.steps++;
    if (kill9) {
      int pid = s.pid;
      for (int i = 0; i < S->n.load(); i++) if (S->slot[i].pid == pid) { S->slot[i].killedBy = 1; }
      note("kill " + std::to_string(pick));
      ::kill(pid, SIGKILL);
      int st; waitpid(pid, &st, 0);
      for (int i = 0; i < S->n.load(); i++) if (S->slot[i].pid == pid) S->slot[i].state.store(DONE);
      S->progress.fetch_add(1);
      continue;
    }
    s.state.store(RUNNING);
    s.deadline = -1;
    s.turn.store(1);
    futexWake(&s.turn);
  }
}
std::vector<std::string> history() {
  std::vector<std::string> r; std::string cur;
  size_t n = std::min(S->logLen.load(), sizeof(S->log) - 1);
  for (size_t i = 0; i < n; i++) { if (S->log[i] == '\n') { r.push_back(cur); cur.clear(); } else cur += S->log[i]; }
  return r;
}
int live() { int n = 0; for (int i = 0; i < S->n.load(); i++) n += S->slot[i].state.load() != DONE; return n; }
void killAll() {
  for (int i = 0; i < S->n.load(); i++) if (S->slot[i].pid != getpid() && S->slot[i].pid > 0) { ::kill(S->slot[i].pid, SIGKILL); }
  while (waitpid(-1, nullptr, 0) > 0) {}
}
int steps() { return S->steps.load(); }
std::string blockedAt(int w) { return S->slot[w].what; }
bool killed(int w) { return S->slot[w].killedBy; }
int died() { return S->died.load(); }

// ---- state of this process used by the stand-ins below
struct Waiter { pthread_cond_t* c; bool* flag; };
static std::vector<Waiter> waiters;
static std::map<pthread_t, int> slotOf;
static uint32_t fdGen[4096];
static int64_t rcvTo[4096], sndTo[4096];
static int64_t ns(const timespec* t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
static void lockLoop(pthread_mutex_t* m) {
  REAL(pthread_mutex_trylock);
  while (true) {
    int r = real_pthread_mutex_trylock(m);
    if (r == 0) { progress(); return; }
    if (r != EBUSY) abort();   // not a mutex (any more)
    block("mutex", -1);
  }
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  static auto un = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  bool flag = false;
  waiters.push_back({c, &flag});
  un(m); progress();
  int rc = 0;
  while (!flag) {
    if (deadline >= 0 && deadline <= S->now.load()) {
      rc = ETIMEDOUT;
      for (size_t i = 0; i < waiters.size(); i++) if (waiters[i].flag == &flag) { waiters.erase(waiters.begin() + i); break; }
      break;
    }
    block("cond", deadline);
  }
  lockLoop(m);
  return rc;
}
static bool interrupted() {
  return sc.eintr > 0 && (S->ioCalls.fetch_add(1) % sc.eintr) == (uint32_t)sc.eintr - 1;
}
static bool isSock(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode); }
static size_t chopped(size_t n) { return sc.chop > 0 && n > (size_t)sc.chop ? sc.chop : n; }
// repeats a non-blocking attempt until it does not ask to wait
template <class A> static ssize_t ioLoop(const char* what, int fd, int64_t to, A attempt) {
  int64_t deadline = to > 0 ? S->now.load() + to : -1;
  uint32_t gen = fd >= 0 && fd < 4096 ? fdGen[fd] : 0;
  bool nonblock = fd >= 0 && (fcntl(fd, F_GETFL) & O_NONBLOCK);
  while (true) {
    if (fd >= 0 && fd < 4096 && fdGen[fd] != gen) { block(what, deadline); if (deadline >= 0 && deadline <= S->now.load()) { errno = EAGAIN; return -1; } continue; }
    errno = 0;
    ssize_t r = attempt();
    if (r >= 0 || (errno != EAGAIN && errno != EWOULDBLOCK)) { int e = errno; progress(); errno = e; return r; }
    if (nonblock) { errno = EAGAIN; return -1; }
    if (deadline >= 0 && deadline <= S->now.load()) { errno = EAGAIN; return -1; }
    block(what, deadline);
  }
}
static socklen_t unixAddr(const sockaddr* a, sockaddr_un* u) {
  memset(u, 0, sizeof(*u));
  u->sun_family = AF_UNIX;
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  int n = snprintf(u->sun_path + 1, 90, "tt-%d-%d", caseTag, port);
  return offsetof(sockaddr_un, sun_path) + 1 + n;
}
}  // namespace sched

using namespace sched;
#define M (S && me >= 0)
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  if (!M) return realCreate(t, a, f, x);
  park("create");
  auto* st = new Start{newSlot(), f, x, nullptr};
  int k = st->slot;
  int r = realCreate(t, a, trampoline, st);
  if (r != 0) S->slot[k].state.store(DONE); else slotOf[*t] = k;
  progress();
  return r;
}
int pthread_join(pthread_t t, void** ret) {
  static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
  if (M && slotOf.count(t)) {
    park("join");
    int k = slotOf[t];
    while (S->slot[k].state.load() != DONE) block("join", -1);
    slotOf.erase(t);
    progress();
  }
  return rj(t, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto rl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!M) return rl(m);
  park("lock");
  lockLoop(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto un = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  int r = un(m);
  progress();
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto rw = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!M) return rw(c, m);
  return condWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  static auto rw = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
  if (!M) return rw(c, m, t);
  return condWait(c, m, std::max<int64_t>(0, ns(t) - BASE));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  static auto rw = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait");
  if (!M) return rw(c, m, k, t);
  return condWait(c, m, std::max<int64_t>(0, ns(t) - BASE));
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto rs = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!M) return rs(c);
  park("signal");
  for (size_t i = 0; i < waiters.size(); i++)
    if (waiters[i].c == c) { *waiters[i].flag = true; waiters.erase(waiters.begin() + i); break; }
  progress();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto rs = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!M) return rs(c);
  park("broadcast");
  for (size_t i = 0; i < waiters.size();)
    if (waiters[i].c == c) { *waiters[i].flag = true; waiters.erase(waiters.begin() + i); } else i++;
  progress();
  return 0;
}
int nanosleep(const timespec* t, timespec* rem) {
  static auto rn = real<int (*)(const timespec*, timespec*)>("nanosleep");
  if (!M) return rn(t, rem);
  vsleep(ns(t));
  return 0;
}
int clock_nanosleep(clockid_t k, int fl, const timespec* t, timespec* rem) {
  static auto rn = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
  if (!M) return rn(k, fl, t, rem);
  vsleep(fl & TIMER_ABSTIME ? std::max<int64_t>(0, ns(t) - BASE - S->now.load()) : ns(t));
  return 0;
}
int usleep(useconds_t u) {
  if (!M) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
  vsleep(u * 1000LL);
  return 0;
}
unsigned sleep(unsigned s) {
  if (!M) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
  vsleep(s * 1000000000LL);
  return 0;
}
int clock_gettime(clockid_t k, timespec* t) {
  static auto rg = real<int (*)(clockid_t, timespec*)>("clock_gettime");
  if (!M || k == CLOCK_PROCESS_CPUTIME_ID || k == CLOCK_THREAD_CPUTIME_ID) return rg(k, t);
  int64_t n = BASE + S->now.load();
  t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  static auto rg = real<int (*)(struct timeval*, void*)>("gettimeofday");
  if (!M) return rg(tv, tz);
  int64_t n = BASE + S->now.load();
  tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000;
  return 0;
}
time_t time(time_t* o) {
  timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
int sched_yield(void) {
  static auto ry = real<int (*)()>("sched_yield");
  if (!M) return ry();
  park("yield"); progress();
  return 0;
}
// ---- sockets: AF_INET streams are carried over abstract unix sockets private to the case
int socket(int d, int t, int p) {
  static auto rs = real<int (*)(int, int, int)>("socket");
  if (!M || d != AF_INET) return rs(d, t, p);
  park("socket");
  int fd = rs(AF_UNIX, t, 0);
  if (fd >= 0 && fd < 4096) { rcvTo[fd] = sndTo[fd] = 0; }
  progress();
  return fd;
}
int bind(int fd, const sockaddr* a, socklen_t l) {
  static auto rb = real<int (*)(int, const sockaddr*, socklen_t)>("bind");
  if (!M || a->sa_family != AF_INET) return rb(fd, a, l);
  sockaddr_un u; socklen_t n = unixAddr(a, &u);
  park("bind");
  int r = rb(fd, (sockaddr*)&u, n);
  int e = errno; progress(); errno = e;
  return r;
}
int listen(int fd, int b) {
  static auto rl = real<int (*)(int, int)>("listen");
  if (!M) return rl(fd, b);
  park("listen");
  int r = rl(fd, b);
  int e = errno; progress(); errno = e;
  return r;
}
int connect(int fd, const sockaddr* a, socklen_t l) {
  static auto rc = real<int (*)(int, const sockaddr*, socklen_t)>("connect");
  if (!M || a->sa_family != AF_INET) return rc(fd, a, l);
  sockaddr_un u; socklen_t n = unixAddr(a, &u);
  park("connect");
  int r = rc(fd, (sockaddr*)&u, n);
  int e = errno; progress(); errno = e;
  return r;
}
int accept4(int fd, sockaddr* a, socklen_t* l, int fl) {
  static auto ra = real<int (*)(int, sockaddr*, socklen_t*, int)>("accept4");
  if (!M) return ra(fd, a, l, fl);
  park("accept");
  if (interrupted()) { errno = EINTR; return -1; }
  int r = (int)ioLoop("accept", fd, fd >= 0 && fd < 4096 ? rcvTo[fd] : 0, [&]() -> ssize_t {
    pollfd p{fd, POLLIN, 0};
    static auto rp = real<int (*)(pollfd*, nfds_t, int)>("poll");
    int n = rp(&p, 1, 0);
    if (n == 0) { errno = EAGAIN; return -1; }
    return ra(fd, nullptr, nullptr, fl);
  });
  int e = errno;
  if (r >= 0 && a && l) {
    sockaddr_in s{}; s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); s.sin_port = htons(40000 + r);
    memcpy(a, &s, std::min<size_t>(*l, sizeof(s))); *l = sizeof(s);
  }
  if (r >= 0 && r < 4096) { rcvTo[r] = sndTo[r] = 0; }
  errno = e;
  return r;
}
int accept(int fd, sockaddr* a, socklen_t* l) {
  static auto ra = real<int (*)(int, sockaddr*, socklen_t*)>("accept");
  if (!M) return ra(fd, a, l);
  return accept4(fd, a, l, 0);
}
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) {
  static auto rs = real<int (*)(int, int, int, const void*, socklen_t)>("setsockopt");
  if (!M) return rs(fd, lv, o, v, l);
  if (lv == IPPROTO_TCP || lv == IPPROTO_IP) return 0;
  if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && fd >= 0 && fd < 4096) {
    auto* t = (const struct timeval*)v;
    (o == SO_RCVTIMEO ? rcvTo : sndTo)[fd] = t->tv_sec * 1000000000LL + t->tv_usec * 1000LL;
    return 0;
  }
  return rs(fd, lv, o, v, l);
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
  static auto rr = real<ssize_t (*)(int, void*, size_t, int)>("recv");
  if (!M) return rr(fd, b, n, fl);
  park("recv");
  if (interrupted()) { errno = EINTR; return -1; }
  if (fl & MSG_DONTWAIT) { ssize_t r = rr(fd, b, n, fl); int e = errno; progress(); errno = e; return r; }
  size_t want = fl & MSG_WAITALL ? n : chopped(n), got = 0;
  while (true) {
    ssize_t r = ioLoop("recv", fd, fd >= 0 && fd < 4096 ? rcvTo[fd] : 0,
                       [&] { return rr(fd, (char*)b + got, want - got, (fl & ~MSG_WAITALL) | MSG_DONTWAIT); });
    if (!(fl & MSG_WAITALL) || (fl & MSG_PEEK)) return r;
    if (r <= 0) return got > 0 ? (ssize_t)got : r;
    got += r;
    if (got >= want) return got;
  }
}
ssize_t send(int fd, const void* b, size_t n, int fl) {
  static auto rs = real<ssize_t (*)(int, const void*, size_t, int)>("send");
  if (!M) return rs(fd, b, n, fl);
  park("send");
  if (n > 0 && interrupted()) { errno = EINTR; return -1; }
  return ioLoop("send", fd, fd >= 0 && fd < 4096 ? sndTo[fd] : 0, [&] { return rs(fd, b, chopped(n), fl | MSG_DONTWAIT); });
}
ssize_t read(int fd, void* b, size_t n) {
  static auto rr = real<ssize_t (*)(int, void*, size_t)>("read");
  if (!M) return rr(fd, b, n);
  if (isSock(fd)) return recv(fd, b, n, 0);
  park("read");
  ssize_t r = rr(fd, b, n);
  int e = errno; progress(); errno = e;
  return r;
}
ssize_t write(int fd, const void* b, size_t n) {
  static auto rw = real<ssize_t (*)(int, const void*, size_t)>("write");
  if (!M) return rw(fd, b, n);
  if (isSock(fd)) return send(fd, b, n, 0);
  park("write");
  ssize_t r = rw(fd, b, n);
  int e = errno; progress(); errno = e;
  return r;
}
int poll(pollfd* p, nfds_t n, int ms) {
  static auto rp = real<int (*)(pollfd*, nfds_t, int)>("poll");
  if (!M) return rp(p, n, ms);
  park("poll");
  int64_t deadline = ms < 0 ? -1 : S->now.load() + ms * 1000000LL;
  while (true) {
    int r = rp(p, n, 0);
    if (r != 0 || (deadline >= 0 && deadline <= S->now.load())) { int e = errno; progress(); errno = e; return r; }
    block("poll", deadline);
  }
}
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t) {
  static auto rs = real<int (*)(int, fd_set*, fd_set*, fd_set*, struct timeval*)>("select");
  if (!M) return rs(n, r, w, x, t);
  park("select");
  int64_t deadline = t ? S->now.load() + t->tv_sec * 1000000000LL + t->tv_usec * 1000LL : -1;
  fd_set a, b, c; if (r) a = *r; if (w) b = *w; if (x) c = *x;
  while (true) {
    if (r) *r = a; if (w) *w = b; if (x) *x = c;
    struct timeval z{0, 0};
    int k = rs(n, r, w, x, &z);
    if (k != 0 || (deadline >= 0 && deadline <= S->now.load())) { progress(); return k; }
    block("select", deadline);
  }
}
int shutdown(int fd, int how) {
  static auto rs = real<int (*)(int, int)>("shutdown");
  if (!M) return rs(fd, how);
  park("shutdown");
  int r = rs(fd, how);
  int e = errno; progress(); errno = e;
  return r;
}
int close(int fd) {
  static auto rc = real<int (*)(int)>("close");
  if (!M) return rc(fd);
  park("close");
  if (fd >= 0 && fd < 4096) fdGen[fd]++;
  int r = rc(fd);
  int e = errno; progress(); errno = e;
  return r;
}
// ---- files
int flock(int fd, int op) {
  static auto rf = real<int (*)(int, int)>("flock");
  if (!M) return rf(fd, op);
  park("flock");
  if ((op & ~LOCK_NB) == LOCK_UN || (op & LOCK_NB)) { int r = rf(fd, op); int e = errno; progress(); errno = e; return r; }
  return (int)ioLoop("flock", -1, 0, [&]() -> ssize_t { return rf(fd, op | LOCK_NB); });
}
int lockf(int fd, int cmd, off_t len) {
  static auto rl = real<int (*)(int, int, off_t)>("lockf");
  if (!M || cmd != F_LOCK) { int r = rl(fd, cmd, len); int e = errno; progress(); errno = e; return r; }
  park("lockf");
  return (int)ioLoop("lockf", -1, 0, [&]() -> ssize_t { int r = rl(fd, F_TLOCK, len); if (r < 0 && errno == EACCES) errno = EAGAIN; return r; });
}
static int fcntlAny(int (*rf)(int, int, ...), int fd, int cmd, void* arg) {
  if (!M || (cmd != F_SETLKW && cmd != F_SETLK && cmd != F_OFD_SETLKW && cmd != F_OFD_SETLK)) return rf(fd, cmd, arg);
  park("fcntl");
  if (cmd == F_SETLK || cmd == F_OFD_SETLK) { int r = rf(fd, cmd, arg); int e = errno; progress(); errno = e; return r; }
  return (int)ioLoop("fcntl", -1, 0, [&]() -> ssize_t {
    int r = rf(fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
    if (r < 0 && errno == EACCES) errno = EAGAIN;
    return r;
  });
}
int fcntl(int fd, int cmd, ...) {
  static auto rf = real<int (*)(int, int, ...)>("fcntl");
  va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  return fcntlAny(rf, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  static auto rf = real<int (*)(int, int, ...)>("fcntl64");
  va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  return fcntlAny(rf, fd, cmd, arg);
}
int open(const char* p, int fl, ...) {
  static auto ro = real<int (*)(const char*, int, ...)>("open");
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (!M) return ro(p, fl, mode);
  park("open");
  int r = ro(p, fl, mode);
  int e = errno; progress(); errno = e;
  return r;
}
int open64(const char* p, int fl, ...) {
  static auto ro = real<int (*)(const char*, int, ...)>("open64");
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (!M) return ro(p, fl, mode);
  park("open");
  int r = ro(p, fl, mode);
  int e = errno; progress(); errno = e;
  return r;
}
#define WRAP(ret, name, params, args)                                    \
  ret name params {                                                      \
    static auto rf = real<ret(*) params>(#name);                         \
    if (!M) return rf args;                                              \
    park(#name);                                                         \
    ret r = rf args;                                                     \
    int e = errno; progress(); errno = e;                                \
    return r;                                                            \
  }
WRAP(FILE*, fopen, (const char* p, const char* m), (p, m))
WRAP(FILE*, fopen64, (const char* p, const char* m), (p, m))
WRAP(int, fclose, (FILE* f), (f))
WRAP(int, fflush, (FILE* f), (f))
WRAP(size_t, fread, (void* b, size_t s, size_t n, FILE* f), (b, s, n, f))
WRAP(size_t, fwrite, (const void* b, size_t s, size_t n, FILE* f), (b, s, n, f))
WRAP(int, unlink, (const char* p), (p))
WRAP(int, remove, (const char* p), (p))
WRAP(int, rename, (const char* p, const char* q), (p, q))
WRAP(int, link, (const char* p, const char* q), (p, q))
WRAP(int, stat, (const char* p, struct stat* b), (p, b))
WRAP(int, lstat, (const char* p, struct stat* b), (p, b))
WRAP(int, access, (const char* p, int m), (p, m))
WRAP(int, truncate, (const char* p, off_t n), (p, n))
WRAP(int, ftruncate, (int fd, off_t n), (fd, n))
WRAP(ssize_t, pread, (int fd, void* b, size_t n, off_t o), (fd, b, n, o))
WRAP(ssize_t, pwrite, (int fd, const void* b, size_t n, off_t o), (fd, b, n, o))
WRAP(int, mkdir, (const char* p, mode_t m), (p, m))
WRAP(DIR*, opendir, (const char* p), (p))
WRAP(struct dirent*, readdir, (DIR* d), (d))
}
// released memory is overwritten and never reused: a thread that goes on using a destroyed object is seen to fail
void operator delete(void* p) noexcept { if (p) { memset(p, 0xDD, malloc_usable_size(p)); } }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
