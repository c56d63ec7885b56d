// Runs scripted clients of the key-value stores under the controlled scheduler and emits the history.
#include "drv.h"
#include "vsched.h"
#include "Distributed/FileStore.h"
#include "Distributed/TCPStore.h"
#include <dirent.h>
#include <sys/stat.h>
using namespace tinytorch::distributed;
using drv::Toks;
std::string drv::out;

struct FS : FileStore {
  FS(const std::string& p, std::chrono::milliseconds t) : FileStore(p) { timeout_ = t; }
};
static std::string dec(const std::string& s) {
  std::string r;
  if (s == "-") return r;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%') { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else if (s[i] == '*') {  // *len*seed: that many bytes made from the seed
      size_t j = s.find('*', i + 1); long n = strtol(s.c_str() + i + 1, nullptr, 10); uint32_t x = strtol(s.c_str() + j + 1, nullptr, 10);
      for (long k = 0; k < n; k++) { x = x * 1664525u + 1013904223u; r += (char)(x >> 24); }
      return r;
    } else r += s[i];
  return r;
}
static std::string enc(const std::string& v) {
  if (v.empty()) return "-";
  if (v.size() > 24) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : v) { h ^= c; h *= 1099511628211ULL; }
    return "#" + std::to_string(v.size()) + ":" + std::to_string(h);
  }
  std::string r; char b[8];
  for (unsigned char c : v) { if (isalnum(c) || c == '-' && v.size() > 1) r += c; else { snprintf(b, 8, "%%%02X", c); r += b; } }
  return r;
}
static std::vector<std::string> keys(const std::string& s) { std::vector<std::string> r; if (s == "=") return r; for (auto& x : drv::split(s, ';')) r.push_back(dec(x)); return r; }

static std::string kind, dir;
static std::vector<std::vector<Toks>> script;
static std::vector<bool> own;   // in a process of its own
static long timeoutMs = 1000;

static std::shared_ptr<Store> common;   // one store object used by several threads
static void body(int w) {
  std::shared_ptr<Store> st;
  int id = 0;
  auto tmo = std::chrono::milliseconds(timeoutMs);
  for (auto& o : script[w]) {
    auto& c = o[0];
    if (c == "at") { int64_t d = atoll(o[1].c_str()) - sched::nowMs(); if (d > 0) sched::sleepMs(d); continue; }
    if (c == "tmo") { tmo = std::chrono::milliseconds(atoll(o[1].c_str())); continue; }
    std::string line; for (auto& x : o) line += " " + x;
    std::string tag = std::to_string(w) + " " + std::to_string(id++);
    sched::note("call " + tag + line);
    std::string r = "ok";
    if (c == "open") {
      if (o.size() > 1 && o[1] == "common") {
        if (!common) common = std::make_shared<FS>(dir, tmo);
        st = common;
      } else if (kind == "file") st = std::make_shared<FS>(dir, tmo);
      else st = std::make_shared<TCPStore>("127.0.0.1", 7, false, false, -1, tmo);
    } else if (c == "serve") {
      int n = atoi(o[1].c_str());
      st = std::make_shared<TCPStore>("127.0.0.1", 7, true, n > 0, n, tmo);
    } else if (c == "close") st.reset();
    else if (!st) r = "none";
    else if (c == "set") { auto v = dec(o[2]); st->set(dec(o[1]), std::vector<uint8_t>(v.begin(), v.end())); }
    else if (c == "sets") st->Store::set(dec(o[1]), dec(o[2]));
    else if (c == "get") { auto v = st->get(dec(o[1])); r = enc(std::string(v.begin(), v.end())); }
    else if (c == "gets") r = enc(st->getString(dec(o[1])));
    else if (c == "add") r = std::to_string(st->add(dec(o[1]), atoll(o[2].c_str())));
    else if (c == "del") r = st->deleteKey(dec(o[1])) ? "1" : "0";
    else if (c == "chk") r = st->check(keys(o[1])) ? "1" : "0";
    else if (c == "num") r = std::to_string(st->getNumKeys());
    else if (c == "wait") st->wait(keys(o[1]));
    else _exit(9);
    sched::note("ret " + tag + " " + r);
  }
  if (st) new std::shared_ptr<Store>(st);   // not destroyed unless the script closes it
}
static void rmTree(const std::string& p) {
  DIR* d = opendir(p.c_str());
  if (d) {
    while (auto* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") rmTree(p + "/" + n); }
    closedir(d); rmdir(p.c_str());
  } else ::unlink(p.c_str());
}
static void exec(const Toks& t) {
  if (t[0] == "KV") {   // KV tcp|file timeoutMs T|P per worker
    kind = t[1]; timeoutMs = atol(t[2].c_str());
    for (char c : t[3]) { own.push_back(c == 'P'); script.emplace_back(); }
  } else if (t[0] == "O") {
    script[atoi(t[1].c_str())].push_back(Toks(t.begin() + 2, t.end()));
  } else if (t[0] == "RUN") {
    std::string top;
    if (kind == "file") {
      const char* base = getenv("TT_SCRATCH");
      top = std::string(base ? base : "/dev/shm") + "/ttkv-XXXXXX";
      if (!mkdtemp(&top[0])) _exit(9);
      mkdir((top + "/a").c_str(), 0755);
      dir = top + "/a/store";
    }
    sched::init(sched::parse(Toks(t.begin() + 1, t.end())));
    std::vector<int> slots(script.size());
    for (size_t w = 0; w < script.size(); w++)
      if (own[w]) slots[w] = sched::processWorker([w] { body((int)w); });
      else slots[w] = sched::threadWorker([w] { body((int)w); });
    auto how = sched::run();
    int live = sched::live();
    std::string bl;
    for (auto& h : sched::history()) drv::emit("H " + h);
    for (int s : slots) bl += " " + sched::blockedAt(s);
    drv::emit("R " + how + " " + std::to_string(sched::nowMs()) + " live " + std::to_string(live) + " died " + std::to_string(sched::died()) + " steps " + std::to_string(sched::steps()) + bl);
    sched::killAll();
    if (!top.empty() && top.find("/ttkv-") != std::string::npos) rmTree(top);
  } else _exit(9);
}
int main() { return drv::mainLoop(exec, 60); }
