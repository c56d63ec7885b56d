// Common parts of the verification drivers: a line-command interpreter over the public API.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>

namespace drv {
using Toks = std::vector<std::string>;
inline Toks split(const std::string& s, char c) {
  Toks r; std::string cur; std::stringstream ss(s);
  if (s.empty()) return r;
  while (std::getline(ss, cur, c)) r.push_back(cur);
  return r;
}
inline Toks words(const std::string& s) { Toks r; std::stringstream ss(s); std::string w; while (ss >> w) r.push_back(w); return r; }
inline std::vector<int64_t> ints(const std::string& s) {
  std::vector<int64_t> r; if (s == "-" || s.empty()) return r;
  for (auto& x : split(s, ',')) r.push_back(strtoll(x.c_str(), nullptr, 0));
  return r;
}
inline std::vector<double> dbls(const std::string& s) {
  std::vector<double> r; if (s == "-" || s.empty()) return r;
  for (auto& x : split(s, ',')) r.push_back(strtod(x.c_str(), nullptr));
  return r;
}
extern std::string out;   // observation buffer of the current case
inline void emit(const std::string& s) { out += "@" + s + "\n"; }
inline void flushOut() {
  size_t o = 0;
  while (o < out.size()) { ssize_t n = ::write(3, out.data() + o, out.size() - o); if (n <= 0) break; o += n; }
  out.clear();
}
// Runs every `CASE id` block of stdin in a forked child; observations go to fd 3, everything the library prints
// elsewhere is discarded by the runner.  A case that does not end is stopped; each one that had to be stopped shortens the
// time the later ones get, and after six of them the rest are not run any more (exit 98).
inline int mainLoop(const std::function<void(const Toks&)>& exec, int timeoutSec = 60) {
  std::vector<std::string> lines; std::string line;
  while (std::getline(std::cin, line)) lines.push_back(line);
  size_t i = 0;
  int stopped = 0;
  while (i < lines.size()) {
    auto w = words(lines[i]);
    if (w.empty()) { i++; continue; }
    if (w[0] != "CASE") { fprintf(stderr, "bad script line %zu: %s\n", i, lines[i].c_str()); return 3; }
    size_t j = i + 1;
    while (j < lines.size() && lines[j].compare(0, 5, "CASE ") != 0) j++;
    int limit = std::max(5, timeoutSec >> (2 * stopped));
    pid_t p = fork();
    if (p == 0) {
      if (stopped >= 6) _exit(98);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      struct rlimit cl = {(rlim_t)limit, (rlim_t)limit + 1}; setrlimit(RLIMIT_CPU, &cl);
      alarm(limit * 2);
      emit("C " + w[1]);
      for (size_t k = i + 1; k < j; k++) {
        auto t = words(lines[k]);
        if (!t.empty()) { exec(t); }
        if (out.size() > 60000) flushOut();
      }
      emit("E");
      flushOut();
      _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) stopped++;
    std::string msg;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) msg = "@X 0\n";
    else if (WIFSIGNALED(st)) msg = "@X sig " + w[1] + " " + std::to_string(WTERMSIG(st)) + "\n";
    else msg = "@X exit " + w[1] + " " + std::to_string(WEXITSTATUS(st)) + "\n";
    if (write(3, msg.data(), msg.size()) < 0) return 4;
    i = j;
  }
  return 0;
}
}  // namespace drv
