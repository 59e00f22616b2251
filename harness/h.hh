// Common part of the replay / bounded stand-in harnesses.
#ifndef VERIF_H_HH
#define VERIF_H_HH
#include <algorithm>
#include <cassert>
#include <cctype>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <list>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/types.h>

namespace h {
static uint64_t rs = 88172645463325252ULL;
static bool thorough = false;
static long ncases = 0, nnontriv = 0;
static std::string cur;      // description of the running case
static int samples = 0;
static bool finished = false;

inline uint64_t rnd() {
  rs ^= rs << 13;
  rs ^= rs >> 7;
  rs ^= rs << 17;
  return rs * 2685821657736338717ULL;
}
inline int ri(int lo, int hi) { return lo + (int)((rnd() >> 16) % (uint64_t)(hi - lo + 1)); }
inline double rd() { return (double)(rnd() >> 11) / 9007199254740992.0; }

inline std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
template <class V> std::string vec(const V &v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++)
    o << (i ? " " : "") << v[i];
  o << "]";
  return o.str();
}
inline void die(const std::string &what) {
  finished = true;
  printf("FAIL %s\ncase: %s\n", what.c_str(), cur.c_str());
  fflush(stdout);
  _exit(1);
}
inline void begin(const std::string &c) {
  cur = c;
  ncases++;
  alarm(60);
}
inline void begin(std::string &c) { begin((const std::string &)c); }   // keeps std::begin out
inline void nontrivial() { nnontriv++; }
inline void sample() {
  if (samples++ < 5) {
    std::string s = cur.substr(0, 300);
    for (size_t i = 0; i < s.size(); i++)
      if (s[i] == '\n') s[i] = '|';
    printf("SAMPLE %s\n", s.c_str());
  }
}
inline void onsig(int s) {
  signal(s, SIG_DFL);
  printf("FAIL crashed with signal %d\ncase: %s\n", s, cur.c_str());
  fflush(stdout);
  _exit(1);
}
// a case normally takes well under a second; one that is not over after a minute never will be
inline void onalarm(int) {
  printf("FAIL the case does not end (60 s)\ncase: %s\n", cur.c_str());
  fflush(stdout);
  _exit(1);
}
inline void onexit() {
  if (finished) return;
  finished = true;
  printf("FAIL the code under test called exit()\ncase: %s\n", cur.c_str());
  fflush(stdout);
  _exit(1);
}
inline void onterm() {
  printf("FAIL uncaught exception\ncase: %s\n", cur.c_str());
  fflush(stdout);
  _exit(1);
}
inline void start() {
  const char *s = getenv("VERIF_SEED");
  rs = 88172645463325252ULL ^ ((uint64_t)(s ? atol(s) : 1) * 0x9E3779B97F4A7C15ULL);
  for (int i = 0; i < 10; i++) rnd();
  const char *t = getenv("VERIF_TIER");
  thorough = t && !strcmp(t, "thorough");
  signal(SIGSEGV, onsig);
  signal(SIGABRT, onsig);
  signal(SIGFPE, onsig);
  signal(SIGBUS, onsig);
  signal(SIGILL, onsig);
  signal(SIGALRM, onalarm);
  atexit(onexit);
  std::set_terminate(onterm);
  // the code under test is chatty on stderr
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 2);
}
inline int done() {
  finished = true;
  alarm(0);
  printf("STAT cases %ld\nSTAT nontrivial %ld\nDONE\n", ncases, nnontriv ? nnontriv : ncases);
  fflush(stdout);
  return 0;
}
inline bool close(double a, double b, double tol = 1e-4) {
  if (a == b) return true;
  return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
// run f in a child; true iff it ended without calling exit(nonzero), throwing or crashing.
// crash: set when it died by a signal
inline int child(const std::function<int()> &f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    finished = true;
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGALRM, SIG_DFL);
    alarm(20);
    int r = 99;
    try { r = f(); } catch (...) { r = 98; }
    _exit(r);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st);
  return WEXITSTATUS(st);
}
} // namespace h
#define CHECK(c, ...) do { if (!(c)) h::die(std::string("violated: " #c " -- ") + h::fmt(__VA_ARGS__)); } while (0)
#endif
