// Executable contracts: the postconditions of the contracts under proof, evaluated on the real code.
// Used to replay/complete failed obligations and as the bounded stand-in where a contract cannot attach.
#pragma once
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace dv {
inline char cur[1 << 16];
inline char grp[256];
inline long cases = 0, nontrivial = 0;
inline std::map<std::string, long> perGroup;
inline std::vector<std::string> samples;
inline uint64_t seed = 1;
inline bool thorough = false;
inline double budget = 60;
inline std::string only;
inline std::chrono::steady_clock::time_point t0;
inline int findings = 0;

inline double elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}
inline uint64_t rs = 88172645463325252ull;
inline uint64_t rnd() {
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return rs * 2685821657736338717ull;
}
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
inline int64_t rin(int64_t lo, int64_t hi) { return lo + (int64_t)rnd((uint64_t)(hi - lo + 1)); }

inline void armTimer(int sec) {
  struct itimerval t = {};
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

[[noreturn]] inline void die(const char *why) {
  char b[sizeof(cur) + 1024];
  int n = snprintf(b, sizeof b, "\nFAILCASE group=%s | %s | %s\n", grp, cur, why);
  (void)!write(1, b, n);
  fflush(stdout);
  _exit(1);
}
inline void onsig(int s) {
  die(s == SIGPROF ? "does not terminate (CPU limit for one case)" : s == SIGABRT ? "aborts (assertion or sanitizer)"
      : s == SIGFPE ? "arithmetic trap" : s == SIGTRAP || s == SIGILL ? "trap" : "crashes");
}
inline int caseLimit = 40;
template <class... A> std::string str(const A &...a) {
  std::ostringstream o;
  ((o << a), ...);
  return o.str();
}
template <class V> std::string vec(const V &v) {
  std::ostringstream o;
  o << "[";
  bool f = true;
  for (const auto &x : v) { if (!f) o << ","; f = false; o << x; }
  o << "]";
  return o.str();
}
// start one case; `trivial` cases are counted apart
inline void begin(const std::string &d, bool trivial = false) {
  size_t n = std::min(d.size(), sizeof(cur) - 1);
  memcpy(cur, d.data(), n);
  cur[n] = 0;
  ++cases;
  if (!trivial) ++nontrivial;
  if (perGroup[grp]++ % 64 == 0) armTimer(caseLimit);
  if (samples.size() < 6 && (perGroup[grp] == 1 || perGroup[grp] == 40)) samples.push_back(std::string(grp) + ": " + d.substr(0, 160));
}
[[noreturn]] inline void fail(const std::string &why) { die(why.c_str()); }
inline void check(bool ok, const std::string &why) { if (!ok) fail(why); }
template <class F> inline void checkf(bool ok, F f) { if (!ok) fail(f()); }

struct Group { const char *name; std::function<void()> f; };
inline std::vector<Group> &groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char *n, std::function<void()> f) { groups().push_back({n, f}); } };
inline double groupEnd = 0;
inline bool more() { return elapsed() < groupEnd; }
}  // namespace dv
#define GROUP(id) static void grp_##id(); static dv::Reg reg_##id(#id, grp_##id); static void grp_##id()

extern "C" inline const char *__asan_default_options() { return "detect_leaks=0:detect_container_overflow=0:abort_on_error=1:handle_abort=0:detect_odr_violation=0:allocator_may_return_null=1"; }
extern "C" inline const char *__ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=0"; }

// usage: harness seed quick|thorough seconds [group]
int main(int argc, char **argv) {
  using namespace dv;
  seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  thorough = argc > 2 && !strcmp(argv[2], "thorough");
  budget = argc > 3 ? atof(argv[3]) : 60;
  only = argc > 4 ? argv[4] : "";
  t0 = std::chrono::steady_clock::now();
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGPROF, SIGILL, SIGTRAP}) signal(s, onsig);
  size_t n = 0;
  for (auto &g : groups()) if (only.empty() || only == g.name) ++n;
  size_t k = 0;
  for (auto &g : groups()) {
    if (!only.empty() && only != g.name) continue;
    rs = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull);
    for (const char *p = g.name; *p; ++p) rs = rs * 1099511628211ull + *p;
    if (!rs) rs = 1;
    for (int i = 0; i < 8; ++i) rnd();
    snprintf(grp, sizeof grp, "%s", g.name);
    // share what is left evenly among the remaining groups
    groupEnd = elapsed() + (budget - elapsed()) / (double)(n - k);
    ++k;
    g.f();
    armTimer(0);
  }
  printf("STATS cases=%ld nontrivial=%ld seconds=%.1f", cases, nontrivial, elapsed());
  for (auto &p : perGroup) printf(" %s=%ld", p.first.c_str(), p.second);
  printf("\n");
  for (auto &s : samples) printf("SAMPLE %s\n", s.c_str());
  printf("ALLOK\n");
  return 0;
}
