// Small bounded-exhaustive exploration framework.
// A check is a list of families; family f has n(f) cases, decoded from an index, run on the real code.
// All cases of all families are run (simplest first) by forked workers; failures are re-run in a
// fresh process, alone or else after the cases that preceded them in their worker, before they are reported.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

struct Ctx {
  bool failed = false;
  bool confirming = false; // running alone, with longer limits
  std::string key, msg;
  // First failure wins.  key identifies the failing input/call site for the known-findings file.
  void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void outcome(uint64_t h);           // a distinct observed outcome/state
  void outcome(const std::string &s); // same, hashed
  void steps(uint64_t n);             // transitions: operations / tool runs executed on the real code
  void validated(uint64_t n);         // executions compared with the reference model to the end
  void queries(uint64_t n);           // single comparisons made
  void trivial() { is_trivial = true; }
  bool is_trivial = false;
};

struct Family {
  std::string name;
  uint64_t n;
  std::function<void(uint64_t, Ctx &)> run;
  std::function<std::string(uint64_t)> desc;
  double timeout_s = 25;
};

struct CheckDef {
  std::string level = "exploration"; // or model_checking / fault_enumeration
  std::string rule;                  // how cases are made, what makes one non-trivial
  std::string bounds;
  std::vector<std::string> assumptions;
  std::vector<Family> families;
  unsigned chunk = 8;
  unsigned workers = 0;        // 0: number of cores
  unsigned respawn_after = 4000; // cases per worker process
};

typedef std::function<bool(const std::string &prop, bool thorough, CheckDef &out)> Builder;

int run_main(int argc, char **argv, const Builder &b);

// scratch directory of this worker (inside the run's private scratch dir)
const std::string &scratch();

uint64_t hash64(const void *p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash64(const std::string &s) { return hash64(s.data(), s.size()); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
} // namespace mc
