// Exhaustive exploration of operation sequences on a fresh object: a case is a prefix of `pre` operations; all
// extensions up to length `depth` are executed (by replay from the initial state) and checked after their last operation.
#pragma once
#include "mc.hh"
#include <memory>
struct Sys { // one system under test with its reference
  virtual ~Sys() {}
  virtual bool apply(unsigned op) = 0;        // false: operation not possible here (sequence is skipped)
  virtual std::string check() = 0;            // empty if implementation and reference agree
  virtual uint64_t state() = 0;               // hash of the observed state
  std::string err;                            // set by apply() on a mismatch
};
typedef std::function<std::unique_ptr<Sys>()> MkSys;
struct SeqSpec { std::string name; unsigned nops, depth, pre; MkSys mk; std::function<std::string(unsigned)> opname; std::string key = "history"; double timeout = 120; };
static inline std::string seq_str(const SeqSpec &s, const std::vector<unsigned> &v) { std::string r; for (auto o : v) r += (r.empty() ? "" : "; ") + s.opname(o); return r.empty() ? "(no operation)" : r; }
static inline mc::Family seq_family(SeqSpec s) {
  mc::Family f; f.name = s.name; f.timeout_s = s.timeout;
  s.pre = std::min(s.pre, s.depth);
  uint64_t n = 1; for (unsigned i = 0; i < s.pre; i++) n *= s.nops; // full-length prefixes
  uint64_t shorter = 0, p = 1; for (unsigned i = 0; i < s.pre; i++) { shorter += p; p *= s.nops; }
  f.n = shorter + n; // shorter sequences first, each one its own case
  auto decode = [s, shorter](uint64_t i, std::vector<unsigned> &v) {
    unsigned len = 0; uint64_t p = 1;
    while (len < s.pre && i >= p) { i -= p; p *= s.nops; len++; }
    v.assign(len, 0); for (unsigned k = len; k-- > 0;) { v[k] = i % s.nops; i /= s.nops; }
    return len == s.pre;
  };
  f.desc = [=](uint64_t i) { std::vector<unsigned> v; bool ext = decode(i, v); return seq_str(s, v) + (ext && s.depth > s.pre ? mc::strf(" + all extensions up to length %u", s.depth) : ""); };
  f.run = [=](uint64_t i, mc::Ctx &c) {
    std::vector<unsigned> v; bool ext = decode(i, v); std::set<uint64_t> seen; uint64_t ops = 0, seqs = 0; size_t base = v.size();
    std::string nm;
    // depth-first over extensions; returns false if the prefix is not executable (prune)
    auto exec = [&](bool &enabled) {
      auto sys = s.mk(); enabled = true;
      for (auto o : v) { if (!sys->apply(o)) { enabled = false; return true; } ops++; if (!sys->err.empty()) { c.fail(s.key, "after [%s]: %s", seq_str(s, v).c_str(), sys->err.c_str()); return false; } }
      std::string e = sys->check(); seqs++;
      if (!e.empty()) { c.fail(s.key, "after [%s]: %s", seq_str(s, v).c_str(), e.c_str()); return false; }
      uint64_t h = sys->state(); if (seen.insert(h).second) c.outcome(h);
      return true;
    };
    bool en; bool good = exec(en);
    if (!en) { c.trivial(); return; }
    if (good && ext && s.depth > base) {
      // iterative deepening order is not needed: pre-order DFS checks every prefix before its extensions
      std::function<bool()> rec = [&]() {
        if (v.size() >= s.depth) return true;
        for (unsigned o = 0; o < s.nops; o++) { v.push_back(o); bool e2; bool ok = exec(e2); if (ok && e2) ok = rec(); v.pop_back(); if (!ok) return false; }
        return true;
      };
      rec();
    }
    c.steps(ops); c.validated(seqs); c.queries(seqs);
  };
  return f;
}
