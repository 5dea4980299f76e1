// Independent reference: interpolated Kneser-Ney / absolute discounting on plain maps.
#pragma once
#include "vk.hh"
#include <algorithm>
#include <array>
namespace ref {
using vk::Words;
struct TrainOpt {
  int order = 3;
  bool absolute = false, three = false, clear = false;
  std::string unk = "<UNK>";
};
struct Bo { long den = 0, prune_den = 0; long nz[3] = {0, 0, 0}; };
struct KN {
  TrainOpt o;
  int order = 0;
  Words vocab; std::set<std::string> vset;
  std::vector<std::map<Words, long>> c;  // c[n]: counts of order n (n>=1)
  std::vector<std::map<Words, Bo>> b;    // b[n]: back-off data of contexts of length n-1
  std::vector<std::array<float, 3>> D;   // D[n]
  // vocabulary from the text itself (or restricted to vocab_in, not containing unk)
  void read(const Words &text, const TrainOpt &opt, const Words *restrict_to = nullptr);
  void type_counts();
  void recount_bo();      // rebuild b from c (no pruned mass)
  void loo(int n);        // leave-one-out discount of order n
  void init_disc(float x = 0.71f);
  long cnt(const Words &g) const { auto &m = c[g.size()]; auto i = m.find(g); return i == m.end() ? 0 : i->second; }
  int cls(long n) const { return o.three ? int(std::min<long>(n - 1, 2)) : 0; }
  double coeff(const Words &ctx) const; // interpolation coefficient of a context of length >=1 
  double prob(const Words &w) const;    // full recursion; w = context + word
  uint64_t hash() const;
};
} // namespace ref
