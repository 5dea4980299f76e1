// Bounded space of small language models in ARPA form: all prefix-closed n-gram sets over a few words, with
// probabilities and back-off weights that make the model a distribution.
#pragma once
#include "vk.hh"
#include <algorithm>
#include <memory>
namespace lmgen {
using vk::Words; using vk::Model; using vk::Entry; using mc::strf;
struct Shape { Words vocab; std::set<Words> grams; int order; }; // grams of order >= 2
enum Kind { BO_NEG, BO_POS, INTERP, INTERP_BK }; // back-off weights below / above one, interpolated, interpolated with bookkeeping entries
// fixed pseudo-random weight of (context, word), 1..5
static inline double wt(const Words &h, const std::string &w) { uint64_t x = mc::hash64(vk::join(h) + "|" + w); return 1 + (x >> 7) % 5; }
static inline double tail(const Model &m, const Words &h, const std::string &w) { Words g(h.begin() + 1, h.end()); g.push_back(w); return m.prob(g); }
static inline double r6(double x) { return strtod(strf("%.6g", x).c_str(), nullptr); }
// zero: word with (almost) no probability, e.g. <s>
static inline Model make(const Shape &s, Kind k, const std::string &zero = "") {
  Model m; m.interp = k == INTERP || k == INTERP_BK; m.order = s.order; m.vocab = s.vocab; m.vset.insert(s.vocab.begin(), s.vocab.end());
  double tot = 0; for (auto &w : s.vocab) if (w != zero) tot += wt(Words(), w);
  for (auto &w : s.vocab) { Entry e; e.lp = w == zero ? -99 : r6(log10(wt(Words(), w) / tot)); m.g[Words(1, w)] = e; }
  Model cur = m; cur.order = 1;
  for (int o = 2; o <= s.order; o++) {
    std::map<Words, Words> by; for (auto &g : s.grams) if ((int)g.size() == o) by[Words(g.begin(), g.end() - 1)].push_back(g.back());
    Model low = m; low.order = o - 1;
    for (auto &x : by) {
      const Words &h = x.first; size_t nz = 0; for (auto &w : x.second) nz += w != zero; bool full = nz == s.vocab.size() - !zero.empty();
      double mass = full && !m.interp ? 1 : (k == BO_POS ? 0.05 + 0.1 * nz / s.vocab.size() : 0.4 + 0.5 * nz / s.vocab.size());
      if (!nz) mass = 0;
      double t = 0; for (auto &w : x.second) if (w != zero) t += wt(h, w);
      double lowsum = 0; // lower-order mass of the explicit words
      for (auto &w : x.second) lowsum += tail(low, h, w);
      double left = 1 - mass;
      for (auto &w : x.second) {
        Words g = h; g.push_back(w); Entry e; bool bk = k == INTERP_BK && wt(h, w) >= 4;
        double p = wt(h, w) / t * mass; if (w == zero) p = 0;
        if (bk && p > 0) { left += p; p = 0; }
        e.lp = p > 0 ? r6(log10(p)) : -99; m.g[g] = e;
      }
      double bo = m.interp ? left : (full ? 1 : left / (1 - lowsum));
      Entry &c = m.g[h]; c.bo = bo > 0 ? r6(log10(bo)) : 0; if (c.bo == 0) c.bo = 0; c.has_bo = true;
    }
  }
  return m;
}
struct Layout { int sep = 0; bool zero_bo = false, blank = false; int head = 0; const std::vector<std::vector<int>> *perm = nullptr; };
static inline std::string render(const Model &m, const Layout &l = Layout()) {
  static const char *SEP[][3] = {{"", " ", ""}, {"", "\t", ""}, {" ", "  ", " "}, {"\t", " \t ", "\t "}, {"", "\t\t", " "}};
  std::vector<std::vector<std::string>> sec(m.order + 1); std::vector<uint64_t> n(m.order + 1, 0);
  auto add = [&](const Words &g, const Entry &e) {
    const char *const *s = SEP[l.sep]; std::string x = s[0]; x += strf("%.6g", e.lp);
    for (auto &w : g) { x += s[1]; x += w; }
    if (e.has_bo && (e.bo != 0 || !m.interp || l.zero_bo)) { x += s[1]; x += strf("%.6g", e.bo); } else if (l.zero_bo) { x += s[1]; x += "0"; }
    x += s[2]; sec[g.size()].push_back(x);
  };
  for (auto &w : m.vocab) add(Words(1, w), m.g.at(Words(1, w)));
  for (auto &g : m.g) if (g.first.size() > 1) add(g.first, g.second);
  std::string r = m.interp ? l.head & 1 ? "iARPA\n" : "\\interpolated\n" : ""; if (l.blank) r += "\n"; if (l.head & 2) r = "A model.\nngram 1=7\n" + r + "x y\n\n";
  r += "\\data\\\n"; for (int o = 1; o <= m.order; o++) { r += strf(l.head & 2 ? "ngram %d= %zu\n" : "ngram %d=%zu\n", o, sec[o].size()); if (l.head & 4) r += o % 2 ? "\n" : " \t\n"; }
  for (int o = 1; o <= m.order; o++) {
    r += strf("\n\\%d-grams:\n", o);
    for (size_t i = 0; i < sec[o].size(); i++) { size_t j = l.perm && (int)l.perm->size() > o && (*l.perm)[o].size() == sec[o].size() ? (*l.perm)[o][i] : i; r += sec[o][j] + "\n"; if (l.blank && i % 2) r += "\n"; }
    if (l.blank) r += "\n";
  }
  r += "\n\\end\\\n"; return r;
}
// all prefix-closed sets: bigrams over pred x hist subsets, trigrams: none / each one / all extensions of one context / all
static inline void shapes_bi(std::vector<Shape> &out, const Words &vocab, const Words &hist, const Words &pred, int maxtri, unsigned stride = 1) {
  std::vector<Words> bi; for (auto &h : hist) for (auto &w : pred) bi.push_back({h, w});
  for (uint64_t mask = 0; mask < (1ull << bi.size()); mask += stride) {
    Shape s; s.vocab = vocab; s.order = mask ? 2 : 1; std::vector<Words> tri;
    for (size_t i = 0; i < bi.size(); i++) if (mask >> i & 1) { s.grams.insert(bi[i]); for (auto &w : pred) if (std::find(hist.begin(), hist.end(), bi[i][1]) != hist.end()) { Words t = bi[i]; t.push_back(w); tri.push_back(t); } }
    out.push_back(s); if (tri.empty() || maxtri == 0) continue;
    s.order = 3;
    for (size_t i = 0; i < tri.size(); i++) { Shape a = s; a.grams.insert(tri[i]); out.push_back(a); if (maxtri > 1) for (size_t j = i + 1; j < tri.size(); j++) { Shape b = a; b.grams.insert(tri[j]); out.push_back(b); } }
    if (tri.size() > 1) { Shape a = s; a.grams.insert(tri.begin(), tri.end()); out.push_back(a); if (tri.size() > 2) for (size_t i = 0; i < tri.size(); i++) { Shape b = a; b.grams.erase(tri[i]); out.push_back(b); } }
  }
}
// all prefix-closed trees below the given roots over a two-word alphabet, to the given depth
static inline void trees(const Words &node, const Words &al, int depth, std::vector<std::set<Words>> &out) { // all subtrees (without node itself)
  out.assign(1, {}); if ((int)node.size() >= depth) return;
  for (auto &w : al) {
    Words ch = node; ch.push_back(w); std::vector<std::set<Words>> sub; trees(ch, al, depth, sub);
    std::vector<std::set<Words>> nx;
    for (auto &a : out) { nx.push_back(a); for (auto &b : sub) { std::set<Words> u = a; u.insert(ch); u.insert(b.begin(), b.end()); nx.push_back(u); } }
    out.swap(nx);
  }
}
static inline void shapes_tree(std::vector<Shape> &out, const Words &vocab, const Words &roots, const Words &al, int depth) {
  std::vector<std::set<Words>> all(1);
  for (auto &r : roots) { std::vector<std::set<Words>> sub, nx; trees(Words(1, r), al, depth, sub); for (auto &a : all) for (auto &b : sub) { auto u = a; u.insert(b.begin(), b.end()); nx.push_back(u); } all.swap(nx); }
  for (auto &g : all) { Shape s; s.vocab = vocab; s.grams = g; s.order = 1; for (auto &x : g) s.order = std::max<int>(s.order, x.size()); out.push_back(s); }
}
// a wide node: context "c" (and "d c" with deep) has k successors, chosen as the first, the last or every other word; longer chains below
static inline Shape wide_shape(unsigned V, unsigned k, int sel, bool deep) {
  Shape s; s.vocab = {"<UNK>", "c", "d"}; for (unsigned i = 3; i < V; i++) s.vocab.push_back("w" + std::to_string(i)); s.order = deep ? 3 : 2;
  for (unsigned i = 0; i < k; i++) { unsigned w = sel == 0 ? i : sel == 1 ? V - 1 - i : i * 2 + 1; if (w >= V) break; s.grams.insert({"c", s.vocab[w]}); if (deep) s.grams.insert({"d", "c", s.vocab[w]}); }
  s.grams.insert({"d", "c"}); s.grams.insert({s.vocab.back(), "c"}); return s;
}
// chains: n-grams of one long history and of its ends
static inline Shape chain_shape(int order, unsigned mask) {
  static const Words al = {"a", "b", "<UNK>"}; Shape s; s.vocab = {"<UNK>", "a", "b"}; s.order = 1; Words h; for (int i = 0; i < order; i++) h.push_back(al[(i * (mask & 1 ? 2 : 1) + (mask >> 1)) % ((mask & 8) ? 2 : 3)]);
  for (int n = 2; n <= order; n++) for (int f = 0; f + n <= order; f += (mask & 16) ? 1 : order) { Words g(h.begin() + f, h.begin() + f + n); for (int m = 2; m <= n; m++) s.grams.insert(Words(g.begin(), g.begin() + m)); s.order = n; }
  return s;
}
// all n-grams of an arithmetic text of len words over V words, numbered from first on: large components that overlap
static inline Shape text_shape(unsigned V, unsigned first, unsigned len, int order, unsigned a, bool clear = false) {
  Shape s; s.vocab = {"<UNK>"}; for (unsigned i = 0; i < V; i++) s.vocab.push_back("w" + std::to_string(first + i)); s.order = 1; Words w;
  for (unsigned j = 0; j < len; j++) { uint64_t x = ((uint64_t)j * j * a / (2 + a) + j / 5) % (V + 1); w.push_back(s.vocab[x]); for (int n = 2; n <= order && n <= (int)w.size(); n++) { Words g(w.end() - n, w.end()); bool in = true; for (int m = 2; m < n; m++) in = in && s.grams.count(Words(g.begin(), g.begin() + m)); if (in) { s.grams.insert(g); s.order = std::max(s.order, n); } } }
  return s;
}
static inline std::string show_shape(const Shape &s) { std::string r = "vocab {" + vk::join(s.vocab) + "}"; for (auto &g : s.grams) r += " [" + vk::join(g) + "]"; return r; }
} // namespace lmgen
