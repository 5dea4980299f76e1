// C04: cutoffs and pruning of the fixed-order trainer.  C03: growing (and pruning) of the variable-order trainer.
// The trainers' exported counts (-W) give the kept n-grams; a reference that knows only the documented rules decides
// whether some processing order explains them, and what counts, masses and probabilities must then be.
#include "train.hh"
using ref::Bo; using ref::KN;

struct Export { // parsed -W file
  std::vector<std::map<Words, long>> c; std::vector<std::map<Words, Bo>> b; std::string err;
};
static Export read_export(const std::string &cnt, const Words &vocab, bool three) {
  Export e; std::istringstream is(cnt); std::string l; int n = 0; bool bo = false;
  auto words = [&](const std::vector<std::string> &f, size_t &i, Words &w) {
    if (f.empty() || f[0] != "[") return false;
    for (i = 1; i < f.size() && f[i] != "]"; i++) { size_t k = strtoul(f[i].c_str(), nullptr, 10); if (k >= vocab.size()) return false; w.push_back(vocab[k]); }
    return i++ < f.size();
  };
  if (!std::getline(is, l) || l.compare(0, 11, "\\vocabsize ")) { e.err = "no vocabulary size"; return e; }
  e.c.resize(2); e.b.resize(2);
  while (std::getline(is, l)) {
    auto f = split_ws(l);
    if (f.empty()) continue;
    if (l[0] == '\\') {
      n = atoi(l.c_str() + 1); bo = l.find("backoffs") != std::string::npos;
      if (n < 1 || n > 20) { e.err = l; return e; }
      if ((int)e.c.size() <= n) { e.c.resize(n + 1); e.b.resize(n + 1); }
      continue;
    }
    Words w; size_t i;
    if (!words(f, i, w)) { e.err = l; return e; }
    if (!bo) { if ((int)w.size() != n || f.size() != i + 1 || e.c[n].count(w)) { e.err = "bad or repeated line: " + l; return e; } e.c[n][w] = atol(f[i].c_str()); continue; }
    Bo x; size_t k = three ? 3 : 1;
    if ((int)w.size() != n - 1 || f.size() != i + k + 2 || e.b[n].count(w)) { e.err = "bad or repeated line: " + l; return e; }
    for (size_t j = 0; j < k; j++) x.nz[j] = atol(f[i + j].c_str());
    x.den = atol(f[i + k].c_str()); x.prune_den = atol(f[i + k + 1].c_str());
    e.b[n][w] = x;
  }
  return e;
}

// ---------------------------------------------------------------- the pruning rules
struct Rules {
  std::vector<int> cutoffs; double thr = 0; bool discard = false, discard_unk = false, recorrect = true;
  const std::vector<std::map<Words, long>> *occ = nullptr; // weigh by text occurrences
  long cutoff(int o) const { return cutoffs.empty() ? 0 : o > (int)cutoffs.size() ? cutoffs.back() : cutoffs[o - 1]; }
};
static double slog(double p) { return p < 1e-10 ? -10 : log10(p); }
static bool has_unk(const KN &k, const Words &g) { for (auto &w : g) if (w == k.o.unk) return true; return false; }
static void take_out(KN &k, const Words &g, bool recorrect) {
  int o = g.size(); long num = k.c[o][g]; k.c[o].erase(g);
  Words ctx(g.begin(), g.end() - 1), low(g.begin() + 1, g.end());
  Bo &x = k.b[o][ctx];
  x.prune_den += num; x.nz[k.cls(num)]--;
  if (x.prune_den == x.den) x.den = x.prune_den = 0;
  if (!recorrect || num == 1) return;
  auto it = k.c[o - 1].find(low);
  if (it == k.c[o - 1].end() || it->second == 0) return;
  Bo &y = k.b[o - 1][Words(low.begin(), low.end() - 1)];
  y.den += num - 1; y.nz[k.cls(it->second)]--; it->second += num - 1; y.nz[k.cls(it->second)]++;
}
// state after removing the set, starting from k, all within one order
struct Explainer {
  const KN &start; const Rules &r; int o; std::vector<Words> R, K; std::vector<long> num0;
  std::map<unsigned, KN> memo;
  Explainer(const KN &s, const Rules &r, int o) : start(s), r(r), o(o) {}
  bool forced(const Words &g, long num, bool &rec) const {
    rec = r.recorrect;
    if (num <= r.cutoff(o)) { if (r.discard) rec = false; return true; }
    return r.discard_unk && has_unk(start, g);
  }
  const KN &at(unsigned S) {
    auto it = memo.find(S); if (it != memo.end()) return it->second;
    KN k = start;
    for (size_t i = 0; i < R.size(); i++) if (S >> i & 1) { bool rec; forced(R[i], start.cnt(R[i]), rec); take_out(k, R[i], rec); }
    return memo.emplace(S, std::move(k)).first->second;
  }
  double delta(unsigned S, const Words &g, double &eps) {
    const KN &k = at(S); double p = slog(k.prob(g)); KN k2 = k; take_out(k2, g, r.recorrect);
    double m = k.cnt(g); if (r.occ) { auto it = (*r.occ)[o].find(g); m = it == (*r.occ)[o].end() ? 0 : it->second; }
    eps = 2e-5 * (1 + m); return m * (p - slog(k2.prob(g)));
  }
};
// Only what the probabilities of these n-grams depend on.
static KN slice(const KN &k, const std::vector<Words> &gs) {
  KN s; s.o = k.o; s.order = k.order; s.vocab = k.vocab; s.vset = k.vset; s.D = k.D; s.c.resize(k.c.size()); s.b.resize(k.b.size());
  for (auto &g : gs) for (size_t i = 0; i < g.size(); i++) {
    Words w(g.begin() + i, g.end()), h(w.begin(), w.end() - 1);
    if (w.size() >= k.c.size()) continue;
    auto c = k.c[w.size()].find(w); if (c != k.c[w.size()].end()) s.c[w.size()].insert(*c);
    auto b = k.b[w.size()].find(h); if (b != k.b[w.size()].end()) s.b[w.size()].insert(*b);
  }
  return s;
}
// Is there an order of removing e.R for which every removal is due and every kept n-gram may be kept?
static std::string explain_set(Explainer &e, const std::vector<char> &fo) {
  const Rules &r = e.r; size_t n = e.R.size(); double eps;
  unsigned full = (1u << n) - 1;
  std::vector<char> reach(full + 1, 0), back(full + 1, 0); reach[0] = 1; back[full] = 1;
  std::vector<std::vector<char>> ok(full + 1, std::vector<char>(n, 0));
  for (unsigned S = 0; S <= full; S++) if (reach[S])
    for (size_t i = 0; i < n; i++) if (!(S >> i & 1)) {
      ok[S][i] = fo[i] || e.delta(S, e.R[i], eps) <= r.thr + eps;
      if (ok[S][i]) reach[S | 1u << i] = 1;
    }
  if (!reach[full]) {
    std::string s; for (size_t i = 0; i < n; i++) s += strf(" [%s]%s", join(e.R[i]).c_str(), fo[i] ? "" : strf(":%.6g", e.delta(0, e.R[i], eps)).c_str());
    return strf("no processing order removes exactly these n-grams of order %d (cost of removal first):%s; threshold %.6g", e.o, s.c_str(), r.thr);
  }
  for (unsigned S = full; ; S--) {
    for (size_t i = 0; i < n && !back[S]; i++) if (!(S >> i & 1) && ok[S][i] && back[S | 1u << i] && reach[S]) back[S] = 1;
    if (!S) break;
  }
  for (auto &g : e.K) {
    bool good = false;
    for (unsigned S = 0; S <= full && !good; S++) if (reach[S] && back[S]) good = e.delta(S, g, eps) > r.thr - eps;
    if (!good) { unsigned S = full; double d = e.delta(S, g, eps); return strf("n-gram [%s] was kept although removing it costs only %.6g (threshold %.6g)", join(g).c_str(), d, r.thr); }
  }
  return "";
}
// Empty string if the kept set of order o is explained; k becomes the state after this order.
static std::string explain_order(KN &k, const Rules &r, int o, const std::map<Words, long> &kept, bool &skipped) {
  Explainer e(k, r, o); std::vector<char> fo;
  for (auto &g : k.c[o]) {
    if (g.second <= 0) continue;
    bool rec, f = e.forced(g.first, g.second, rec), in = kept.count(g.first);
    if (f && in) return strf("n-gram [%s] with count %ld was kept, cutoff %ld%s", join(g.first).c_str(), g.second, r.cutoff(o), r.discard_unk ? ", unknown words discarded" : "");
    if (in) e.K.push_back(g.first); else { e.R.push_back(g.first); fo.push_back(f); }
  }
  for (auto &g : kept) if (!k.c[o].count(g.first)) return strf("n-gram [%s] is not one of the unpruned model", join(g.first).c_str());
  if (e.R.size() <= 10) { std::string s = explain_set(e, fo); if (s.empty()) k = e.at((1u << e.R.size()) - 1); return s; }
  // Too many orders of removal to take together.  Removing an n-gram touches only n-grams that share its context but
  // the first word: decide every such class by itself, where it is small enough; forced removals were judged above.
  std::map<Words, std::vector<Words>> all;
  auto cls = [](const Words &g) { return Words(g.begin() + 1, g.end() - 1); };
  for (auto &g : e.R) all[cls(g)].push_back(g);
  for (auto &g : e.K) all[cls(g)].push_back(g);
  std::map<Words, int> removed; for (auto &g : e.R) removed[cls(g)]++;
  for (auto &x : all) {
    if (removed[x.first] > 6) { for (size_t i = 0; i < e.R.size(); i++) if (!fo[i] && cls(e.R[i]) == x.first) { skipped = true; break; } continue; }
    KN sl = slice(k, x.second); Explainer e2(sl, r, o); std::vector<char> f2;
    for (size_t i = 0; i < e.R.size(); i++) if (cls(e.R[i]) == x.first) { e2.R.push_back(e.R[i]); f2.push_back(fo[i]); }
    for (auto &g : e.K) if (cls(g) == x.first) e2.K.push_back(g);
    std::string s = explain_set(e2, f2); if (!s.empty()) return s;
  }
  KN k2 = k; for (size_t i = 0; i < e.R.size(); i++) { bool rec; e.forced(e.R[i], k.cnt(e.R[i]), rec); take_out(k2, e.R[i], rec); }
  k = k2; return "";
}
// Explain the whole export.  skipped: could not be judged.
static std::string explain(KN &k, const Rules &r, const Export &ex, bool &skipped) {
  std::map<Words, long> none;
  for (int o = k.order; o >= 2; o--) {
    std::string s = explain_order(k, r, o, o < (int)ex.c.size() ? ex.c[o] : none, skipped);
    if (!s.empty()) return s;
  }
  for (size_t o = k.order + 1; o < ex.c.size(); o++) if (!ex.c[o].empty()) return strf("kept n-grams of order %zu", o);
  return "";
}
static std::string same_counts(const KN &k, const Export &ex) {
  for (int o = 1; o <= k.order; o++) {
    std::map<Words, long> want; for (auto &g : k.c[o]) if (g.second) want.insert(g);
    std::map<Words, long> got; if (o < (int)ex.c.size()) got = ex.c[o];
    if (want != got) {
      for (auto &g : want) if (!got.count(g.first) || got[g.first] != g.second) return strf("count of [%s] is %ld, expected %ld", join(g.first).c_str(), got.count(g.first) ? got[g.first] : 0, g.second);
      for (auto &g : got) if (!want.count(g.first)) return strf("count of [%s] is %ld, expected 0", join(g.first).c_str(), g.second);
    }
    std::map<Words, Bo> wb, gb; for (auto &g : k.b[o]) if (g.second.den) wb.insert(g);
    if (o < (int)ex.b.size()) gb = ex.b[o];
    for (auto it = gb.begin(); it != gb.end();) if (!it->second.den) it = gb.erase(it); else ++it;
    for (auto &g : wb) { Bo x = gb.count(g.first) ? gb[g.first] : Bo(), &y = g.second; gb.erase(g.first);
      if (x.den != y.den || x.prune_den != y.prune_den || x.nz[0] != y.nz[0] || x.nz[1] != y.nz[1] || x.nz[2] != y.nz[2])
        return strf("context [%s] (order %d): denominator %ld, pruned %ld, types %ld,%ld,%ld; expected %ld, %ld, %ld,%ld,%ld", join(g.first).c_str(), o, x.den, x.prune_den, x.nz[0], x.nz[1], x.nz[2], y.den, y.prune_den, y.nz[0], y.nz[1], y.nz[2]); }
    if (!gb.empty()) return strf("context [%s] (order %d) has denominator %ld, expected none", join(gb.begin()->first).c_str(), o, gb.begin()->second.den);
  }
  return "";
}
// The written model is the KN model of the final counts.
static bool check_model(Ctx &c, const KN &k, const Model &m) {
  std::set<std::string> vs(m.vocab.begin(), m.vocab.end());
  if (vs != k.vset) { c.fail("vocab", "model vocabulary {%s}, expected {%s}", join(m.vocab).c_str(), join(k.vocab).c_str()); return false; }
  std::set<Words> must, may;
  for (int o = 2; o <= k.order; o++) for (auto &g : k.c[o]) if (g.second) { must.insert(g.first); for (Words p = g.first; !p.empty(); p.pop_back()) may.insert(p); }
  // prefixes carrying back-off mass of a pruned context are written too
  for (int o = 2; o <= k.order; o++) for (auto &b : k.b[o]) if (b.second.den) for (Words p = b.first; !p.empty(); p.pop_back()) may.insert(p);
  for (auto &g : must) if (!m.g.count(g)) { c.fail("missing", "n-gram [%s] has a count but is not in the model", join(g).c_str()); return false; }
  for (auto &g : m.g) if (g.first.size() > 1 && !may.count(g.first)) { c.fail("extra", "n-gram [%s] is in the model without a count", join(g.first).c_str()); return false; }
  std::set<Words> cs; add_contexts(m, cs); for (int n = 1; n <= k.order; n++) for (auto &g : k.b[n]) cs.insert(g.first);
  uint64_t q = 0;
  for (auto &ctx : cs) { Words w = ctx; w.push_back("");
    for (auto &x : k.vocab) { w.back() = x; double p = m.prob(w), e = k.prob(w); q++;
      double pp = p;
      if (fabs(pp - e) > 2e-6 + 3e-5 * e) { c.queries(q); c.fail("prob", "P(%s | %s) is %.8g, the model of the kept n-grams gives %.8g", x.c_str(), join(ctx).c_str(), pp, e); return false; } } }
  c.queries(q); return true;
}
static bool get_vocab(Ctx &c, Words &v, const std::string &unk) {
  v.assign(1, unk); for (auto &w : split_ws(read_file(path("voc")))) v.push_back(w);
  (void)c; return true;
}

// ---------------------------------------------------------------- C04
struct PConf { Conf k; Rules r; bool real = false; double p = 0; };
static void c04_case(Ctx &c, const Words &text, const PConf &pc) {
  if (pc.k.ref.clear && all_s(text)) { c.trivial(); return; }
  write_file(path("text"), text_of(text));
  Conf k = pc.k; k.opts.insert(k.opts.end(), {"-W", path("cnt"), "-U", path("voc")});
  Model m; if (!train(c, k, path("text"), m)) return;
  Words voc; get_vocab(c, voc, "<UNK>");
  Export ex = read_export(read_file(path("cnt")), voc, pc.k.ref.three);
  if (!ex.err.empty()) { c.fail("export", "counts file not well formed: %s", ex.err.c_str()); return; }
  KN r; r.read(text, pc.k.ref);
  auto occ = r.c; { // text occurrences of every n-gram
    Words win; std::vector<std::map<Words, long>> o2(r.order + 1);
    for (auto &t : text) { if (pc.k.ref.clear && t == "<s>") win.clear(); win.push_back(t); for (int n = 1; n <= r.order && n <= (int)win.size(); n++) o2[n][Words(win.end() - n, win.end())]++; }
    occ = o2; }
  r.type_counts();
  r.recount_bo(); r.init_disc(); for (int n = 1; n <= r.order; n++) r.loo(n);
  Rules rr = pc.r; rr.thr = pc.p * (log2((double)r.vocab.size()) + 20); if (pc.real) rr.occ = &occ; rr.recorrect = !pc.k.ref.absolute;
  size_t before = 0, after = 0; for (int o = 2; o <= r.order; o++) before += r.c[o].size();
  bool skipped = false;
  std::string s = explain(r, rr, ex, skipped);
  if (!s.empty()) { c.fail("kept-set", "%s", s.c_str()); return; }
  for (int o = 2; o <= r.order; o++) after += r.c[o].size();
  if (before == after) c.trivial();
  s = same_counts(r, ex);
  if (!s.empty()) { c.fail("counts", "%s", s.c_str()); return; }
  if (!check_model(c, r, m)) return;
  c.outcome(r.hash()); if (!skipped) c.validated(1);
}
static std::vector<PConf> c04_confs(std::vector<int> orders, bool clear, std::vector<int> smooth, std::vector<std::string> rules) {
  std::vector<PConf> v;
  for (auto &base : kn_confs(orders, clear, "a", smooth)) for (auto &s : rules) {
    PConf p; p.k = base;
    auto f = split_ws(s);
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] == "-O") { std::string a = f[++i]; std::replace(a.begin(), a.end(), ',', ' '); p.k.opts.push_back("-O"); p.k.opts.push_back(a); for (auto &x : split_ws(a)) p.r.cutoffs.push_back(atoi(x.c_str())); continue; }
      p.k.opts.push_back(f[i]);
      if (f[i] == "-p") { p.p = (float)atof(f[i + 1].c_str()); p.k.opts.push_back(f[++i]); }
      if (f[i] == "-D") p.r.discard = true;
      if (f[i] == "-N") p.r.discard_unk = true;
      if (f[i] == "-r") p.real = true;
    }
    v.push_back(p);
  }
  return v;
}
template <class P, class F> static Family pfam(const std::string &name, const TextSpace &t, const std::vector<P> &confs, F f) {
  Family x; x.name = name; unsigned nc = confs.size(); x.n = t.n * nc; auto at = t.at;
  x.run = [=](uint64_t i, Ctx &c) { f(c, at(i / nc), confs[i % nc]); };
  x.desc = [=](uint64_t i) { return confs[i % nc].k.str() + " text=[" + join(at(i / nc)) + "]"; };
  return x;
}

// ---------------------------------------------------------------- C03
struct VConf { Conf k; Rules r; double D = 1e-5, E = 0, F = -1; bool small = false; int n = 0; };
static double flog2(double x) { return x > 0 ? x * log2(x) : 0; }
struct Grow {
  const Words &text; const VConf &v; std::vector<std::map<Words, long>> occ;
  std::map<Words, std::map<std::string, long>> next; // text continuations of every context
  double scale; KN base; int maxn;
  struct Outcome { KN k; };
  std::vector<KN> outs; std::set<uint64_t> seen; bool exhaustive = false, too_big = false; long budget = 0;
  Grow(const Words &t, const VConf &vc) : text(t), v(vc) {
    ref::TrainOpt o = vc.k.ref; o.order = 1; base.read(text, o); base.o = vc.k.ref;
    base.recount_bo(); base.init_disc(); scale = log2((double)base.vocab.size()) + 20;
    maxn = vc.n ? vc.n : 1 << 20;
    Words win; occ.resize(text.size() + 2);
    for (auto &w : text) {
      if (o.clear && w == "<s>") win.clear();
      win.push_back(w);
      for (size_t n = 1; n <= win.size() && (n <= (size_t)maxn || n < 3); n++) { Words g(win.end() - n, win.end()); occ[n][g]++; if (n > 1) { std::string x = g.back(); g.pop_back(); next[g][x]++; } }
    }
  }
  long size(const KN &k) const { long s = 0; for (int n = 1; n <= k.order; n++) s += k.c[n].size(); return s; }
  static void grow_order(KN &k, int n) { if (k.order >= n) return; k.order = n; k.c.resize(n + 1); k.b.resize(n + 1); while ((int)k.D.size() <= n) k.D.push_back(k.D.back()); }
  // accept history h: returns the new state
  KN accept(const KN &k, const Words &h) const {
    KN r = k; int o = h.size() + 1; grow_order(r, o);
    Bo &x = r.b[o][h];
    for (auto &w : next.at(h)) {
      Words g = h; g.push_back(w.first); r.c[o][g] = w.second; x.den += w.second; x.nz[r.cls(w.second)]++;
      if (v.k.ref.absolute || w.second == 1) continue;
      Words low(g.begin() + 1, g.end()); auto it = r.c[o - 1].find(low);
      if (it == r.c[o - 1].end() || it->second == 0) continue;
      Bo &y = r.b[o - 1][Words(low.begin(), low.end() - 1)];
      y.den -= w.second - 1; y.nz[r.cls(it->second)]--; it->second -= w.second - 1; y.nz[r.cls(it->second)]++;
    }
    return r;
  }
  // the same, in place
  void put(KN &r, const Words &h) const {
    int o = h.size() + 1; grow_order(r, o);
    Bo &x = r.b[o][h];
    for (auto &w : next.at(h)) {
      Words g = h; g.push_back(w.first); r.c[o][g] = w.second; x.den += w.second; x.nz[r.cls(w.second)]++;
      if (v.k.ref.absolute || w.second == 1) continue;
      Words low(g.begin() + 1, g.end()); auto it = r.c[o - 1].find(low);
      if (it == r.c[o - 1].end() || it->second == 0) continue;
      Bo &y = r.b[o - 1][Words(low.begin(), low.end() - 1)];
      y.den -= w.second - 1; y.nz[r.cls(it->second)]--; it->second -= w.second - 1; y.nz[r.cls(it->second)]++;
    }
  }
  std::vector<Words> grams(const Words &h) const { std::vector<Words> r; for (auto &w : next.at(h)) { r.push_back(h); r.back().push_back(w.first); } return r; }
  // One state by visiting the contexts in storage order (by the rule; choice decides what rounding leaves open), or
  // by accepting exactly the contexts of choice.
  void walk(const std::set<Words> &choice, bool rule) {
    std::map<std::string, int> id; for (auto &w : base.vocab) id.emplace(w, id.size());
    auto before = [&](const Words &a, const Words &b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [&](const std::string &x, const std::string &y) { return id[x] < id[y]; }); };
    KN k = base; long s = size(k), all = 0; // entries without a count may be counted as n-grams
    for (int n = 1; n < maxn && n <= k.order; n++) {
      std::vector<Words> H;
      if (n == 1) { for (auto &w : base.vocab) if (occ[1].count({w})) H.push_back({w}); }
      else for (auto &g : k.c[n]) if (g.second) H.push_back(g.first);
      if (H.empty()) break;
      std::sort(H.begin(), H.end(), before);
      all = 0; for (int j = 1; j <= n + 1; j++) all += occ[j].size();
      for (auto &h : H) if (next.count(h)) {
        bool take = choice.count(h);
        if (rule) {
          KN sl = slice(k, grams(h)), a = sl; if (a.order < k.order) a.order = k.order; put(a, h);
          double lo, hi; cost(sl, h, a, lo, hi, s, std::max(s, all));
          if (hi < 0) take = true; else if (lo >= 0) take = false;
        }
        if (take) { put(k, h); s += next.at(h).size(); }
      }
      k.loo(n);
    }
    outs_add(k, 0);
  }
  // change of code length when h is accepted: lower and upper bound
  void cost(const KN &k, const Words &h, const KN &a, double &lo, double &hi) const {
    long s = size(k), g = 0; // entries without a count may be counted as n-grams
    for (int n = 1; n <= k.order; n++) g += occ[n].size();
    cost(k, h, a, lo, hi, s, std::max(s, g));
  }
  void cost(const KN &k, const Words &h, const KN &a, double &lo, double &hi, long s, long s2) const {
    double d = 0, abs = 1;
    for (auto &w : next.at(h)) { Words g = h; g.push_back(w.first); double p0 = slog(k.prob(g)), p1 = slog(a.prob(g)); d += w.second * (p0 - p1); abs += w.second * (fabs(p0) + fabs(p1)); }
    double m = next.at(h).size();
    double eps = 3e-6 * abs + 1e-6;
    lo = d + v.D * (m * scale + flog2(s + m) - flog2(s)) - eps;
    hi = d + v.D * (m * scale + flog2(s2 + m) - flog2(s2)) + eps;
  }
  // all states reachable by visiting the histories of length n in any order (or in the given order only)
  void run(const KN &k, int n) {
    if (n >= maxn || n > k.order) { outs_add(k, n - 1); return; }
    std::vector<Words> H;
    if (n == 1) { std::set<Words> u; for (auto &g : occ[1]) u.insert(g.first); for (auto &w : base.vocab) if (u.count({w})) H.push_back({w}); }
    else for (auto &g : k.c[n]) if (g.second) H.push_back(g.first);
    if (H.empty()) { outs_add(k, n - 1); return; }
    std::vector<Words> H2; for (auto &h : H) if (next.count(h)) H2.push_back(h);
    if (H2.size() > 12) { too_big = true; return; }
    std::map<unsigned, KN> states; states.emplace(0u, k);
    std::map<std::pair<unsigned, unsigned>, int> dec; // (accepted set, history) -> bit0 may accept, bit1 may reject
    std::set<std::pair<unsigned, unsigned>> done; std::vector<std::pair<unsigned, unsigned>> todo{{0u, 0u}}; // visited, accepted
    std::set<unsigned> fin; unsigned full = (1u << H2.size()) - 1;
    while (!todo.empty()) {
      auto [V, A] = todo.back(); todo.pop_back();
      if (V == full) { fin.insert(A); continue; }
      for (unsigned i = 0; i < H2.size(); i++) if (!(V >> i & 1)) {
        if (!exhaustive) { // the order in which n-grams were first stored
          unsigned j = 0; while (V >> j & 1) j++;
          if (i != j) continue;
        }
        auto &d = dec[{A, i}];
        if (!d) {
          KN a = accept(states.at(A), H2[i]); double lo, hi; cost(states.at(A), H2[i], a, lo, hi);
          if (lo < 0) { d |= 1; states.emplace(A | 1u << i, std::move(a)); }
          if (hi >= 0) d |= 2;
          if (++budget > 20000) { too_big = true; return; }
        }
        unsigned V2 = V | 1u << i;
        if (d & 1) { auto s = std::make_pair(V2, A | 1u << i); if (done.insert(s).second) { states.count(s.second) || (states.emplace(s.second, accept(states.at(A), H2[i])), true); todo.push_back(s); } }
        if (d & 2) { auto s = std::make_pair(V2, A); if (done.insert(s).second) todo.push_back(s); }
      }
    }
    for (unsigned A : fin) { KN s = states.at(A); s.loo(n); run(s, n + 1); if (too_big) return; }
  }
  void outs_add(const KN &k0, int) {
    KN k = k0;
    if (v.k.ref.clear) { // the sentence start gets no probability of its own
      auto it = k.c[1].find(Words{"<s>"});
      if (it != k.c[1].end()) { Bo &x = k.b[1][Words()]; x.den -= it->second; x.nz[k.cls(it->second)]--; k.c[1].erase(it); }
    }
    if (seen.insert(k.hash()).second) outs.push_back(k); }
};
static void c03_case(Ctx &c, const Words &text, const VConf &v) {
  if (text.empty() || (v.k.ref.clear && all_s(text))) { c.trivial(); return; }
  write_file(path("text"), text_of(text));
  Conf k = v.k; k.opts.insert(k.opts.end(), {"-W", path("cnt"), "-U", path("voc")});
  Model m; if (!train(c, k, path("text"), m)) return;
  Words voc; get_vocab(c, voc, "<UNK>");
  Export ex = read_export(read_file(path("cnt")), voc, v.k.ref.three);
  if (!ex.err.empty()) { c.fail("export", "counts file not well formed: %s", ex.err.c_str()); return; }
  size_t kept = 0; for (size_t o = 2; o < ex.c.size(); o++) kept += ex.c[o].size();
  if (!kept) c.trivial();
  Grow g(text, v);
  // facts about the kept n-grams that need no search
  for (size_t o = 2; o < ex.c.size(); o++) for (auto &e : ex.c[o]) {
    if (v.n && (int)o > v.n) { c.fail("too-long", "n-gram [%s] is longer than the limit %d", join(e.first).c_str(), v.n); return; }
    if (o >= g.occ.size() || !g.occ[o].count(e.first)) { c.fail("not-in-text", "n-gram [%s] does not occur in the text", join(e.first).c_str()); return; }
    if (v.r.discard_unk && has_unk(g.base, e.first)) { c.fail("unk", "n-gram [%s] contains the unknown word", join(e.first).c_str()); return; }
  }
  std::string first; bool skipped = false, large = text.size() > 100;
  std::set<Words> A; // contexts the kept n-grams show to have been accepted
  if (large) for (size_t o = 2; o < ex.c.size(); o++) for (auto &e : ex.c[o]) for (Words h(e.first.begin(), e.first.end() - 1); !h.empty() && A.insert(h).second; h.pop_back());
  for (int pass = 0; pass < 2; pass++) {
    g.exhaustive = pass; g.outs.clear(); g.seen.clear(); g.too_big = false; g.budget = 0;
    if (large) g.walk(A, !pass); else g.run(g.base, 1);
    if (g.too_big) { if (pass) break; else continue; }
    for (KN r : g.outs) {
      Rules rr = v.r; rr.thr = v.E * g.scale; rr.recorrect = !v.k.ref.absolute;
      auto occ = g.occ; if ((int)occ.size() <= r.order) occ.resize(r.order + 1);
      if (!v.small) rr.occ = &occ;
      bool sk = false;
      std::string s = explain(r, rr, ex, sk);
      if (s.empty()) s = same_counts(r, ex);
      if (s.empty()) {
        if (v.F >= 0) for (auto &d : r.D) d = {(float)v.F, (float)v.F, (float)v.F};
        Ctx c2;
        if (check_model(c2, r, m)) { c.outcome(r.hash()); if (large && pass) c.outcome("other order"); if (!sk) c.validated(1); return; }
        s = c2.msg;
      }
      if (first.empty()) first = s;
      skipped = skipped || sk;
    }
  }
  if (g.too_big) { c.outcome("undecided"); return; }
  c.fail("growth", "no processing order of the growing and pruning rules gives this model (storage order: %s)", first.c_str());
}
static std::vector<VConf> c03_confs(std::vector<std::string> opts, bool clear = false) {
  std::vector<VConf> r;
  for (auto &s : opts) {
    VConf v; v.k.tool = "varigram_kn"; v.k.fmt = "a"; v.k.opts = {"-H", "40"};
    auto f = split_ws(s); if (clear) f.push_back("-C");
    for (size_t i = 0; i < f.size(); i++) {
      const std::string &o = f[i];
      if (o == "-O") { std::string a = f[++i]; std::replace(a.begin(), a.end(), ',', ' '); v.k.opts.push_back("-O"); v.k.opts.push_back(a); for (auto &x : split_ws(a)) v.r.cutoffs.push_back(atoi(x.c_str())); continue; }
      v.k.opts.push_back(o);
      if (o == "-3") v.k.ref.three = true;
      if (o == "-A") v.k.ref.absolute = true;
      if (o == "-C") v.k.ref.clear = true;
      if (o == "-S") v.small = true;
      if (o == "-N") v.r.discard_unk = true;
      if (o == "-D") v.D = std::max(1e-5, atof(f[i + 1].c_str()));
      if (o == "-E") v.E = atof(f[i + 1].c_str());
      if (o == "-F") v.F = atof(f[i + 1].c_str());
      if (o == "-n") v.n = atoi(f[i + 1].c_str());
      if (o == "-D" || o == "-E" || o == "-F" || o == "-n") v.k.opts.push_back(f[++i]);
    }
    r.push_back(v);
  }
  return r;
}

static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  unsigned x = thorough ? 1 : 0;
  if (prop == "C04") {
    std::vector<std::string> all = {"-p 0.004", "-p 0.02", "-p 0.05", "-p 0.2", "-O 0,1", "-O 0,1,2", "-O 1", "-O 0,0,1", "-O 2,1", "-O 0,1 -D", "-O 2 -D", "-O 0,1 -p 0.02", "-O 0,0,1 -D -p 0.01", "-p 0.02 -r", "-O 0,1 -r", "-p 0.004 -O 0,0,1 -r"};
    d.families.push_back(pfam("rgs3", rgs_space("rgs3", 3, 1, 6 + x), c04_confs({2, 3}, false, {0, 1, 2, 3}, all), c04_case));
    d.families.push_back(pfam("rgs2-long", rgs_space("rgs2", 2, 7, 9 + x), c04_confs({2, 3, 4}, false, {0, 1}, {"-p 0.02", "-p 0.08", "-O 0,1", "-O 0,2,1", "-O 0,1,2,3 -D", "-p 0.05 -r", "-O 0,2 -p 0.02"}), c04_case));
    d.families.push_back(pfam("sent", seq_space("sent", {"a", "b", "<s>"}, 1, 5 + x), c04_confs({2, 3}, true, {0, 1, 2, 3}, {"-p 0.02", "-O 0,1", "-O 0,1 -D", "-p 0.02 -r", "-O 0,0,1 -p 0.01"}), c04_case));
    d.families.push_back(pfam("unk", seq_space("unk", {"a", "b", "<UNK>"}, 1, 5 + x), c04_confs({2, 3}, false, {0, 1, 2, 3}, {"-N", "-N -p 0.02", "-N -O 0,1", "-N -O 0,1 -D", "-N -r"}), c04_case));
    d.families.push_back(pfam("wide", arith_space("arith", 5, {11, 16}), c04_confs({2, 3}, false, {0, 1, 2, 3}, {"-p 0.02", "-p 0.06", "-O 0,1", "-O 0,1,2 -D", "-p 0.02 -r"}), c04_case));
    { std::vector<PConf> q = c04_confs({2, 3, 4}, false, {0, 1, 2, 3}, {"-O 0,1", "-O 0,1,2 -D", "-O 0,2,1", "-O 1,2", "-O 0,1 -r", "-p 0.001", "-p 0.01 -r", "-p 0.003 -O 0,0,1 -D"}), qs; for (size_t i = 0; i < q.size(); i += x ? 1 : 3) qs.push_back(q[i]);
      Family f = pfam("quad61", quad_space("w61", 61, {300, x ? 4000u : 1500u}), qs, c04_case); f.timeout_s = 600; d.families.push_back(f); }
    d.rule = "Every text of the stated spaces is trained with every listed combination of pruning options; the exported counts, back-off data and model are compared with a reference: all removal orders (subset reachability) within an order of n-grams are considered, "
             "counts and masses must be exactly those the rules give for the removed set, and every probability that of the KN model of the kept counts.  Non-trivial: at least one n-gram was removed.";
    d.bounds = "texts up to 6 words over 3, 9 over 2 words (thorough one more), orders 2-4, arithmetic texts of 11 and 16 words over 5, of 300 and 1500 (thorough 4000) words over 61; removal orders up to 10 removed n-grams per order";
    d.assumptions = {"decisions closer to the threshold than 2e-5 per count may go either way", "the processing order within one n-gram order is free", "the counts export (-W) is written correctly (C13)"};
    return true;
  }
  if (prop == "C03") {
    std::vector<std::string> all;
    for (auto s : {"", "-3", "-A", "-3 -A"}) for (auto o : {"", "-n 3", "-n 2", "-D 0.003", "-D 0.01", "-D 0.03", "-E 0.01", "-E 0.04", "-D 0.005 -E 0.02", "-S", "-S -E 0.01", "-O 0,1", "-F 0.4", "-O 0,1 -F 0.4", "-E 0.02 -F 0.8", "-S -F 0.1", "-S -O 0,1", "-O 0,1 -E 0.02"}) all.push_back(std::string(s) + " " + o);
    d.families.push_back(pfam("rgs3", rgs_space("rgs3", 3, 1, 7 + x), c03_confs(all), c03_case));
    d.families.push_back(pfam("rgs2-long", rgs_space("rgs2", 2, 8, 10 + 2 * x), c03_confs({"", "-3", "-n 3 -D 0.01", "-3 -n 4 -D 0.003", "-n 3 -E 0.02", "-3 -n 3 -E 0.05", "-S -n 3 -D 0.02"}), c03_case));
    d.families.push_back(pfam("sent", seq_space("sent", {"a", "b", "<s>"}, 1, 6 + x), c03_confs({"", "-3", "-A", "-n 3 -D 0.01", "-3 -E 0.01", "-S", "-3 -S -D 0.003", "-O 0,1"}, true), c03_case));
    d.families.push_back(pfam("unk", seq_space("unk", {"a", "b", "<UNK>"}, 1, 6 + x), c03_confs({"-N", "-3 -N", "-N -S", "-N -n 2 -D 0.01", "-3 -N -E 0.01", "-N -O 0,1 -F 0.6", "-3 -N -F 0.3"}), c03_case));
    d.families.push_back(pfam("wide", arith_space("arith", 5 + 2 * x, {11, 16, 23}), c03_confs({"-n 3", "-3 -n 3", "-n 3 -D 0.01", "-3 -n 3 -D 0.003", "-n 2 -E 0.02", "-3 -n 2 -S"}), c03_case));
    { std::vector<VConf> q = c03_confs({"-n 3", "-3 -n 3", "-n 3 -D 0.01", "-3 -n 4 -D 0.001", "-n 3 -A", "-3 -A -n 4 -D 0.003", "-3 -n 3 -S", "-n 4 -E 0.003", "-3 -n 3 -O 0,1", "-n 5 -F 0.4"});
      Family f = pfam("quad61", quad_space("w61", 61, {150, 300, x ? 3000u : 1000u}), q, c03_case); f.timeout_s = 600; d.families.push_back(f); }
    d.rule = "Every text of the stated spaces is trained by the variable-order trainer under every listed option set; a reference enumerates all orders of visiting the contexts of one length, decides acceptance by the code-length rule, then all removal orders of the final pruning, "
             "and the exported counts, masses and the model must be one of the results.  Non-trivial: some n-gram of order two or more was kept.";
    d.bounds = "texts up to 7 words over 3, 10 over 2 words (thorough one and two more), unlimited or limited order, arithmetic texts of 11, 16 and 23 words over 5 (thorough 7), of 150, 300 and 1000 (thorough 3000) words over 61";
    d.assumptions = {"decisions closer to the bound than float rounding may go either way", "bookkeeping entries without a count may be included in the model size the cost function uses", "searches beyond 20000 evaluations are left undecided (counted as outcome 'undecided')"};
    return true;
  }
  return false;
}
int main(int argc, char **argv) { vk::load_tools({"counts2kn", "varigram_kn"}); return mc::run_main(argc, argv, build); }
