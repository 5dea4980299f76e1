// C07 C22: the tree and hash representations of a model; traversal and look-ahead.
#include "lmgen.hh"
#include "TreeGram.hh"
#include "HashGram.hh"
#include "ArpaReader.hh"
#include "TreeGramArpaReader.hh"
using namespace mc; using namespace vk; using namespace lmgen;
typedef std::shared_ptr<std::vector<Shape>> Shapes;
static const Kind K[] = {BO_NEG, BO_POS, INTERP, INTERP_BK};
static Model mk(const Shape &s, Kind k) { bool z = std::find(s.vocab.begin(), s.vocab.end(), "<s>") != s.vocab.end(); return make(s, k, z ? "<s>" : ""); }
template <class T> static void load(T &t, const std::string &A) { FILE *f = fmemopen((void *)A.data(), A.size(), "r"); t.read(f, false); fclose(f); }
// every word after every context up to one word longer than the order
static bool compare(Ctx &c, const char *rep, NGram &t, const Model &M, const std::string &lay, uint64_t &q) {
  if (t.num_words() != (int)M.vocab.size() + !M.vset.count("<UNK>")) { c.fail("vocab", "%s (%s): %d words, expected %zu", rep, lay.c_str(), t.num_words(), M.vocab.size()); return false; }
  for (auto &w : M.vocab) if (w != t.word(t.word_index(w)) || (w != "<UNK>" && t.word_index(w) == 0)) { c.fail("vocab", "%s (%s): word %s not found", rep, lay.c_str(), w.c_str()); return false; }
  bool good = true; Words voc = M.vocab; if (!M.vset.count("<UNK>")) voc.push_back("<UNK>");
  for_contexts(voc, M.order, [&](const Words &ctx) {
    std::vector<int> g; Gram dq; for (auto &x : ctx) g.push_back(t.word_index(x)); g.push_back(0);
    Words k = ctx; k.push_back("");
    for (auto &w : voc) { k.back() = w; g.back() = t.word_index(w); int hit = 0; double r = M.prob(k, &hit); q++;
      double lp = t.log_prob(g), p = pow(10, lp); int h = t.last_order();
      if (!(std::fabs(p - r) <= 1e-12 + 2e-5 * r)) { c.fail("prob", "%s (%s): P(%s | %s) = %.8g, the file gives %.8g", rep, lay.c_str(), w.c_str(), join(ctx).c_str(), p, r); return good = false; }
      if (hit < 1) hit = 1;
      Words key(k.end() - hit, k.end()); auto e = M.g.find(key); bool zero = e == M.g.end() || e->second.lp <= -60;
      if (h != hit && !(zero)) { c.fail("hit", "%s (%s): hit order of %s after %s is %d, longest stored n-gram used has %d words", rep, lay.c_str(), w.c_str(), join(ctx).c_str(), h, hit); return good = false; }
      dq.assign(g.begin(), g.end()); if (t.log_prob(dq) != (float)lp) { c.fail("prob", "%s: deque and vector queries differ", rep); return good = false; }
      std::vector<unsigned short> us(g.begin(), g.end()); if (!dynamic_cast<HashGram_t<int> *>(&t) && t.log_prob(us) != (float)lp) { c.fail("prob", "%s: short and int queries differ", rep); return good = false; }
    }
    return true; });
  return good;
}
static void c07(Ctx &c, const Model &M, unsigned level) {
  std::vector<std::pair<std::string, Layout>> ls; std::vector<std::unique_ptr<std::vector<std::vector<int>>>> keep;
  for (int sep = 0; sep < 5; sep++) for (int z = 0; z < 2; z++) for (int b = 0; b < 2; b++) { if (level == 0 && (sep + z + b) % 3) continue; Layout l; l.sep = sep; l.zero_bo = z; l.blank = b; ls.push_back({strf("separators %d, trailing zero weights %d, blank lines %d", sep, z, b), l}); }
  if (level < 2) for (int h = 1; h < 8; h++) { if (h == 1 && !M.interp) continue; Layout l; l.head = h; ls.push_back({strf("header form %d", h), l}); }
  if (level == 2) { Layout l; l.sep = 3; ls.clear(); ls.push_back({"plain", Layout()}); ls.push_back({"separators 3", l}); }
  else for (int o = 1; o <= M.order; o++) {
    int n = 0; for (auto &x : M.g) n += (int)x.first.size() == o; std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
    auto push = [&](const std::vector<int> &q) { keep.emplace_back(new std::vector<std::vector<int>>(M.order + 1)); (*keep.back())[o] = q; Layout l; l.perm = keep.back().get(); std::string s; for (int x : q) s += strf("%d ", x); ls.push_back({strf("order-%d lines permuted ", o) + s, l}); };
    if (n <= (level == 1 ? 5 : 4)) { while (std::next_permutation(p.begin(), p.end())) push(p); }
    else { std::vector<int> r(p.rbegin(), p.rend()); push(r); for (int i = 0; i + 1 < n; i++) { auto q = p; std::swap(q[i], q[i + 1]); push(q); } for (int k = 1; k < n; k++) { auto q = p; std::rotate(q.begin(), q.begin() + k, q.end()); push(q); } for (int i = 2; i < n; i++) { auto q = p; std::swap(q[0], q[i]); push(q); } }
  }
  uint64_t q = 0;
  for (auto &l : ls) {
    Layout plain = l.second; plain.head = 0; std::string A = render(M, l.second); Model R = parse_arpa(render(M, plain)); if (!R.err.empty()) { c.fail("gen", "generated file: %s", R.err.c_str()); return; }
    TreeGram t; load(t, A); if (!compare(c, "tree", t, R, l.first, q)) return;
    HashGram_t<int> h; load(h, A); if (!compare(c, "hash", h, R, l.first, q)) return;
    HashGram_t<unsigned short> s; load(s, A); if (!compare(c, "small hash", s, R, l.first, q)) return;
    c.outcome(hash64(A)); c.steps(3);
  }
  c.queries(q); c.validated(ls.size());
}
// models too large for every context: every word after chosen contexts, in every representation
static void large(Ctx &c, const Model &M, const std::vector<Words> &ctxs, bool lists) {
  std::string A = render(M); Model R = parse_arpa(A); c.outcome(hash64(A)); uint64_t q = 0; TreeGram t, b; load(t, A); { char *d = nullptr; size_t n = 0; FILE *f = open_memstream(&d, &n); t.write(f, true); fclose(f); f = fmemopen(d, n, "r"); b.read(f, true); fclose(f); free(d); }
  HashGram_t<int> h; load(h, A); HashGram_t<unsigned short> s; bool small = M.vocab.size() < 65000; if (small) load(s, A);
  NGram *N[] = {&t, &b, &h, small ? &s : nullptr}; static const char *NM[] = {"tree", "binary tree", "hash", "small hash"};
  for (int r = 0; r < 4; r++) { if (!N[r]) continue; if (N[r]->num_words() != (int)M.vocab.size()) { c.fail("vocab", "%s: %d words, expected %zu", NM[r], N[r]->num_words(), M.vocab.size()); return; }
    for (auto &ctx : ctxs) { Words k = ctx; k.push_back(""); std::vector<int> g; for (auto &x : ctx) g.push_back(N[r]->word_index(x)); g.push_back(0); std::vector<int> next; std::vector<float> one;
      for (size_t i = 0; i < M.vocab.size(); i++) { auto &w = M.vocab[i]; k.back() = w; g.back() = N[r]->word_index(w); if (N[r]->word(g.back()) != w || g.back() != (int)i) { c.fail("vocab", "%s: word %s (number %zu) has index %d", NM[r], w.c_str(), i, g.back()); return; }
        if (M.vocab.size() > 5000 && i > 500 && i + 500 < M.vocab.size() && i % 64 > 1 && !(i >= M.vocab.size() / 2 && i < M.vocab.size() / 2 + 5)) continue;
        int hit = 0; double e = R.prob(k, &hit), lp = N[r]->log_prob(g), p = pow(10, lp); int ho = N[r]->last_order(); q++; next.push_back(g.back()); one.push_back(lp);
        if (!(std::fabs(p - e) <= 1e-12 + 2e-5 * e)) { c.fail("prob", "%s: P(%s | %s) = %.8g, the file gives %.8g", NM[r], w.c_str(), join(ctx).c_str(), p, e); return; }
        auto x = R.g.find(Words(k.end() - std::max(hit, 1), k.end())); if (ho != std::max(hit, 1) && x != R.g.end() && x->second.lp > -60) { c.fail("hit", "%s: hit order of %s after %s is %d, expected %d", NM[r], w.c_str(), join(ctx).c_str(), ho, hit); return; } }
      if (lists && r < 2 && !M.interp && ctx.size() && ctx.size() < 3) { std::vector<float> res(next.size(), 7); TreeGram *tg = (TreeGram *)N[r]; if (ctx.size() == 1) tg->fetch_bigram_list(g[0], next, res); else tg->fetch_trigram_list(g[0], g[1], next, res); for (size_t i = 0; i < next.size(); i++) { q++; if (std::fabs(res[i] - one[i]) > 1e-5 + 1e-5 * std::fabs(one[i])) { c.fail("list", "%s: list after %s: word %d has %g, single query %g", NM[r], join(ctx).c_str(), next[i], res[i], one[i]); return; } } } }
    if (lists && r < 2) { TreeGram *tg = (TreeGram *)N[r]; TreeGram::Iterator it(tg); uint64_t n = 0, e = R.g.size(); std::vector<int> prev; while (it.next()) { n++; q++; Words k; std::vector<int> k2; for (int i = 1; i <= it.order(); i++) { k2.push_back(it.node(i).word); k.push_back(tg->word(k2.back())); } auto x = R.g.find(k); if (x == R.g.end() || std::fabs(it.node().log_prob - x->second.lp) > 2e-5 * std::fabs(x->second.lp) || (n > 1 && !(prev < k2))) { c.fail("walk", "%s: the walk visits [%s]", NM[r], join(k).c_str()); return; } prev = k2; } if (n != e) { c.fail("walk", "%s: the walk visits %lu n-grams of %lu", NM[r], (unsigned long)n, (unsigned long)e); return; } } }
  c.queries(q); c.steps(4); c.validated(1);
}
// the probability when n-grams of order two and up with zero probability count as not stored
static double without(const Model &m, const Words &k) {
  double lp = 0;
  for (size_t n = 0;; n++) { Words s(k.begin() + n, k.end()); auto e = m.g.find(s);
    if (e != m.g.end() && (s.size() == 1 || e->second.lp > -60)) return pow(10, lp + e->second.lp);
    s.pop_back(); auto b = m.g.find(s); if (b != m.g.end()) lp += b->second.bo; }
}
// back-off n-grams of order two and up that carry zero probability
static void c07_zero(Ctx &c, const Shape &s, uint64_t which) {
  Model M = mk(s, BO_NEG); std::vector<Words> hi; for (auto &x : M.g) if (x.first.size() > 1) hi.push_back(x.first);
  if (hi.empty()) { c.trivial(); return; }
  M.g[hi[which % hi.size()]].lp = -99; std::string A = render(M); Model R = parse_arpa(A); uint64_t q = 0; c.outcome(hash64(A));
  TreeGram t; load(t, A); if (!compare(c, "tree", t, R, "zero-probability n-gram", q)) return;
  // Known: the hash representation treats such an n-gram as not stored.  Only exactly that deviation carries the key of the finding.
  HashGram_t<int> h; load(h, A); Words voc = M.vocab; bool off = false; std::string first;
  for_contexts(voc, M.order, [&](const Words &ctx) { Words k = ctx; k.push_back("");
    for (auto &w : voc) { k.back() = w; std::vector<int> g; for (auto &x : k) g.push_back(h.word_index(x)); double p = pow(10, h.log_prob(g)), r = R.prob(k), s = without(R, k); q++;
      if (std::fabs(p - r) <= 1e-12 + 2e-5 * r) continue;
      if (!(std::fabs(p - s) <= 1e-12 + 2e-5 * s)) { c.fail("prob", "hash: P(%s | %s) = %.8g, the file gives %.8g", w.c_str(), join(ctx).c_str(), p, r); return false; }
      if (!off) first = strf("P(%s | %s) = %.8g, the file gives %.8g", w.c_str(), join(ctx).c_str(), p, r); off = true; }
    return true; });
  if (off) c.fail("hash-zero-probability-ngram", "hash: %s", first.c_str());
  c.queries(q); c.validated(1);
}
// ---------------------------------------------------------------- C22
struct Ref { // tree of index vectors
  std::vector<std::vector<int>> v; std::map<std::vector<int>, int> pos; std::map<std::vector<int>, std::vector<int>> ch; std::map<std::vector<int>, Entry> e; int order, nuni;
};
static Ref mkref(TreeGram &t, const Model &M) {
  Ref r; r.order = M.order; r.nuni = t.num_words();
  for (auto &x : M.g) { std::vector<int> k; for (auto &w : x.first) k.push_back(t.word_index(w)); r.v.push_back(k); r.e[k] = x.second; }
  if (!M.vset.count("<UNK>")) { Entry e; e.lp = -99; r.v.push_back({0}); r.e[{0}] = e; }
  std::sort(r.v.begin(), r.v.end()); for (size_t i = 0; i < r.v.size(); i++) { r.pos[r.v[i]] = i; auto p = r.v[i]; p.pop_back(); r.ch[p].push_back(r.v[i].back()); }
  return r;
}
static std::string sv(const std::vector<int> &k) { std::string s = "["; for (int x : k) s += strf(" %d", x); return s + " ]"; }
static std::string at(TreeGram::Iterator &it, const Ref &r, const std::vector<int> &k) {
  if (it.order() != (int)k.size()) return strf("iterator is at order %d, expected n-gram %s", it.order(), sv(k).c_str());
  for (size_t i = 1; i <= k.size(); i++) if (it.node(i).word != k[i - 1]) return strf("iterator's word %zu is %d, expected n-gram %s", i, it.node(i).word, sv(k).c_str());
  const Entry &e = r.e.at(k);
  if (std::fabs(it.node().log_prob - e.lp) > 2e-5 * std::fabs(e.lp) || std::fabs(it.node().back_off - e.bo) > 1e-6 + 2e-5 * std::fabs(e.bo)) return strf("n-gram %s has log-probability %g and weight %g, stored %g and %g", sv(k).c_str(), it.node().log_prob, it.node().back_off, e.lp, e.bo);
  bool hc = r.ch.count(k); if (it.has_children() != hc) return strf("has_children of %s is %d", sv(k).c_str(), !hc);
  return "";
}
static bool explore(Ctx &c, TreeGram::Iterator it, const Ref &r, std::vector<int> k, int depth, std::string hist, uint64_t &n) {
  if (depth == 0) return true;
  for (int op = 0; op < 3 + 4 + r.order; op++) {
    if (k.empty() && op >= 1 && op < 7) continue;
    TreeGram::Iterator j = it; std::vector<int> e = k; bool want = true, got; std::string nm; bool ended = false; n++;
    auto nextpos = [&](std::vector<int> &p) { size_t i = p.empty() ? 0 : r.pos.at(p) + 1; if (i >= r.v.size()) return false; p = r.v[i]; return true; };
    if (op == 0) { nm = "next"; got = j.next(); want = nextpos(e); ended = !want; }
    else if (op == 1) { nm = "up"; got = j.up(); want = k.size() > 1; if (want) e.pop_back(); }
    else if (op == 2) { nm = "down"; got = j.down(); auto x = r.ch.find(k); want = x != r.ch.end(); if (want) e.push_back(x->second.front()); }
    else if (op < 7) { static const int D[] = {1, -1, 2, -2}; int dl = D[op - 3]; nm = strf("move %+d", dl); got = j.move_in_context(dl); auto p = k; p.pop_back(); auto &s = r.ch.at(p); int i = std::find(s.begin(), s.end(), k.back()) - s.begin() + dl; want = i >= 0 && i < (int)s.size(); if (want) e.back() = s[i]; }
    else { int o = op - 6; nm = strf("next_order(%d)", o); got = j.next_order(o); do want = nextpos(e); while (want && (int)e.size() != o); ended = !want; }
    std::string h = hist + (hist.empty() ? "" : ", ") + nm;
    if (got != want) { c.fail("iterator", "after %s: returned %d, expected %d", h.c_str(), got, want); return false; }
    if (ended) continue;
    std::string s = at(j, r, e); if (!s.empty()) { c.fail("iterator", "after %s: %s", h.c_str(), s.c_str()); return false; }
    if (!explore(c, j, r, e, depth - 1, h, n)) return false;
  }
  return true;
}
static void c22(Ctx &c, const Model &M0, bool bin, int depth) {
  std::string A = render(M0); Model M = parse_arpa(A); c.outcome(hash64(A)); std::unique_ptr<TreeGram> tp(new TreeGram); load(*tp, A);
  if (bin) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); tp->write(f, true); fclose(f); tp.reset(new TreeGram); f = fmemopen(b, n, "r"); tp->read(f, true); fclose(f); free(b); }
  TreeGram &t = *tp; Ref r = mkref(t, M); uint64_t q = 0;
  // complete walks
  for (int o = 0; o <= M.order; o++) {
    TreeGram::Iterator it(&t); size_t i = 0;
    while (o ? it.next_order(o) : it.next()) { while (i < r.v.size() && o && (int)r.v[i].size() != o) i++; if (i >= r.v.size()) { c.fail("walk", "walk (order limit %d) visits more n-grams than are stored", o); return; }
      std::string s = at(it, r, r.v[i++]); q++; if (!s.empty()) { c.fail("walk", "walk (order limit %d): %s", o, s.c_str()); return; } if (i > r.v.size() + 3) break; }
    while (i < r.v.size() && o && (int)r.v[i].size() != o) i++;
    if (i != r.v.size()) { c.fail("walk", "walk (order limit %d) ends before %s", o, sv(r.v[i]).c_str()); return; }
  }
  for (int o = 1; o <= M.order; o++) { int n = 0; for (auto &x : r.v) n += (int)x.size() == o; if (t.gram_count(o) != n) { c.fail("count", "order %d: gram_count %d, stored %d", o, t.gram_count(o), n); return; } }
  // every operation sequence
  uint64_t n = 0; if (!explore(c, TreeGram::Iterator(&t), r, {}, depth, "", n)) return; c.steps(n);
  // look-ups of every n-gram up to one longer than the order
  std::vector<std::vector<int>> cur(1); bool good = true;
  for (int len = 1; len <= M.order + 1 && good; len++) { std::vector<std::vector<int>> nx;
    for (auto &p : cur) for (int w = 0; w < r.nuni; w++) { auto k = p; k.push_back(w); nx.push_back(k); TreeGram::Gram g(k.begin(), k.end()); TreeGram::Iterator it = t.iterator(g); q++;
      size_t l = 0; std::vector<int> pre; for (int x : k) { auto y = pre; y.push_back(x); if (!r.pos.count(y)) break; pre = y; l++; }
      if (it.order() != (int)l) { c.fail("lookup", "looking up %s finds %d words, %zu are stored", sv(k).c_str(), it.order(), l); good = false; break; }
      std::string s = at(it, r, pre); if (!s.empty()) { c.fail("lookup", "looking up %s: %s", sv(k).c_str(), s.c_str()); good = false; break; } }
    cur.swap(nx); }
  if (!good) return;
  // look-ahead lists
  if (!M.interp) for (int w1 = -1; w1 < r.nuni; w1++) for (int w2 = 0; w2 < r.nuni; w2++) for (int sel = 0; sel < 3; sel++) {
    std::vector<int> want; for (int w = 0; w < r.nuni; w++) if (sel == 0 || (sel == 1 ? w % 2 == 0 : w == r.nuni - 1)) want.push_back(sel == 0 ? r.nuni - 1 - w : w);
    std::vector<float> res(want.size(), 7); if (w1 < 0) t.fetch_bigram_list(w2, want, res); else t.fetch_trigram_list(w1, w2, want, res);
    for (size_t i = 0; i < want.size(); i++) { std::vector<int> g; if (w1 >= 0) g.push_back(w1); g.push_back(w2); g.push_back(want[i]); if ((int)g.size() > M.order + 1) {} float lp = t.log_prob(g); q++;
      if (std::fabs(lp - res[i]) > 1e-5 + 1e-5 * std::fabs(lp)) { c.fail(w1 < 0 ? "bigram-list" : "trigram-list", "list after [%s%d]: word %d has %g, single query %g", w1 < 0 ? "" : strf("%d ", w1).c_str(), w2, want[i], res[i], lp); return; } } }
  c.queries(q); c.validated(1);
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C07" && prop != "C22") return false;
  auto S3 = std::make_shared<std::vector<Shape>>(), SS = std::make_shared<std::vector<Shape>>(), ST = std::make_shared<std::vector<Shape>>(), S4 = std::make_shared<std::vector<Shape>>(), S7 = std::make_shared<std::vector<Shape>>();
  shapes_bi(*S3, {"<UNK>", "a", "b"}, {"<UNK>", "a", "b"}, {"<UNK>", "a", "b"}, 1);
  shapes_bi(*SS, {"<UNK>", "<s>", "a", "</s>"}, {"<s>", "a"}, {"<UNK>", "a", "</s>"}, 2);
  shapes_bi(*SS, {"b", "a"}, {"a", "b"}, {"a", "b"}, 2); shapes_bi(*SS, {"a", "<UNK>"}, {"a", "<UNK>"}, {"<UNK>", "a"}, 2);
  shapes_tree(*ST, {"<UNK>", "a"}, {"a", "<UNK>"}, {"<UNK>", "a"}, 3);
  shapes_tree(*S4, {"<UNK>", "a", "b"}, {"a"}, {"a", "b"}, 4); shapes_tree(*S4, {"<UNK>", "a"}, {"<UNK>"}, {"<UNK>", "a"}, 4);
  // wide nodes: more than five siblings (the tree's binary search)
  { Words v = {"<UNK>", "a", "b", "c", "d", "e", "f", "g", "h"}; for (unsigned m = 0; m < 512; m++) { Shape s; s.vocab = v; s.order = 2; for (int i = 0; i < 9; i++) if (m >> i & 1) s.grams.insert({"c", v[i]}); if (!m) s.order = 1; S7->push_back(s); if (m % 8 == 7) { s.grams.insert({"g", "a"}); S7->push_back(s); } } }
  auto fam = [&](const std::string &n, Shapes s, unsigned step, std::function<void(Ctx &, const Model &, unsigned)> fn, unsigned variants) {
    Family f; f.name = n; f.n = (s->size() + step - 1) / step * 4 * variants;
    f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = K[g.next(4)]; unsigned v = g.next(variants); fn(c, mk((*s)[g.i * step], k), v); };
    f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), v = g.next(variants); return strf("kind %d variant %d ", k, v) + show_shape((*s)[g.i * step]); };
    d.families.push_back(f); };
  d.chunk = 16; d.level = "exploration"; bool L22 = prop == "C22";
  { auto N = std::make_shared<std::vector<unsigned>>(); for (unsigned k = 1; k <= 70; k++) N->push_back(k); for (unsigned k : {71, 90, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000}) N->push_back(k);
    Family f; f.name = "many-successors"; f.n = N->size() * 3 * 2 * (thorough ? 4 : 1); f.timeout_s = 120; auto dec = [=](uint64_t i, int &k, int &sel, int &deep) { Digits g(i); k = thorough ? g.next(4) : (i + i / 6) % 4; sel = g.next(3); deep = g.next(2); return (*N)[g.i]; };
    f.run = [=](uint64_t i, Ctx &c) { int k, sel, deep; unsigned n = dec(i, k, sel, deep); Shape s = wide_shape(2 * n + 4, n, sel, deep); large(c, make(s, K[k]), {{}, {"c"}, {"d"}, {"d", "c"}, {"c", "c"}, {s.vocab.back()}, {s.vocab.back(), "c"}}, L22); };
    f.desc = [=](uint64_t i) { int k, sel, deep; unsigned n = dec(i, k, sel, deep); return strf("%u successors (%s), order %d, kind %d", n, sel == 0 ? "the first words" : sel == 1 ? "the last words" : "every other word", 2 + deep, k); }; d.families.push_back(f); }
  { Family f; f.name = "large-vocabulary"; static const unsigned V[] = {255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 40000, 64999, 65535, 65536, 65537, 70000}; auto num = [=](uint64_t i) { return thorough ? i : i * 6 + i % 6; }; f.n = thorough ? 90 : 15; f.timeout_s = 300;
    f.run = [=](uint64_t i, Ctx &c) { Digits g(num(i)); int kk = g.next(2), sel = g.next(3); unsigned v = V[g.i]; Shape s = wide_shape(v, 150, sel, true); large(c, make(s, K[kk * 2]), {{"c"}, {"d", "c"}, {s.vocab.back(), "c"}, {s.vocab[v / 2]}}, L22); };
    f.desc = [=](uint64_t i) { Digits g(num(i)); int kk = g.next(2), sel = g.next(3); return strf("%u words, successors %d, kind %d", V[g.i], sel, kk * 2); }; d.families.push_back(f); }
  { Family f; f.name = "long-chains"; f.n = 32 * 4 * (thorough ? 5 : 3); f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int k = g.next(4), m = g.next(32), o = 5 + g.i; if (o > 6) { Shape s = chain_shape(o, m); std::vector<Words> cx; std::set<Words> z; for (auto &x : s.grams) for (size_t f = 0; f <= x.size(); f++) z.insert(Words(x.begin() + f, x.end())); cx.assign(z.begin(), z.end()); large(c, make(s, K[k]), cx, L22); } else if (L22) c22(c, make(chain_shape(o, m), K[k]), m & 1, 2); else c07(c, make(chain_shape(o, m), K[k]), 2); };
    f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), m = g.next(32); return strf("order %d, chain form %d, kind %d", 5 + (int)g.i, m, k); }; d.families.push_back(f); }
  if (prop == "C07") {
    auto fn = [=](Ctx &c, const Model &M, unsigned) { c07(c, M, thorough); }; auto pl = [=](Ctx &c, const Model &M, unsigned) { c07(c, M, 2); };
    fam("plain-sent", SS, 1, pl, 1); fam("plain-3words", S3, thorough ? 1 : 16, pl, 1); fam("plain-trees3", ST, 1, pl, 1); fam("plain-trees4", S4, thorough ? 1 : 3, pl, 1); fam("plain-wide", S7, thorough ? 1 : 2, pl, 1);
    unsigned q = thorough ? 1 : 30;
    fam("layout-sent", SS, q, fn, 1); fam("layout-3words", S3, thorough ? 1 : 200, fn, 1); fam("layout-trees3", ST, q, fn, 1); fam("layout-trees4", S4, thorough ? 1 : 50, fn, 1); fam("layout-wide", S7, thorough ? 1 : 50, fn, 1);
    { Family f; f.name = "zero-probability"; f.n = ST->size() * 3; f.run = [=](uint64_t i, Ctx &c) { c07_zero(c, (*ST)[i / 3], i % 3); }; f.desc = [=](uint64_t i) { return strf("n-gram %d has zero probability: ", (int)(i % 3)) + show_shape((*ST)[i / 3]); }; d.families.push_back(f); }
    d.rule = "Every model of the space is rendered in every listed layout: all permutations of the lines of one section (up to four lines; five thorough; larger sections: reversal, rotations, swaps), every separator style, explicit zero weights, blank lines; each file is loaded as tree, hash and small-index hash, and probability and hit order of every word after every context up to one longer than the order are compared with an independent evaluation of the file.";
    d.bounds = "prefix-closed n-gram sets over 2-4 words to order 4, and all sets of up to 9 siblings; chains to order 7 (thorough 9), 1 to 1000 siblings, 255 to 70000 words (chosen contexts); four weight variants";
  } else {
    auto fn = [=](Ctx &c, const Model &M, unsigned v) { c22(c, M, v, thorough ? 4 : 3); };
    fam("walk-sent", SS, 1, fn, 2); fam("walk-3words", S3, thorough ? 1 : 6, fn, 2); fam("walk-trees3", ST, 1, fn, 2); fam("walk-trees4", S4, thorough ? 1 : 2, fn, 2); fam("walk-wide", S7, 1, fn, 2);
    d.rule = "For every model of the space, loaded from ARPA and from binary: complete walks with and without order limit, every sequence of iterator moves (next, next_order, up, down, sibling moves) to the depth against a reference position, look-up of every n-gram up to one longer than the order, and every look-ahead list compared with single queries, under the address sanitizer.";
    d.bounds = "prefix-closed n-gram sets over 2-4 words to order 4, all sets of up to 9 siblings; chains to order 7 (thorough 9), 1 to 1000 siblings, 255 to 70000 words (chosen contexts); four weight variants; iterator move sequences to depth 3 (thorough 4)";
  }
  d.assumptions = {"contexts without extensions carry no back-off weight (true of every normalized model)"};
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
