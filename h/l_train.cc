// C14 C20: vocabulary restriction, vocabulary operations; held-out discount optimization, the line search.
#include "fill.hh"
#include "train.hh"
#include "QFit.hh"
#include "Vocabulary.hh"

// ---------------------------------------------------------------- C14: tools
struct Restrict { int f = 0, d = 0; bool s = false; };
static std::map<std::string, int> freq(const Words &t) { std::map<std::string, int> r; for (auto &w : t) r[w]++; r.erase("<UNK>"); return r; }
// is `kept` what the restriction asks for?
static std::string kept_ok(const std::map<std::string, int> &fr, const std::set<std::string> &kept, const Restrict &r) {
  std::set<std::string> elig;
  for (auto &x : fr) if (x.second >= r.d) elig.insert(x.first);
  for (auto &w : kept) if (!elig.count(w)) return "word " + w + " should have been dropped";
  size_t n = r.f ? std::min<size_t>(r.f, elig.size()) : elig.size();
  if (kept.size() != n) return strf("%zu words kept, expected %zu", kept.size(), n);
  int lo = 1 << 30, hi = -1;
  for (auto &w : elig) { int c = fr.at(w); if (kept.count(w)) lo = std::min(lo, c); else hi = std::max(hi, c); }
  if (hi > lo) return strf("a word seen %d times was dropped while one seen %d times was kept", hi, lo);
  return "";
}
static Words mapped(const Words &t, const std::set<std::string> &kept) { Words r; for (auto &w : t) r.push_back(kept.count(w) ? w : "<UNK>"); return r; }
static Args ropt(const Restrict &r) { Args a; if (r.f) { a.push_back("-f"); a.push_back(std::to_string(r.f)); } if (r.d) { a.push_back("-d"); a.push_back(std::to_string(r.d)); } if (r.s) a.push_back("-s"); return a; }
static void c14_tool(Ctx &c, const Words &text, const Conf &k, const Restrict &r) {
  write_file(path("text"), text_of(text));
  Conf o = k; auto e = ropt(r); o.opts.insert(o.opts.end(), e.begin(), e.end()); o.opts.insert(o.opts.end(), {"-U", path("voc")});
  Model m; if (!train(c, o, path("text"), m)) return;
  std::set<std::string> kept = m.vset; kept.erase("<UNK>");
  if (m.vset.size() != m.vocab.size() || !m.vset.count("<UNK>")) { c.fail("vocab", "model vocabulary {%s} has repeated words or no <UNK>", join(m.vocab).c_str()); return; }
  if (k.ref.clear) { c.trivial(); return; }
  auto fr = freq(text);
  std::string why = kept_ok(fr, kept, r);
  if (!why.empty()) { c.fail("restriction", "%s; kept {%s}", why.c_str(), join(m.vocab).c_str()); return; }
  auto vw = split_ws(read_file(path("voc"))); std::set<std::string> vf(vw.begin(), vw.end());
  if (vf != kept || vw.size() != vf.size()) { c.fail("vocab-file", "written vocabulary {%s} is not the model's {%s}", join(vw).c_str(), join(m.vocab).c_str()); return; }
  c.outcome(hash64(read_file(path("lm"))));
  if (kept.size() == fr.size()) c.trivial();
  // training equals training on the mapped text
  Words mt = mapped(text, kept);
  if (k.tool == "counts2kn") {
    ref::KN R; R.read(mt, k.ref); R.type_counts(); R.recount_bo(); R.init_disc(); for (int n = 1; n <= R.order; n++) R.loo(n);
    std::set<Words> cs; add_contexts(m, cs); for (int n = 1; n <= R.order; n++) for (auto &g : R.b[n]) cs.insert(g.first);
    uint64_t q = 0;
    for (auto &ctx : cs) { Words w = ctx; w.push_back(""); for (auto &x : R.vocab) { w.back() = x; double p = m.prob(w), t = R.prob(w); q++;
      if (!(std::fabs(p - t) <= 2e-6 + 2e-5 * t)) { c.fail("prob", "restricted training: P(%s | %s) = %.8g, definition on the mapped text gives %.8g", x.c_str(), join(ctx).c_str(), p, t); return; } } }
    c.queries(q);
  } else {
    write_file(path("mtext"), text_of(mt));
    Model m2; if (!train(c, k, path("mtext"), m2, "lm2")) return;
    if (!check_same(c, "mapped", m, m2, 5e-6, 5e-5)) return;
  }
  c.validated(1);
}
static void c14_list(Ctx &c, const Words &text, const Conf &k, const Words &list, int layout) {
  write_file(path("text"), text_of(text));
  static const char *sep[] = {"\n", "\n\n", " \n", "\r\n", "\n\t"};
  std::string v; for (size_t i = 0; i < list.size(); i++) { v += list[i]; if (i + 1 < list.size() || layout != 1) v += sep[layout]; }
  write_file(path("list"), v);
  Conf o = k; o.opts.insert(o.opts.end(), {"-B", path("list"), "-U", path("voc")});
  Model m; if (!train(c, o, path("text"), m)) return;
  std::set<std::string> want(list.begin(), list.end()); want.insert("<UNK>");
  if (want.size() == 1) return; // an empty list restricts nothing
  if (m.vset != want || m.vocab.size() != want.size()) { c.fail("list", "model vocabulary {%s}, list asks for {%s}", join(m.vocab).c_str(), join(Words(want.begin(), want.end())).c_str()); return; }
  auto vw = split_ws(read_file(path("voc"))); std::set<std::string> vf(vw.begin(), vw.end()); vf.insert("<UNK>");
  if (vf != want || vw.size() + 1 != vf.size()) { c.fail("vocab-file", "written vocabulary {%s} is not the list's {%s}", join(vw).c_str(), join(list).c_str()); return; }
  c.outcome(hash64(read_file(path("lm"))));
  Words kept(want.begin(), want.end());
  if (k.tool == "counts2kn") {
    ref::KN R; R.read(text, k.ref, &kept); R.type_counts(); R.recount_bo(); R.init_disc(); for (int n = 1; n <= R.order; n++) R.loo(n);
    std::set<Words> cs; add_contexts(m, cs); for (int n = 1; n <= R.order; n++) for (auto &g : R.b[n]) cs.insert(g.first);
    uint64_t q = 0;
    for (auto &ctx : cs) { Words w = ctx; w.push_back(""); for (auto &x : R.vocab) { w.back() = x; double p = m.prob(w), t = R.prob(w); q++;
      if (!(std::fabs(p - t) <= 2e-6 + 2e-5 * t)) { c.fail("prob", "restricted training: P(%s | %s) = %.8g, definition gives %.8g", x.c_str(), join(ctx).c_str(), p, t); return; } } }
    c.queries(q);
  } else {
    std::set<std::string> ks = want; ks.erase("<UNK>");
    write_file(path("mtext"), text_of(mapped(text, ks)));
    Model m2; Conf o2 = k; o2.opts.insert(o2.opts.end(), {"-B", path("list")}); if (!train(c, o2, path("mtext"), m2, "lm2")) return;
    if (!check_same(c, "mapped", m, m2, 5e-6, 5e-5)) return;
  }
  c.validated(1);
}

// ---------------------------------------------------------------- C14: the vocabulary class
// every sequence of operations up to a depth, each step compared with a plain list
static const char *VW[] = {"a", "<UNK>", "b c", "#x", "", "a(1)", "\xc3\xa4", "A"};
static const unsigned NVW = 8, NVOP = NVW + 6;
static std::string vop_name(unsigned o) { if (o < NVW) return std::string("add(") + VW[o] + ")"; static const char *n[] = {"reload", "set_oov(<UNK>)", "set_oov(U)", "copy", "clear+oov", "read(b,d)"}; return n[o - NVW]; }
// short keys: at most 65534 words besides the unknown one
static void c14_keys(Ctx &c, int n, const Conf &k, bool explicit_limit) {
  const int LIM = 65534; std::string t; for (int i = 0; i < n; i++) t += strf("w%d%c", i, i % 50 ? ' ' : '\n'); for (int i = 0; i < std::min(n, LIM); i++) t += strf("w%d%c", i, i % 40 ? ' ' : '\n'); write_file(path("text"), t + "\n");
  Model a, b; Conf x = k; if (explicit_limit) { x.opts.push_back("-f"); x.opts.push_back("65534"); } Conf y = x; x.opts.push_back("-s"); if (!explicit_limit && n > LIM) { y.opts.push_back("-f"); y.opts.push_back("65534"); }
  if (!train(c, x, path("text"), a)) return; if (!train(c, y, path("text"), b, "lm2")) return; c.outcome(hash64(read_file(path("lm")))); remove_file(path("lm")); remove_file(path("lm2")); remove_file(path("text"));
  if ((int)a.vocab.size() != 1 + std::min(n, LIM)) { c.fail("key-limit", "%d words, -s keeps %zu", n, a.vocab.size()); return; }
  for (int i = 0; i < std::min(n, LIM); i++) if (!a.vset.count(strf("w%d", i))) { c.fail("key-limit", "w%d is not in the vocabulary", i); return; }
  c.queries(n + a.g.size()); if (a.g.size() != b.g.size()) { c.fail("key-limit", "%zu n-grams with short keys, %zu without", a.g.size(), b.g.size()); return; }
  auto j = b.g.begin(); for (auto &p : a.g) { auto &q = *j++; if (p.first != q.first || std::fabs(p.second.lp - q.second.lp) > 1e-5 || std::fabs(p.second.bo - q.second.bo) > 1e-5) { c.fail("key-limit", "[%s] %g %g with short keys, [%s] %g %g without", join(p.first).c_str(), p.second.lp, p.second.bo, join(q.first).c_str(), q.second.lp, q.second.bo); return; } }
  c.validated(1);
}
static void c14_voc(Ctx &c, const std::vector<unsigned char> &ops) {
  Vocabulary *v = new Vocabulary; std::vector<std::string> m = {"<UNK>"};
  std::string fn = path("v"); 
  for (size_t s = 0; s < ops.size() && !c.failed; s++) {
    unsigned o = ops[s]; c.steps(1);
    if (o < NVW) {
      int r = v->add_word(VW[o]); auto it = std::find(m.begin(), m.end(), VW[o]); int e = it - m.begin(); if (it == m.end()) m.push_back(VW[o]);
      if (r != e) { c.fail("add", "add_word(%s) returned %d, expected %d", VW[o], r, e); break; }
    } else if (o == NVW) { // write and read back: only words that the format can hold
      bool ok = m[0] == "<UNK>"; for (auto &w : m) if (w.empty() || w.find(' ') != std::string::npos || w.find('(') != std::string::npos) ok = false;
      if (!ok) continue;
      FILE *f = fopen(fn.c_str(), "w"); v->write(f); fclose(f);
      delete v; v = new Vocabulary; f = fopen(fn.c_str(), "r"); v->read(f); fclose(f);
    } else if (o == NVW + 1 || o == NVW + 2) {
      const char *w = o == NVW + 1 ? "<UNK>" : "U"; if (m.empty()) continue;
      v->set_oov(w); if (m[0] != w) { m.clear(); m.push_back(w); }
    } else if (o == NVW + 3) { Vocabulary *u = new Vocabulary; u->add_word("zz"); v->copy_vocab_to(*u); delete v; v = u; }
    else if (o == NVW + 4) { v->clear_words(); v->add_word("<UNK>"); m.assign(1, "<UNK>"); }
    else { FILE *f = fopen(fn.c_str(), "w"); fputs("b\n\n  d \n", f); fclose(f); f = fopen(fn.c_str(), "r"); v->read(f); fclose(f); for (const char *w : {"b", "d"}) if (std::find(m.begin(), m.end(), w) == m.end()) m.push_back(w); }
    // compare everything
    if (v->num_words() != (int)m.size()) { c.fail("size", "after %s: %d words, expected %zu", vop_name(o).c_str(), v->num_words(), m.size()); break; }
    std::string st;
    for (size_t i = 0; i < m.size(); i++) {
      if (v->word(i) != m[i]) { c.fail("word", "after %s: word(%zu) is %s, expected %s", vop_name(o).c_str(), i, v->word(i).c_str(), m[i].c_str()); break; }
      if (v->word_index(m[i]) != (int)i) { c.fail("index", "after %s: word_index(%s) is %d, expected %zu", vop_name(o).c_str(), m[i].c_str(), v->word_index(m[i]), i); break; }
      st += m[i] + "\n";
    }
    for (const char *w : {"a", "b c", "#x", "U", "d", "zz", "never", "<unk>", ""}) { auto it = std::find(m.begin(), m.end(), w); int e = it == m.end() ? 0 : it - m.begin();
      if (v->word_index(w) != e) { c.fail("index", "after %s: word_index(%s) is %d, expected %d", vop_name(o).c_str(), w, v->word_index(w), e); break; } }
    if (!v->is_oov(0) || (m.size() > 1 && v->is_oov(1))) c.fail("oov", "is_oov wrong");
    c.queries(m.size() * 2 + 9); c.outcome(st);
  }
  delete v; c.validated(1);
}

// ---------------------------------------------------------------- C20: the search
struct Fn { int dim; double a[3], m[3]; int kind; double hi[3]; };
static double fval(const Fn &f, const std::vector<float> &x) {
  double s = 0;
  for (int i = 0; i < f.dim; i++) { double d = x[i] - f.m[i];
    switch (f.kind) { case 0: s += f.a[i] * d * d; break; case 1: s += f.a[i] * fabs(d); break; case 2: s += f.a[i] * (exp(d) - d); break; case 3: s += f.a[i] * d * d * d * d; break;
      case 4: s += f.a[i] * d * d; break; case 5: s -= f.a[i] * log(0.02 + std::max(0.0, 1 + (f.m[i] - 0.5) * x[i] * 0.6)); break; case 6: s += 3; break; } }
  if (f.kind == 4 && f.dim > 1) for (int i = 0; i + 1 < f.dim; i++) s += 0.5 * (x[i] - f.m[i]) * (x[i + 1] - f.m[i + 1]);
  return s;
}
struct Eval : QFitEvaluator { Fn f; long n = 0; double worst = 0; bool nan = false;
  float evaluate(std::vector<float> &x) override { n++; for (int i = 0; i < f.dim; i++) { if (std::isnan(x[i])) nan = true; worst = std::max(worst, std::max<double>(-x[i], x[i] - f.hi[i])); } return fval(f, x); } };
static const double MS[] = {-0.3, 0, 0.001, 0.25, 0.5, 0.71, 0.97, 1, 1.6, 2.9, 3.5};
static const double ST[] = {0, 0.1, 0.5, 0.71, 0.9, 1};
static void c20_qfit(Ctx &c, uint64_t i, int dim) {
  Digits d(i); Fn f; f.dim = dim; f.kind = d.next(7); std::vector<float> st, lo, hi; int tol = d.next(2); int hik = d.next(2);
  for (int k = 0; k < dim; k++) { f.hi[k] = hik ? k % 3 + 1 : 1; f.m[k] = MS[d.next(dim < 3 ? 11 : 5) * (dim < 3 ? 1 : 2)]; st.push_back(ST[d.next(dim < 3 ? 6 : 3) * (dim < 3 ? 1 : 2)]); f.a[k] = k ? 0.3 : 1; lo.push_back(0); hi.push_back(f.hi[k]); }
  Eval e; e.f = f;
  float ltol = tol ? 0.05f : 0.1f, atol = tol ? 0.02f : 0.05f; // as used by the trainers: lin 5e-2.., precision 1e-1
  if (!tol) { ltol = 5e-2f; atol = 1e-1f; }
  QFit q(ltol, atol, &e); q.set_initial_point(st); q.set_minimum(lo); q.set_maximum(hi);
  std::vector<float> r = q.minimize(1000 * dim);
  c.steps(e.n); c.outcome(hash64(r.data(), r.size() * 4) ^ e.n);
  if (e.nan) { c.fail("nan", "the search evaluated a NaN point"); return; }
  if (e.n > 20000L * dim) { c.fail("evals", "%ld evaluations", e.n); return; }
  if (e.worst > 1e-5) { c.fail("outside", "the search evaluated a point %.4g outside the bounds", e.worst); return; }
  double fs = fval(f, st), fr = fval(f, r);
  if (!(fr <= fs + 1e-5 * (1 + fabs(fs)))) { c.fail("worse", "the result %.6g is worse than the start %.6g", fr, fs); return; }
  std::string where; for (auto x : r) where += strf(" %g", x);
  if (f.kind <= (dim == 1 ? 3 : 2)) for (int k = 0; k < dim; k++) { // the quartic is flatter than float noise next to large other terms
    double best = std::max(0.0, std::min(f.hi[k], f.m[k]));
    double tolx = f.kind == 3 ? 0.35 : 1.2 * ltol;
    if (fabs(r[k] - best) > tolx) { c.fail("minimum", "coordinate %d of the result is %g, the minimum is at %g (result%s)", k, r[k], best, where.c_str()); return; }
  }
  c.queries(3); c.validated(1);
}

// ---------------------------------------------------------------- C20: held-out optimization in the trainers
static double heldout(const Model &m, const Words &h, bool clear, long *n) {
  double s = 0; Words hist; *n = 0;
  for (auto &w0 : h) {
    std::string w = m.vset.count(w0) ? w0 : "<UNK>";
    if (clear && w == "<s>") { hist.assign(1, w); continue; }
    hist.push_back(w); if (w == "<UNK>") continue;
    Words q = hist; if ((int)q.size() > m.order) q.erase(q.begin(), q.end() - m.order);
    double p = m.prob(q); s += p > 1e-60 ? log10(p) : -60; ++*n;
  }
  return s;
}
static void c20_tool(Ctx &c, const Words &text, const Conf &k, const Words &held) {
  if (k.ref.clear && all_s(text)) { c.trivial(); return; }
  write_file(path("text"), text_of(text)); write_file(path("held"), text_of(held));
  Conf o = k; o.fmt = "a"; Model m0, m1, mx;
  if (!train(c, o, path("text"), m0, "lm0")) return;
  o.opts.push_back("-o"); o.opts.push_back(path("held"));
  if (!train(c, o, path("text"), m1)) return;
  c.outcome(hash64(read_file(path("lm"))));
  if (k.tool == "counts2kn") {
    // discounts, recovered from the interpolated form
    Conf x = o; x.fmt = "x"; if (!train(c, x, path("text"), mx, "lmx")) return;
    ref::KN r; r.read(text, k.ref); r.type_counts(); r.recount_bo();
    double U = 0; bool haveU = r.cnt({"<UNK>"}) == 0; if (haveU) { auto e = mx.g.find({"<UNK>"}); if (e != mx.g.end()) U = pow(10, e->second.lp); }
    uint64_t q = 0;
    for (int n = haveU ? 1 : 2; n <= r.order; n++) for (auto &g : r.c[n]) {
      auto e = mx.g.find(g.first); if (e == mx.g.end()) { c.fail("missing", "n-gram [%s] missing", join(g.first).c_str()); return; }
      const ref::Bo &b = r.b[n][Words(g.first.begin(), g.first.end() - 1)];
      double p = e->second.lp < -59 ? 0 : pow(10, e->second.lp); if (n == 1) p -= U;
      double D = g.second - p * b.den, tol = 4e-4 * g.second + (n == 1 ? 4e-4 * U * b.den : 0) + 1e-4; q++;
      int hi = k.ref.three ? r.cls(g.second) + 1 : 1;
      if (!(D >= -tol && D <= hi + tol)) { c.fail("bounds", "discount of [%s] (count %ld) is %.4f, allowed 0..%d", join(g.first).c_str(), g.second, D, hi); return; }
    }
    for (int n = 2; n <= r.order; n++) for (auto &b : r.b[n]) { // back-off mass within bounds too
      auto e = mx.g.find(b.first); if (e == mx.g.end()) continue; double co = e->second.lp <= 0 ? pow(10, e->second.bo) : 1;
      double mxm = 0; for (int z = 0; z < 3; z++) mxm += b.second.nz[z] * (z + 1.0); q++;
      if (e->second.has_bo && co > mxm / b.second.den + 1e-3) { c.fail("bounds", "back-off mass %.4f after [%s] exceeds the largest allowed %.4f", co, join(b.first).c_str(), mxm / b.second.den); return; }
    }
    c.queries(q);
  } else { // growing is followed by pruning between two optimizations: only a proper distribution is promised
    check_normalized(c, m1, 2e-5); c.validated(1); return;
  }
  long n; double l0 = heldout(m0, held, k.ref.clear, &n), l1 = heldout(m1, held, k.ref.clear, &n);
  if (n == 0) c.trivial();
  if (!(l1 >= l0 - 2e-4 - 1e-5 * fabs(l0))) c.fail("worse", "held-out log10 probability %.6f after optimization, %.6f with the starting discounts (%ld words)", l1, l0, n);
  c.validated(1);
}

static bool build(const std::string &prop, bool th, CheckDef &d) {
  load_tools({"counts2kn", "bin2arpa", "varigram_kn"});
  unsigned e = th ? 1 : 0;
  d.assumptions = {"ARPA/binary output is observed through an independent ARPA parser and evaluator"};
  if (prop == "C14") {
    d.rule = "texts x restriction options x trainers against the requested word set and the model of the mapped text; all vocabulary operation sequences against a plain list; non-trivial: a word was dropped";
    d.bounds = "texts <= 6 tokens over 4 letters; -f 1..4, -d 0..3 and combinations, word lists over 4 words; texts of 300 and 1500 (thorough 4000) words over 61 with -f 1..100, -d 0..20; vocabulary operation sequences of depth <= 4 over 14 operations; texts of 65532 to 131072 words with short keys";
    std::vector<Restrict> R; for (int f = 0; f <= 4; f++) for (int dd = 0; dd <= 3; dd++) for (int s = 0; s < 2; s++) if (f || dd || s) { Restrict r; r.f = f; r.d = dd; r.s = s; R.push_back(r); }
    auto rf = [&](const std::string &name, TextSpace t, std::vector<Conf> K, std::vector<Restrict> RR) {
      Family x; x.name = name; uint64_t nk = K.size(), nr = RR.size(); x.n = t.n * nk * nr; auto at = t.at;
      x.run = [=](uint64_t i, Ctx &c) { c14_tool(c, at(i / nr / nk), K[i / nr % nk], RR[i % nr]); };
      x.desc = [=](uint64_t i) { return K[i / nr % nk].str() + " " + join(ropt(RR[i % nr])) + " text=[" + join(at(i / nr / nk)) + "]"; };
      d.families.push_back(x);
    };
    auto kc = kn_confs({1, 2}, false, "a", {0}); for (auto &x : kn_confs({3}, false, "a", {1})) kc.push_back(x);
    std::vector<Conf> kv = {mk("varigram_kn", {"-H", "40", "-n", "3", "-D", "0.00001"}, "a"), mk("varigram_kn", {"-H", "40", "-D", "0.00001", "-3", "-S"}, "a")};
    rf("restrict/counts2kn", rgs_space("abcd", 4, 1, 5 + e), kc, R);
    rf("restrict/ab-long", rgs_space("abc", 3, 6, 6 + e), kc, R);
    rf("restrict/unk", seq_space("unk", {"a", "<UNK>", "b"}, 1, 4 + e), kc, R);
    rf("restrict/varigram", rgs_space("abcd", 4, 1, 5 + e), kv, R);
    { std::vector<Restrict> Q; for (int f : {0, 1, 2, 9, 10, 30, 60, 61, 62, 100}) for (int dd : {0, 1, 2, 5, 20}) for (int s = 0; s < 2; s++) { Restrict r; r.f = f; r.d = dd; r.s = s; Q.push_back(r); }
      rf("restrict/quad61", quad_space("w61", 61, {300, th ? 4000u : 1500u}), {kc[1], kv[0]}, Q); d.families.back().timeout_s = 300; }
    auto kl = kc; kl.insert(kl.end(), kv.begin(), kv.end());
    { // word lists: every list of 1..3 of {a,b,c,z} without repetition, in order, plus layouts
      std::vector<Words> L; static const Words al = {"a", "b", "c", "z"};
      for (uint64_t i = 0; i < seq_count(4, 1, 3); i++) { Words w; for (auto x : seq_at(i, 4, 1, 3)) w.push_back(al[x]); L.push_back(w); } // repetitions included: duplicates are one word
      auto t = rgs_space("abc", 3, 1, 4 + e); Family x; x.name = "list"; uint64_t nl = L.size(), nk = kl.size(); x.n = t.n * nk * nl; auto at = t.at;
      x.run = [=](uint64_t i, Ctx &c) { c14_list(c, at(i / nl / nk), kl[i / nl % nk], L[i % nl], i % 5); };
      x.desc = [=](uint64_t i) { return kl[i / nl % nk].str() + " -B {" + join(L[i % nl]) + "} text=[" + join(at(i / nl / nk)) + "]"; };
      d.families.push_back(x);
    }
    { static const int N[] = {65532, 65533, 65534, 65535, 65536, 65540, 131072}; std::vector<Conf> K = {mk("counts2kn", {"-H", "100000", "-n", "2"}, "a"), mk("varigram_kn", {"-H", "100000", "-n", "2", "-D", "0.001"}, "a"), mk("counts2kn", {"-H", "100000", "-n", "1", "-3"}, "a")};
      Family x; x.name = "key-limit"; x.timeout_s = 120; unsigned nk = th ? 3 : 1, nn = 7; x.n = nk * nn * (th ? 2 : 1); x.run = [=](uint64_t i, Ctx &c) { c14_keys(c, N[i % nn], K[(th ? i / nn % nk : i % 2)], i / nn / nk); }; x.desc = [=](uint64_t i) { return strf("%d words, short keys%s, ", N[i % nn], i / nn / nk ? ", explicit limit" : "") + K[(th ? i / nn % nk : i % 2)].str(); }; d.families.push_back(x); }
    { Family x; x.name = "vocabulary-ops"; unsigned D = th ? 5 : 4; x.n = seq_count(NVOP, 1, D);
      x.run = [=](uint64_t i, Ctx &c) { c14_voc(c, seq_at(i, NVOP, 1, D)); };
      x.desc = [=](uint64_t i) { std::string s; for (auto o : seq_at(i, NVOP, 1, D)) s += vop_name(o) + "; "; return s; };
      d.families.push_back(x); }
    return true;
  }
  if (prop == "C20") {
    d.rule = "grid of convex functions x start points x bounds for the search; texts x held-out texts x trainer options for the optimization; non-trivial: the held-out text has a scored word";
    d.bounds = "search: 1..3 variables, 7 function shapes, 11 minima (also outside the bounds), 6 starts; trainers: texts <= 5 tokens over 3 letters, held-out texts <= 4 tokens; texts of 300 and 1000 (thorough 3000) words over 61, held-out texts of 40 and 400";
    for (int dim = 1; dim <= 3; dim++) { Family x; x.name = strf("search/%d", dim); x.n = 7 * 4; for (int k = 0; k < dim; k++) x.n *= dim < 3 ? 66 : 15;
      x.run = [=](uint64_t i, Ctx &c) { c20_qfit(c, i, dim); }; x.desc = [=](uint64_t i) { return strf("function %llu of %d variables", (unsigned long long)i, dim); }; d.families.push_back(x); }
    auto hf = [&](const std::string &name, TextSpace t, std::vector<Conf> K, TextSpace h) {
      Family x; x.name = name; uint64_t nk = K.size(), nh = h.n; x.n = t.n * nk * nh; auto at = t.at, ht = h.at;
      x.run = [=](uint64_t i, Ctx &c) { c20_tool(c, at(i / nh / nk), K[i / nh % nk], ht(i % nh)); };
      x.desc = [=](uint64_t i) { return K[i / nh % nk].str() + " heldout=[" + join(ht(i % nh)) + "] text=[" + join(at(i / nh / nk)) + "]"; };
      d.families.push_back(x);
    };
    auto kc = kn_confs({1, 2, 3}, false, "a");
    hf("heldout/abc", rgs_space("abc", 3, 2, 4 + e), kc, seq_space("h", {"a", "b", "x"}, 1, 3));
    hf("heldout/arith", arith_space("w7", 7, {20, 60}), kc, arith_space("w7", 7, {9, 30}));
    { hf("heldout/quad61", quad_space("w61", 61, {300, th ? 3000u : 1000u}), kn_confs({2, 3}, false, "a", th ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1}), quad_space("h61", 70, {40, 400})); d.families.back().timeout_s = 300; }
    hf("heldout/clear", seq_space("s", {"<s>", "a", "b"}, 2, 3 + e), kn_confs({2, 3}, true, "a"), seq_space("h", {"a", "<s>"}, 1, 3));
    hf("heldout/varigram", rgs_space("abc", 3, 3, 5), {mk("varigram_kn", {"-H", "40", "-n", "3", "-D", "0.00001"}, "a"), mk("varigram_kn", {"-H", "40", "-D", "0.00001", "-3"}, "a")}, seq_space("h", {"a", "b", "x"}, 1, 3));
    return true;
  }
  return false;
}
int main(int argc, char **argv) { return run_main(argc, argv, build); }
