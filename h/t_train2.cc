// C13 C15 C21: exports, storage options, termination and size targets of the trainers.
#include "train.hh"
#include <climits>

// ---------------------------------------------------------------- C13
struct Counts { // a parsed counts export
  bool ok = false; std::string head; std::vector<std::vector<std::string>> sec; std::vector<std::string> title;
  std::string str() const { std::string s = head + "\n"; for (size_t i = 0; i < sec.size(); i++) { s += title[i] + "\n"; for (auto &l : sec[i]) s += l + "\n"; s += "\n"; } return s; }
  std::vector<std::multiset<std::string>> sets() const { std::vector<std::multiset<std::string>> r; for (auto &x : sec) r.emplace_back(x.begin(), x.end()); return r; }
};
static Counts parse_counts(const std::string &t) {
  Counts c; std::istringstream is(t); std::string l;
  if (!std::getline(is, l) || l.compare(0, 11, "\\vocabsize ")) return c;
  c.head = l;
  while (std::getline(is, l)) {
    if (l.find_first_not_of(" \t") == std::string::npos) continue;
    if (l[0] == '\\') { c.title.push_back(l); c.sec.emplace_back(); continue; }
    if (c.sec.empty()) return c;
    c.sec.back().push_back(l);
  }
  c.ok = true; return c;
}
static void permute(std::vector<std::string> &v, int how) {
  if (how == 1) std::reverse(v.begin(), v.end());
  if (how == 2 && v.size() > 1) std::rotate(v.begin(), v.begin() + v.size() / 2, v.end());
  if (how == 3) std::sort(v.begin(), v.end());
  if (how == 4) for (size_t i = 0; i + 1 < v.size(); i += 2) std::swap(v[i], v[i + 1]);
}
static Args fmt_args(const std::string &f) { if (f == "a") return {"-a"}; if (f == "x") return {"-x"}; return {}; }
static void c13_export(Ctx &c, const Words &text, const Conf &k) {
  if (k.ref.clear && all_s(text)) { c.trivial(); return; }
  write_file(path("text"), text_of(text));
  Conf k1 = k; k1.opts.insert(k1.opts.end(), {"-W", path("cnt"), "-U", path("voc")});
  Model m0;
  if (!train(c, k1, path("text"), m0)) return;
  c.outcome(hash64(read_file(path("lm"))));
  if (m0.order < 2) c.trivial();
  Counts q = parse_counts(read_file(path("cnt")));
  if (!q.ok) { c.fail("export", "exported counts file is not well formed"); return; }
  bool pruned = has_opt(k, "-O") || has_opt(k, "-p") || has_opt(k, "-N") || k.tool == "varigram_kn";
  Args base; bool skip = false;
  for (auto &o : k.opts) { // the estimation options again, not the pruning ones
    if (skip) { skip = false; continue; }
    if (o == "-O" || o == "-p" || o == "-D" || o == "-E") { skip = !(k.tool == "counts2kn" && o == "-D"); continue; }
    if (o == "-N" || o == "-r") continue;
    base.push_back(o);
  }
  for (int how = 0; how < 5 && !c.failed; how++) {
    Counts p = q; for (auto &s : p.sec) permute(s, how);
    if (how == 4) { // all count sections first, then all back-off sections
      Counts z; z.head = p.head; z.ok = true;
      for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < p.sec.size(); i++) if ((p.title[i].find("backoffs") != std::string::npos) == (pass == 1)) { z.title.push_back(p.title[i]); z.sec.push_back(p.sec[i]); }
      p = z;
    }
    write_file(path("cnt2"), p.str());
    Args a = {"-c", "-B", path("voc"), "-W", path("cnt3"), "-U", path("voc3")};
    a.insert(a.end(), base.begin(), base.end());
    a.push_back("-a"); a.push_back(path("cnt2")); a.push_back(path("lm2"));
    if (!run_ok(c, "counts2kn", a)) return;
    if (read_file(path("voc3")) != read_file(path("voc"))) { c.fail("vocab-changed", "re-imported vocabulary differs: {%s} and {%s}", show(read_file(path("voc"))).c_str(), show(read_file(path("voc3"))).c_str()); return; }
    Counts r = parse_counts(read_file(path("cnt3")));
    if (!r.ok) { c.fail("export", "re-exported counts file is not well formed"); return; }
    // compare as sets per title
    std::map<std::string, std::multiset<std::string>> A, B;
    for (size_t i = 0; i < p.sec.size(); i++) A[p.title[i]] = std::multiset<std::string>(p.sec[i].begin(), p.sec[i].end());
    for (size_t i = 0; i < r.sec.size(); i++) B[r.title[i]] = std::multiset<std::string>(r.sec[i].begin(), r.sec[i].end());
    for (auto *M : {&A, &B}) for (auto it = M->begin(); it != M->end();) if (it->second.empty()) it = M->erase(it); else ++it;
    if (A != B) { c.fail("counts-changed", "counts exported after importing an export differ (line order %d): first %s, then %s", how, show(p.str()).substr(0, 500).c_str(), show(r.str()).substr(0, 500).c_str()); return; }
    c.queries(1);
    Model m2 = parse_arpa(read_file(path("lm2")));
    if (!m2.err.empty()) { c.fail("bad-arpa", "output is not well formed: %s", m2.err.c_str()); return; }
    if (!pruned) { if (!check_same(c, "model-differs", m0, m2, 2e-6, 2e-5)) return; }
    else {
      std::set<Words> s0, s2; for (auto &e : m0.g) s0.insert(e.first); for (auto &e : m2.g) s2.insert(e.first);
      if (s0 != s2) { c.fail("ngrams-differ", "n-gram set changed by export and import: %zu and %zu n-grams", s0.size(), s2.size()); return; }
      if (!check_normalized(c, m2, 2e-5)) return;
    }
  }
  c.validated(1);
}
// Training from top-order counts alone.
// unit > 0: the counts of two n-grams in three are enlarged by multiples of the unit; unit < 0: by as much as a 32-bit total allows.
static void c13_top_of(Ctx &c, const Words &text, const Conf &k, long unit) {
  // reference: the text's top-order counts only
  ref::KN full; full.read(text, k.ref);
  if (full.order < k.ref.order) { c.trivial(); return; }
  ref::KN r = full;
  for (int n = 1; n < r.order; n++) r.c[n].clear();
  if (unit) {
    long sum = 0, mult = 0, i = 0; auto f = [&](long i) { return (i + (long)text.size()) % 3 ? 1 + i % 4 : 0; };
    for (auto &g : r.c[r.order]) { sum += g.second; mult += f(i++); }
    if (!mult) { c.trivial(); return; }
    long u = unit > 0 ? unit : (INT_MAX - sum) / mult; i = 0;
    for (auto &g : r.c[r.order]) g.second += f(i++) * u;
  }
  r.type_counts(); r.recount_bo(); r.init_disc();
  for (int n = 1; n <= r.order; n++) r.loo(n);
  std::map<std::string, int> idx; std::string voc;
  for (size_t i = 0; i < full.vocab.size(); i++) { idx[full.vocab[i]] = i; if (i) voc += full.vocab[i] + "\n"; }
  std::vector<std::string> lines;
  for (auto &g : r.c[r.order]) { std::string l; for (auto &w : g.first) l += std::to_string(idx[w]) + " "; lines.push_back(l + std::to_string(g.second)); }
  c.outcome(r.hash());
  for (int how = 0; how < 5 && !c.failed; how++) {
    auto v = lines;
    if (how == 4 && unit) { // exported and imported
      Conf k1 = k; k1.opts.insert(k1.opts.end(), {"-Z", "-B", path("voc"), "-W", path("cnt")}); Model m; if (!train(c, k1, path("top"), m)) return;
    } else if (how == 4) { // the same counts, split over repeated lines
      std::vector<std::string> u;
      for (auto &g : r.c[r.order]) for (long x = 0; x < g.second; x++) { std::string l; for (auto &w : g.first) l += std::to_string(idx[w]) + " "; u.push_back(l + "1"); }
      v = u;
    } else permute(v, how);
    write_file(path("top"), join(v, "\n") + "\n"); write_file(path("voc"), voc);
    Conf k2 = k; k2.opts.insert(k2.opts.end(), {how == 4 && unit ? "-c" : "-Z", "-B", path("voc")});
    Model m;
    if (how == 4 && unit) { k2.opts.push_back("-W"); k2.opts.push_back(path("cnt2")); }
    if (!train(c, k2, path(how == 4 && unit ? "cnt" : "top"), m)) return;
    if (how == 4 && unit && parse_counts(read_file(path("cnt"))).sets() != parse_counts(read_file(path("cnt2"))).sets()) { c.fail("counts-changed", "exported, imported and exported again, the counts differ: first %s, then %s", show(read_file(path("cnt"))).substr(0, 500).c_str(), show(read_file(path("cnt2"))).substr(0, 500).c_str()); return; }
    std::set<std::string> vs(m.vocab.begin(), m.vocab.end());
    if (vs != r.vset) { c.fail("top-vocab", "model vocabulary {%s}, expected {%s}", join(m.vocab).c_str(), join(r.vocab).c_str()); return; }
    std::set<Words> cs; add_contexts(m, cs); for (int n = 1; n <= r.order; n++) for (auto &g : r.b[n]) cs.insert(g.first);
    uint64_t q = 0;
    for (auto &ctx : cs) { Words w = ctx; w.push_back("");
      for (auto &x : r.vocab) { w.back() = x; double p = m.prob(w), e = r.prob(w); q++;
        if (!(std::fabs(p - e) <= 2e-6 + 2e-5 * e)) { c.fail("top-prob", "trained from top-order counts: P(%s | %s) = %.8g, definition gives %.8g", x.c_str(), join(ctx).c_str(), p, e); return; } } }
    c.queries(q);
  }
  c.validated(1);
}
static void c13_top(Ctx &c, const Words &text, const Conf &k) { c13_top_of(c, text, k, 0); }
// Large counts, pruned while reading them and pruned from an export of the unpruned run.
static void c13_large_later(Ctx &c, const Words &text, const Conf &k, long unit) {
  std::map<Words, long> top; std::map<std::string, int> idx; std::string voc, out; int n = atoi(k.opts[std::find(k.opts.begin(), k.opts.end(), "-n") - k.opts.begin() + 1].c_str()); if ((int)text.size() < n) { c.trivial(); return; }
  for (auto &w : text) if (w != "<UNK>" && !idx.count(w)) { idx[w] = idx.size() + 1; voc += w + "\n"; }
  for (size_t i = 0; i + n <= text.size(); i++) top[Words(text.begin() + i, text.begin() + i + n)]++;
  long i = 0; for (auto &g : top) { for (auto &w : g.first) out += (w == "<UNK>" ? "0" : std::to_string(idx[w])) + " "; out += std::to_string(g.second + ((i + text.size()) % 3 ? 1 + i % 4 : 0) * unit) + "\n"; i++; }
  write_file(path("top"), out); write_file(path("voc"), voc);
  Args est, prn; for (size_t i = 0; i < k.opts.size(); i++) { auto &o = k.opts[i]; Args &a = o == "-p" || o == "-O" || o == "-D" || o == "-N" ? prn : est; a.push_back(o); if (o == "-n" || o == "-H" || o == "-p" || o == "-O") a.push_back(k.opts[++i]); }
  est.insert(est.end(), {"-L", "-B", path("voc")}); Model m0, m1, m2; Conf q = k;
  q.opts = est; q.opts.insert(q.opts.end(), {"-Z", "-W", path("cnt")}); if (!train(c, q, path("top"), m0)) return;
  q.opts = est; q.opts.insert(q.opts.end(), prn.begin(), prn.end()); q.opts.push_back("-Z"); if (!train(c, q, path("top"), m1)) return;
  q.opts.back() = "-c"; if (!train(c, q, path("cnt"), m2)) return;
  c.outcome(hash64(read_file(path("lm")))); if (m1.order < 2) c.trivial();
  if (!check_same(c, "later-differs", m1, m2, 2e-6, 2e-5) || !check_normalized(c, m0, 2e-5) || !check_normalized(c, m1, 2e-5)) return;
  c.validated(1);
}

// Cutoffs and pruning on imported counts: the same model as on the text.
static void c13_later(Ctx &c, const Words &text, const Conf &k) {
  if (k.ref.clear && all_s(text)) { c.trivial(); return; }
  write_file(path("text"), text_of(text));
  Args est, prn; for (size_t i = 0; i < k.opts.size(); i++) { auto &o = k.opts[i]; Args &a = o == "-p" || o == "-O" || o == "-D" || o == "-N" || o == "-r" ? prn : est; a.push_back(o); if (o == "-n" || o == "-H" || o == "-p" || o == "-O") a.push_back(k.opts[++i]); }
  Conf k1 = k; k1.opts = est; k1.opts.insert(k1.opts.end(), {"-W", path("cnt"), "-U", path("voc")});
  Model m0, m1, m2; if (!train(c, k1, path("text"), m0)) return;
  k1.opts = k.opts; k1.opts.insert(k1.opts.end(), {"-W", path("cntd")}); if (!train(c, k1, path("text"), m1)) return;
  c.outcome(hash64(read_file(path("lm")))); if (m1.order < 2) c.trivial();
  Args a = {"-c", "-B", path("voc"), "-W", path("cnti")}; if (std::count(prn.begin(), prn.end(), "-r")) { a.push_back("-R"); a.push_back(path("text")); }
  a.insert(a.end(), est.begin(), est.end()); a.insert(a.end(), prn.begin(), prn.end()); a.push_back("-a"); a.push_back(path("cnt")); a.push_back(path("lm2"));
  if (!run_ok(c, "counts2kn", a)) return;
  m2 = parse_arpa(read_file(path("lm2"))); if (!m2.err.empty()) { c.fail("bad-arpa", "output is not well formed: %s", m2.err.c_str()); return; }
  if (!check_same(c, "later-differs", m1, m2, 2e-6, 2e-5)) return;
  if (parse_counts(read_file(path("cntd"))).sets() != parse_counts(read_file(path("cnti"))).sets()) { c.fail("later-counts", "pruned from the text and from imported counts, the exported counts differ: %s and %s", show(read_file(path("cntd"))).substr(0, 500).c_str(), show(read_file(path("cnti"))).substr(0, 500).c_str()); return; }
  c.validated(1);
}

// ---------------------------------------------------------------- C15
static void c15_case(Ctx &c, const Words &text, const Conf &k) {
  if (k.ref.clear && all_s(text)) { c.trivial(); return; }
  write_file(path("text"), text_of(text));
  write_file(path("held"), "a b a c b a a <UNK> b c\n");
  Conf b = k; for (auto &x : b.opts) if (x == "@held") x = path("held");
  Model m0; b.fmt = "a";
  if (!train(c, b, path("text"), m0)) return;
  c.outcome(hash64(read_file(path("lm"))));
  if (m0.order < 2) c.trivial();
  static const std::vector<std::pair<std::string, std::string>> V = {
      {"-s", "a"}, {"-L", "a"}, {"-H 1", "a"}, {"-H 7", "b"}, {"-H 5000", "x"}, {"", "b"}, {"", "x"}, {"-s -L", "b"}};
  auto var = V;
  if (k.tool == "varigram_kn" && !has_opt(k, "-E") && !has_opt(k, "-V")) { var.push_back({"-S", "a"}); var.push_back({"-S -s -H 7", "a"}); }
  for (auto &v : var) {
    if (k.ref.clear && !std::count(text.begin(), text.end(), "<s>") && v.first.find("-s") != std::string::npos) continue; // needs <s> in the vocabulary
    Conf o = b; o.fmt = v.second; auto e = split_ws(v.first); o.opts.insert(o.opts.end(), e.begin(), e.end());
    // a later -H wins only if options are not repeated: drop the base one
    if (v.first.find("-H") != std::string::npos) for (size_t i = 0; i + 1 < o.opts.size() - e.size(); i++) if (o.opts[i] == "-H") { o.opts.erase(o.opts.begin() + i, o.opts.begin() + i + 2); break; }
    Model m; 
    if (!train(c, o, path("text"), m, "lmv")) return;
    double re = o.fmt == "x" ? 4e-4 * m.order + 1e-3 : 4e-5, ae = o.fmt == "x" ? 3e-4 : 5e-6;
    if (k.ref.clear) ae = std::max(ae, 1e-5);
    if (!check_same(c, "differs[" + v.first + " " + v.second + "]", m0, m, ae, re)) { c.msg += " (" + o.str() + ")"; return; }
  }
  c.validated(1);
}

// ---------------------------------------------------------------- C21
static void c21_target(Ctx &c, const Words &text, const Conf &k, int V) {
  if (k.ref.clear && all_s(text)) { c.trivial(); return; }
  write_file(path("text"), text_of(text));
  Conf o = k; o.opts.insert(o.opts.end(), {"-V", std::to_string(V), "-W", path("cnt")}); o.fmt = "a";
  Model m;
  if (!train(c, o, path("text"), m)) return;
  Counts q = parse_counts(read_file(path("cnt")));
  if (!q.ok) { c.fail("export", "exported counts file is not well formed"); return; }
  long n = 0, uni = 0;
  for (size_t i = 0; i < q.sec.size(); i++) if (q.title[i].find("gram counts") != std::string::npos) { n += q.sec[i].size(); if (q.title[i].find("\\1-") == 0) uni = q.sec[i].size(); }
  c.outcome(hash64(q.str())); 
  // what pruning of orders two and up can reach: the unigrams (with history clearing the sentence start keeps its place)
  long floor_ = uni + (k.ref.clear ? 1 : 0);
  if (floor_ <= 1.03 * V) { if (n > 1.03 * V) c.fail("target", "%ld n-grams with target %d (%ld unigrams)", n, V, uni); }
  else c.trivial();
  if (!check_normalized(c, m, 2e-5, k.ref.clear ? Words{"<s>"} : Words())) return;
  c.queries(1); c.validated(1);
}
static void c21_plain(Ctx &c, const Words &text, const Conf &k) {
  if (has_opt(k, "-C") && all_s(text)) { c.trivial(); return; }
  write_file(path("text"), text_of(text));
  write_file(path("held"), "a b a c b a a <UNK> b c\n"); write_file(path("heldunk"), "q r s\n"); write_file(path("held1"), "a\n");
  Conf o = k; for (auto &x : o.opts) if (x[0] == '@') x = path(x.substr(1));
  Model m; if (!train(c, o, path("text"), m)) return;
  c.outcome(hash64(read_file(path("lm")))); c.validated(1);
}

static bool build(const std::string &prop, bool th, CheckDef &d) {
  load_tools({"counts2kn", "bin2arpa", "varigram_kn"});
  unsigned e = th ? 1 : 0;
  d.assumptions = {"ARPA/binary output is observed through an independent ARPA parser and evaluator"};
  if (prop == "C13") {
    d.rule = "every text x configuration: export counts and vocabulary, re-import in five line orders, compare exports and models; and top-order counts files built from the text against the reference Kneser-Ney recursion; non-trivial: model order >= 2";
    d.bounds = "texts <= 6 tokens over 3 letters, <= 8 over 2, texts of 1500 (thorough 4000) words over 61; orders 1..4; 1/3 discounts; KN/absolute; pruned and grown exports";
    auto plain = [](std::vector<int> n, bool clear) { return kn_confs(n, clear, "a"); };
    d.families.push_back(fam("export/abc", rgs_space("abc", 3, 1, 5 + e), plain({1, 2, 3}, false), c13_export));
    d.families.push_back(fam("export/ab", rgs_space("ab", 2, 6, 7 + e), plain({2, 3, 4}, false), c13_export));
    d.families.push_back(fam("export/unk", seq_space("unk", {"a", "<UNK>"}, 1, 5 + e), plain({1, 2, 3}, false), c13_export));
    d.families.push_back(fam("export/clear", seq_space("s", {"<s>", "a", "b"}, 2, 4 + e), plain({2, 3}, true), c13_export));
    std::vector<Conf> pr;
    for (int s = 0; s < 4; s++) for (std::string o : {"-n 3 -O 0_1", "-n 3 -p 0.01", "-n 3 -O 0_0_1 -D", "-n 2 -N", "-n 3 -p 0.005 -r"}) {
      Args a = {"-H", "40"}; for (auto &x : split_ws(o)) { a.push_back(x); for (auto &ch : a.back()) if (ch == '_') ch = ' '; }
      if (s & 1) a.push_back("-3"); if (s & 2) a.push_back("-A");
      pr.push_back(mk("counts2kn", a, "a"));
    }
    for (int s = 0; s < 2; s++) for (std::string o : {"-n 3 -D 0.00001", "-n 4 -D 0.003 -E 0.01"}) { Args a = {"-H", "40"}; for (auto &x : split_ws(o)) a.push_back(x); if (s) a.push_back("-3"); pr.push_back(mk("varigram_kn", a, "a")); }
    d.families.push_back(fam("export-pruned/abc", rgs_space("abc", 3, 3, 6 + e), pr, c13_export));
    std::vector<Conf> la;
    for (int s = 0; s < 4; s++) for (std::string o : {"-n 3 -O 0_1", "-n 3 -O 0_1 -r", "-n 3 -p 0.02", "-n 3 -p 0.02 -r", "-n 2 -N", "-n 3 -O 0_0_1 -D", "-n 3 -O 0_0_1 -D -r"}) {
      Args a = {"-H", "40"}; for (auto &x : split_ws(o)) { a.push_back(x); for (auto &ch : a.back()) if (ch == '_') ch = ' '; }
      if (s & 1) a.push_back("-3"); if (s & 2) a.push_back("-A");
      la.push_back(mk("counts2kn", a, "a"));
    }
    d.families.push_back(fam("pruned-later/abc", rgs_space("abc", 3, 1, 6 + e), la, c13_later));
    d.families.push_back(fam("pruned-later/unk", seq_space("unk", {"a", "<UNK>"}, 1, 5 + e), la, c13_later));
    d.families.push_back(fam("pruned-later/arith", arith_space("w7", 7, {20, 60}), la, c13_later));
    d.families.push_back(fam("export/arith", arith_space("w7", 7, {20, 60}), plain({2, 3}, false), c13_export));
    d.families.push_back(fam("top/abc", rgs_space("abc", 3, 1, 6 + e), plain({1, 2, 3}, false), c13_top));
    d.families.push_back(fam("top/unk", seq_space("unk", {"a", "<UNK>"}, 1, 5 + e), plain({1, 2, 3}, false), c13_top));
    { static const struct { const char *n; long u; } U[] = {{"32-bit", -1}, {"3e9", 3000000000L}, {"2^40", (1L << 40) + 7}};
      for (auto &u : U) { auto k = plain({1, 2, 3}, false); if (u.u > 0) for (auto &x : k) x.opts.push_back("-L"); long un = u.u; auto fn = [un](Ctx &c, const Words &t, const Conf &k) { c13_top_of(c, t, k, un); };
        d.families.push_back(fam(std::string("large-counts/") + u.n, rgs_space("abc", 3, 3, 5 + e), k, fn)); d.families.push_back(fam(std::string("large-counts/arith/") + u.n, arith_space("w7", 7, {25}), k, fn)); }
      std::vector<Conf> ll; for (auto &x : la) if (!has_opt(x, "-r")) ll.push_back(x); auto fn = [](Ctx &c, const Words &t, const Conf &k) { c13_large_later(c, t, k, 3000000000L); };
      d.families.push_back(fam("large-counts/pruned", rgs_space("abc", 3, 3, 6 + e), ll, fn)); d.families.push_back(fam("large-counts/pruned/arith", arith_space("w7", 7, {25}), ll, fn)); d.families.push_back(fam("large-counts/pruned/unk", seq_space("unk", {"a", "<UNK>"}, 2, 5 + e), ll, fn)); }
    d.families.push_back(fam("top/arith", arith_space("w7", 7, {20, 60}), plain({1, 2, 3}, false), c13_top));
    { auto big = [&](const char *n, const std::vector<Conf> &k, void (*f)(Ctx &, const Words &, const Conf &)) { Family x = fam(n, quad_space("w61", 61, {th ? 4000u : 1500u}), k, f); x.timeout_s = 300; d.families.push_back(x); };
      big("export/quad", plain({2, 3}, false), c13_export); big("top/quad", plain({2, 3}, false), c13_top); std::vector<Conf> l2; for (size_t i = 0; i < la.size(); i += th ? 1 : 3) l2.push_back(la[i]); big("pruned-later/quad", l2, c13_later); }
    return true;
  }
  if (prop == "C15") {
    d.rule = "every text x configuration x every storage variant, all contexts compared with the default run; non-trivial: model order >= 2";
    d.bounds = "texts <= 5 tokens over 3 letters, <= 7 over 2, arithmetic texts over 7..13 words, texts of 1500 (thorough 4000) words over 61; hash sizes 1, 7, 40, 5000; short/int keys; int/long counts; ARPA, interpolated ARPA, binary";
    std::vector<Conf> k, kc;
    for (int cl = 0; cl < 2; cl++) for (int s = 0; s < 4; s++) for (std::string o : {"counts2kn -n 1", "counts2kn -n 2", "counts2kn -n 3", "counts2kn -n 3 -O 0_1", "counts2kn -n 3 -p 0.01 -r", "counts2kn -n 2 -o @held", "varigram_kn -n 3 -D 0.00001", "varigram_kn -D 0.003", "varigram_kn -n 3 -D 0.00001 -E 0.01"}) {
      if (cl && o.find("@held") != std::string::npos) continue;
      Args w = split_ws(o), a = {"-H", "40"}; for (size_t i = 1; i < w.size(); i++) { a.push_back(w[i]); if (w[i] == "0_1") a.back() = "0 1"; }
      if (s & 1) a.push_back("-3"); if (s & 2) a.push_back("-A"); if (cl) a.push_back("-C");
      Conf q = mk(w[0], a, "a"); q.ref.clear = cl; (cl ? kc : k).push_back(q);
    }
    d.families.push_back(fam("abc", rgs_space("abc", 3, 1, 5 + e), k, c15_case));
    d.families.push_back(fam("ab-long", rgs_space("ab", 2, 6, 7 + e), k, c15_case));
    d.families.push_back(fam("clear", seq_space("s", {"<s>", "a", "b"}, 2, 4 + e), kc, c15_case));
    d.families.push_back(fam("arith7", arith_space("w7", 7, {20, 60}), k, c15_case));
    d.families.push_back(fam("arith13", arith_space("w13", 13, {40, 120}), k, c15_case));
    { std::vector<std::decay<decltype(k[0])>::type> k2; for (size_t i = 0; i < k.size(); i += th ? 1 : 5) k2.push_back(k[i]); Family x = fam("quad61", quad_space("w61", 61, {th ? 4000u : 1500u}), k2, c15_case); x.timeout_s = 300; d.families.push_back(x); }
    return true;
  }
  if (prop == "C21") {
    d.rule = "every text x configuration x every size target; a run that does not end within its CPU limit, re-run alone with a fourfold limit, is a violation; non-trivial: the target can be met";
    d.bounds = "texts <= 6 tokens over 3 letters, <= 9 over 2, arithmetic texts over 7 words, texts of 300 and 1500 (thorough 4000) words over 61; targets 1..14 and larger; all option groups";
    d.chunk = 4;
    auto tf = [&](const std::string &name, TextSpace t, std::vector<Conf> confs, std::vector<int> V) {
      Family x; x.name = name; unsigned nc = confs.size(), nv = V.size(); x.n = t.n * nc * nv; auto at = t.at;
      x.run = [=](uint64_t i, Ctx &c) { c21_target(c, at(i / nv / nc), confs[i / nv % nc], V[i % nv]); };
      x.desc = [=](uint64_t i) { return confs[i / nv % nc].str() + mc::strf(" -V %d", V[i % nv]) + " text=[" + join(at(i / nv / nc)) + "]"; };
      d.families.push_back(x);
    };
    std::vector<Conf> k, kc;
    for (int cl = 0; cl < 2; cl++) for (std::string o : {"-n 3 -D 0.00001", "-D 0.00001 -3", "-n 2 -D 0.003 -A", "-n 3 -D 0.00001 -S", "-n 3 -D 0.0001 -O 0_1"}) {
      Args a = {"-H", "40"}; for (auto &w : split_ws(o)) { a.push_back(w); if (w == "0_1") a.back() = "0 1"; }
      if (cl) a.push_back("-C"); Conf q = mk("varigram_kn", a, "a"); q.ref.clear = cl; (cl ? kc : k).push_back(q);
    }
    tf("target/abc", rgs_space("abc", 3, 1, 5 + e), k, {1, 2, 3, 4, 5, 6, 7, 9, 12});
    tf("target/ab", rgs_space("ab", 2, 6, 8 + e), k, {1, 3, 5, 8});
    tf("target/clear", seq_space("s", {"<s>", "a", "b"}, 2, 4 + e), kc, {1, 2, 3, 4, 5, 7});
    tf("target/arith", arith_space("w7", 7, {20, 60, 200}), k, {1, 7, 8, 9, 12, 20, 34, 60, 100});
    { std::vector<Conf> kq; for (auto &q : k) if (has_opt(q, "-n")) kq.push_back(q);
      tf("target/quad61", quad_space("w61", 61, {300, th ? 4000u : 1500u}), kq, {62, 70, 150, 400, 1000, 3000}); d.families.back().timeout_s = 300; }
    std::vector<Conf> p;
    for (std::string o : {"counts2kn -n 9", "counts2kn -n 2 -o @held", "counts2kn -n 2 -o @heldunk", "counts2kn -n 2 -o @held1", "counts2kn -n 3 -p 100", "counts2kn -n 3 -p 1e30", "counts2kn -n 3 -O 9", "counts2kn -n 3 -f 1", "counts2kn -n 2 -d 9", "counts2kn -n 3 -O 0_2_1 -r -N",
                          "varigram_kn -D 0.00001 -E 100", "varigram_kn -D 0.00001 -n 1", "varigram_kn -D 1000", "varigram_kn -D 0.00001 -o @held", "varigram_kn -D 0.00001 -o @heldunk", "varigram_kn -D 0.00001 -f 1", "varigram_kn -D 0.00001 -d 9", "varigram_kn -D 0.00001 -F 1", "varigram_kn -D 0.00001 -F 0 -E 0.1", "varigram_kn -D 0.00001 -O 9"})
      for (int s = 0; s < 4; s++) {
        Args w = split_ws(o), a = {"-H", "40"}; for (size_t i = 1; i < w.size(); i++) { a.push_back(w[i]); for (auto &ch : a.back()) if (ch == '_') ch = ' '; }
        if (s & 1) a.push_back("-3"); if (s & 2) a.push_back("-A");
        p.push_back(mk(w[0], a, "a"));
      }
    d.families.push_back(fam("ends/abc", rgs_space("abc", 3, 1, 5 + e), p, c21_plain));
    d.families.push_back(fam("ends/ab", rgs_space("ab", 2, 6, 7 + e), p, c21_plain));
    { Family x = fam("ends/quad61", quad_space("w61", 61, {th ? 1000u : 300u}), p, c21_plain); x.timeout_s = 300; d.families.push_back(x); }
    return true;
  }
  return false;
}
int main(int argc, char **argv) { return run_main(argc, argv, build); }
