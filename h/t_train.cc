// C01 C02: the trainers, run as tools, on all small texts.
#include "train.hh"

static void c02_case(Ctx &c, const Words &text, const Conf &k) {
  ref::KN r; r.read(text, k.ref); r.type_counts(); r.recount_bo(); r.init_disc();
  for (int n = 1; n <= r.order; n++) r.loo(n);
  c.outcome(r.hash() ^ (k.ref.three * 7919 + k.ref.absolute * 104729));
  if (r.order < 2 && k.ref.order > 1) c.trivial();
  write_file(path("text"), text_of(text));
  Model m;
  if (!train(c, k, path("text"), m)) return;
  if (m.order != r.order) { c.fail("order", "model order %d, expected %d", m.order, r.order); return; }
  std::set<std::string> vs(m.vocab.begin(), m.vocab.end());
  if (vs != r.vset) { c.fail("vocab", "model vocabulary {%s}, expected {%s}", join(m.vocab).c_str(), join(r.vocab).c_str()); return; }
  for (int n = 1; n <= r.order; n++) for (auto &g : r.c[n]) if (!m.g.count(g.first)) { c.fail("missing", "n-gram [%s] missing from the model", join(g.first).c_str()); return; }
  double re = k.fmt == "x" ? 4e-4 * r.order : 2e-5, ae = k.fmt == "x" ? 1e-4 : 2e-6; uint64_t q = 0;
  auto cmp = [&](const Words &ctx) {
    Words w = ctx; w.push_back("");
    for (auto &x : r.vocab) {
      w.back() = x; double p = m.prob(w), e = r.prob(w); q++;
      if (!(std::fabs(p - e) <= ae + re * e)) { c.fail("prob", "P(%s | %s) = %.8g, definition gives %.8g", x.c_str(), join(ctx).c_str(), p, e); return false; }
    }
    return true;
  };
  std::set<Words> cs; add_contexts(m, cs);
  for (int n = 1; n <= r.order; n++) for (auto &g : r.b[n]) cs.insert(g.first);
  for (auto &x : cs) if (!cmp(x)) break;
  c.queries(q); c.validated(1);
}

// ---------------------------------------------------------------- C01
static const char *HELD = "a b a c b a a <UNK> b c\n";
static std::vector<Conf> c01_confs(bool clear, bool th) {
  std::vector<Conf> r;
  auto add = [&](const std::string &tool, const std::string &o, const std::string &fmts = "ab") {
    for (int s = 0; s < 4; s++) for (char f : fmts) {
      Args a = split_ws(o);
      for (auto &x : a) { if (x == "@held") x = path("held"); if (x == "@vocab") x = path("voc"); for (auto &ch : x) if (ch == '_') ch = ' '; }
      if (s & 1) a.push_back("-3");
      if (s & 2) a.push_back("-A");
      if (clear) a.push_back("-C");
      r.push_back(mk(tool, a, std::string(1, f)));
    }
  };
  std::string H = "-H 40 ";
  for (std::string n : {"1", "2", "3", "4"}) {
    add("counts2kn", H + "-n " + n, "abx");
    if (n == "1") continue;
    add("counts2kn", H + "-n " + n + " -p 0.005", "ax");
    add("counts2kn", H + "-n " + n + " -p 0.02", "b");
  }
  for (std::string n : {"2", "3"}) {
    add("counts2kn", H + "-n " + n + " -O 0_1", "ax");
    add("counts2kn", H + "-n " + n + " -O 0_1 -D", "a");
    add("counts2kn", H + "-n " + n + " -N", "a");
    add("counts2kn", H + "-n " + n + " -N -O 0_0_1 -p 0.01", "ab");
    add("counts2kn", H + "-n " + n + " -p 0.01 -r", "a");
    add("counts2kn", H + "-n " + n + " -o @held", "a");
    if (!clear) add("counts2kn", H + "-n " + n + " -f 1", "a");
    if (!clear) add("counts2kn", H + "-n " + n + " -B @vocab", "a");
    if (!clear) add("counts2kn", H + "-n " + n + " -B @vocab -N -p 0.01", "a");
  }
  add("counts2kn", H + "-n 3 -O 1_2", "a");
  if (!clear) add("counts2kn", H + "-n 3 -O 0_2_1 -s", "b");
  add("counts2kn", H + "-n 3 -p 0.01 -O 0_1 -r -L", "a");
  add("counts2kn", H + "-n 3 -p 0.01 -o @held", "a");
  for (std::string D : {"0.00001", "0.003", "0.02"}) {
    add("varigram_kn", H + "-n 3 -D " + D, "ab");
    add("varigram_kn", H + "-D " + D, "x");
    add("varigram_kn", H + "-n 4 -D " + D + " -E 0.005", "ab");
    add("varigram_kn", H + "-n 3 -D " + D + " -E 0.02", "a");
    add("varigram_kn", H + "-n 3 -D " + D + " -S", "a");
  }
  add("varigram_kn", H + "-n 3 -D 0.0001 -E 0.01 -O 0_1", "a");
  add("varigram_kn", H + "-n 3 -D 0.0001 -O 0_0_1", "a");
  add("varigram_kn", H + "-n 3 -D 0.0001 -N", "a");
  add("varigram_kn", H + "-n 3 -D 0.0001 -o @held", "a");
  add("varigram_kn", H + "-n 3 -D 0.0001 -F 0.4", "a");
  add("varigram_kn", H + "-n 3 -D 0.0001 -V 8", "a");
  for (std::string o : {"-n 3 -Z", "-n 4 -E 0.01 -Z", "-V 8 -Z", "-n 3 -O 0_1 -Z", "-N -Z", "-F 0.4 -Z"}) add("varigram_kn", H + "-D 0.0001 " + o, "x");
  if (!clear) add("varigram_kn", H + "-n 3 -D 0.0001 -B @vocab -Z", "x");
  if (!clear) add("varigram_kn", H + "-n 3 -D 0.0001 -E 0.01 -S -s", "x");
  if (!clear) add("varigram_kn", H + "-n 3 -D 0.0001 -B @vocab -E 0.003", "a");
  return r;
}
// Every combination of the trainer options, instead of the groups above.
static std::vector<Conf> c01_product(bool clear) {
  std::vector<Conf> r;
  auto prod = [&](const std::string &tool, const std::vector<std::vector<std::string>> &axes) {
    std::vector<size_t> ix(axes.size(), 0);
    for (;;) {
      Args a{"-H", "40"}; std::string fmt = "a";
      for (size_t k = 0; k < axes.size(); k++) for (auto x : split_ws(axes[k][ix[k]])) {
        if (x[0] == '%') { fmt = x.substr(1); continue; }
        if (x[0] == '@') x = path(x.substr(1) == "vocab" ? "voc" : x.substr(1));
        for (auto &ch : x) if (ch == '_') ch = ' ';
        a.push_back(x);
      }
      if (clear) a.push_back("-C");
      if (!(fmt != "x" && has_opt(mk(tool, a, fmt), "-Z"))) r.push_back(mk(tool, a, fmt));
      size_t k = 0; while (k < ix.size() && ++ix[k] == axes[k].size()) ix[k++] = 0;
      if (k == ix.size()) return;
    }
  };
  std::vector<std::string> vocs{"", "-B @vocab"}, vocs2{"", "-B @vocab", "-f 1"};
  if (clear) vocs = vocs2 = {""};
  prod("counts2kn", {{"-n 2", "-n 3"}, {"", "-p 0.01", "-p 0.03"}, {"", "-O 0_1", "-O 0_1 -D", "-O 0_0_1"}, {"", "-r"}, {"", "-N"}, vocs2, {"", "-o @held"}, {"", "-3", "-A", "-3 -A"}, {"%a", "%x", "%b"}});
  prod("varigram_kn", {{"-n 3", "-n 4"}, {"-D 0.0001", "-D 0.01"}, {"", "-E 0.01"}, {"", "-O 0_1"}, {"", "-N"}, {"", "-S"}, {"", "-F 0.4"}, {"", "-Z"}, {"", "-V 8"}, vocs, {"", "-o @held"}, {"", "-3 -A"}, {"%a", "%x"}});
  return r;
}
static void c01_case(Ctx &c, const Words &text, const Conf &k) {
  if (all_s(text) && has_opt(k, "-C")) { c.trivial(); return; } // nothing left to model after clearing
  write_file(path("text"), text_of(text));
  write_file(path("held"), HELD);
  write_file(path("voc"), "a\nc\n");
  Model m;
  Conf k2 = k; for (auto &x : k2.opts) { size_t p = x.rfind('/'); if (p != std::string::npos) x = path(x.substr(p + 1)); }
  if (!train(c, k2, path("text"), m)) return;
  c.outcome(std::to_string(hash64(k.fmt == "b" ? read_file(path("lm")) : read_file(path("lm")))));
  if (m.order < 2) c.trivial();
  if (!m.vset.count("<UNK>")) { c.fail("unk", "no unknown word in the model"); return; }
  bool vc = k.tool == "varigram_kn" && std::find(k.opts.begin(), k.opts.end(), "-C") != k.opts.end();
  // -Z leaves out back-off weights above 10^-0.001 of n-grams without counts, at every order
  check_normalized(c, m, has_opt(k, "-Z") ? 2.5e-3 * std::max(1, (int)m.order - 1) : k.fmt == "x" ? 2e-3 : 2e-5, vc ? Words{"<s>"} : Words());
  c.validated(1);
}

static bool build(const std::string &prop, bool th, CheckDef &d) {
  load_tools({"counts2kn", "bin2arpa"});
  d.assumptions = {"ARPA/binary output is observed through an independent ARPA parser and evaluator", "floating point comparisons use tolerances far below any count change"};
  if (prop == "C01") {
    load_tools({"varigram_kn"});
    d.rule = "every text of the family x every trainer configuration; every context up to the model order is summed; non-trivial: the model has order >= 2";
    d.bounds = "texts <= 5-8 tokens over 2-3 letters, with <s> and <UNK>, arithmetic texts over 7 words, texts of 1500 (thorough 4000) words over 61; all option groups";
    unsigned e = th ? 1 : 0;
    d.families.push_back(fam("abc", rgs_space("abc", 3, 1, 5 + e), c01_confs(false, th), c01_case));
    d.families.push_back(fam("ab-long", rgs_space("ab", 2, 6, 8 + e), c01_confs(false, th), c01_case));
    d.families.push_back(fam("unk", seq_space("unk", {"a", "<UNK>"}, 1, 6 + e), c01_confs(false, th), c01_case));
    d.families.push_back(fam("clear", seq_space("s", {"<s>", "a", "b"}, 1, 4 + e), c01_confs(true, th), c01_case));
    d.families.push_back(fam("arith7", arith_space("w7", 7, {20, 60}), c01_confs(false, th), c01_case));
    { std::vector<Words> ts{split_ws("a b a c a b b a"), split_ws("a a b <UNK> b a <UNK> a b"), arith_space("w", 7, {20}).at(1)};
      d.families.push_back(fam("product", {"p", ts.size(), [ts](uint64_t i) { return ts[i]; }}, c01_product(false), c01_case));
      std::vector<Words> tc{split_ws("<s> a b a <s> a c b a <s> b a")};
      d.families.push_back(fam("product-clear", {"pc", tc.size(), [tc](uint64_t i) { return tc[i]; }}, c01_product(true), c01_case)); }
    { std::vector<Conf> some, all = c01_confs(false, th); for (size_t i = 0; i < all.size(); i += th ? 2 : 5) if (has_opt(all[i], "-n")) some.push_back(all[i]); Family f = fam("quad61", quad_space("w61", 61, {th ? 4000u : 1500u}), some, c01_case); f.timeout_s = 300; d.families.push_back(f); }
    return true;
  }
  if (prop == "C02") {
    d.level = "exploration";
    d.rule = "every text of the family x every configuration; non-trivial: the model reaches order >= 2 (or order 1 was requested); each is a distinct (text, configuration)";
    d.bounds = "texts <= 7 tokens over 3 letters, <= 10 over 2, 6 with <s>/<UNK>, arithmetic texts over 7..13 words, texts of 300 to 3000 (thorough 8000) words over 61; orders 1..6; 1/3 discounts; KN/absolute";
    unsigned e = th ? 2 : 0;
    d.families.push_back(fam("kn/abc", rgs_space("abc", 3, 1, 7 + e), kn_confs({1, 2, 3, 4}, false, "a"), c02_case));
    d.families.push_back(fam("kn/abcde", rgs_space("abcde", 5, 6, 6 + e), kn_confs({2, 3}, false, "a"), c02_case));
    d.families.push_back(fam("kn/ab-long", rgs_space("ab", 2, 8, 10 + e), kn_confs({1, 2, 3}, false, "a"), c02_case));
    d.families.push_back(fam("kn/ab-high-order", rgs_space("ab", 2, 5, 8 + e), kn_confs({5, 6}, false, "b"), c02_case));
    d.families.push_back(fam("kn/unk", seq_space("unk", {"a", "<UNK>", "b"}, 1, 5 + e), kn_confs({1, 2, 3}, false, "a"), c02_case));
    d.families.push_back(fam("kn/clear", seq_space("s", {"a", "<s>", "b"}, 1, 5 + e), kn_confs({1, 2, 3, 4}, true, "a"), c02_case));
    d.families.push_back(fam("kn/sent", seq_space("s", {"a", "<s>", "</s>"}, 1, 5 + e), kn_confs({1, 2, 3}, false, "b"), c02_case));
    d.families.push_back(fam("kn/narpa", rgs_space("abc", 3, 1, 6 + e), kn_confs({1, 2, 3}, false, "x"), c02_case));
    d.families.push_back(fam("kn/arith7", arith_space("w7", 7, {8, 15, 30, 60}), kn_confs({1, 2, 3, 4}, false, "a"), c02_case));
    d.families.push_back(fam("kn/arith13", arith_space("w13", 13, {14, 40, 120}), kn_confs({1, 2, 3}, false, "b"), c02_case));
    { Family f = fam("kn/quad61", quad_space("w61", 61, {300, 1000, th ? 8000u : 3000u}), kn_confs({2, 3, 4}, false, "a"), c02_case); f.timeout_s = 300; d.families.push_back(f); }
    return true;
  }
  return false;
}
int main(int argc, char **argv) { return run_main(argc, argv, build); }
