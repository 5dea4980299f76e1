// C23: memory safety and definedness on every valid input, degenerate ones included.
// Every command runs three times: with address sanitizer, and on two builds where every uninitialized automatic variable
// and every fresh or freed heap byte has a different definite value; the three must end alike with the same output.
#include "train.hh"
#include "lmgen.hh"
#include <malloc.h>
#include <signal.h>
static const Args TOOLS = {"counts2kn", "varigram_kn", "perplexity", "arpa2arpa", "arpa2bin", "bin2arpa", "add_zeroprob_grams", "simpleinterpolate2arpa", "arpasize", "check_model"};
static Args OUTS = {"o", "o2", "o3"};
// args may contain %NAME for scratch files
static bool run3(Ctx &c, const std::string &tool, const Args &args, const std::string &what, bool keep = false) {
  Args a; for (auto x : args) { size_t p; while ((p = x.find('%')) != std::string::npos) x = x.substr(0, p) + scratch() + "/" + x.substr(p + 1); a.push_back(x); }
  std::string got[3]; int code[3]; static const char *V[] = {"asan:", "pat:", "zer:"};
  for (int v = 0; v < 3; v++) {
    for (auto &o : OUTS) remove_file(path(o)); RunOpt o; o.keep_err = true; o.cpu_s = 20; o.in_child = [=]() { if (v) mallopt(M_PERTURB, v == 1 ? 0x55 : 0xff); };
    Res r = run(c, V[v] + tool, a, o); c.queries(1);
    if (r.memory) { size_t p = r.err.find("ERROR: AddressSanitizer"); std::string e = p == std::string::npos ? "" : r.err.substr(p, 120), at; for (size_t q = p; q != std::string::npos && q < r.err.size();) { q = r.err.find("/src/", q); if (q == std::string::npos) break; at = r.err.substr(q + 1, 40); break; } e = e.substr(0, e.find('\n')); at = at.substr(0, at.find('\n')); c.fail("memory", "%s, %s %s: %s %s", what.c_str(), tool.c_str(), join(args).c_str(), e.c_str(), at.c_str()); return false; }
    if (r.signaled) { c.fail("signal", "%s, %s %s: %s%s", what.c_str(), tool.c_str(), join(args).c_str(), r.how().c_str(), v == 0 ? "" : " (build with definite values)"); return false; }
    if (r.code == 126) { c.fail("run", "cannot run %s", tool.c_str()); return false; }
    code[v] = r.code; got[v] = r.out + "\x01" + (v ? r.err : ""); for (auto &x : OUTS) got[v] += read_file(path(x)) + "\x01"; if (!v) got[0] = got[0];
  }
  if (code[1] != code[2] || got[1] != got[2] || code[0] != code[1]) { size_t k = 0; while (k < got[1].size() && k < got[2].size() && got[1][k] == got[2][k]) k++; c.fail("uninitialized", "%s, %s %s: results depend on uninitialized storage (exit %d, %d, %d; outputs differ from byte %zu: [%s] / [%s])", what.c_str(), tool.c_str(), join(args).c_str(), code[0], code[1], code[2], k, show(got[1].substr(k > 20 ? k - 20 : 0, 60)).c_str(), show(got[2].substr(k > 20 ? k - 20 : 0, 60)).c_str()); return false; }
  c.outcome(hash64(tool + got[1])); c.validated(1); return true;
}
static const char *DT[] = {"", "\n", "   ", "a", "<s>", "</s>", "<UNK>", "a a", "<s> </s>", "<s> <s>", "<s> a", "a </s>", "<s> a </s>\n", "a b", "b a a", "<s> <UNK> </s>", "<UNK> <UNK> a", "a a a a a a a a", "<s> a </s> <s> a </s>", "<s> a b </s>\n<s> b a </s>\n", "<s> a b c d e f g </s>", "a b c a b d a b e a c b", "<s> a b a c a b </s>\n<s> b a d a </s>\n<s> a a b </s>\n<s> a b a c </s>\n", "a <s> b <s> a </s> </s> b"};
static const int NDT = sizeof DT / sizeof *DT;
static std::vector<std::string> EX2K, EXVG, EXP; // option groups; the words of one group separated by blanks
static void files() {
  static pid_t done; if (done == getpid()) return; done = getpid();
  write_file(path("v0"), ""); write_file(path("v1"), "a\n"); write_file(path("v2"), "<s>\n</s>\nb\nzz\n"); write_file(path("v3"), "<s>\n"); write_file(path("v4"), "a\na\n<UNK>\n\n b \n"); write_file(path("t0"), ""); write_file(path("t1"), "a"); write_file(path("t2"), "<s> q a b </s> <s> a"); write_file(path("t3"), "q q"); write_file(path("l1"), "a\n</s>\n"); write_file(path("l2"), "^a\nb$\n^\n"); write_file(path("l3"), "<s>\nqq\n");
}
static Args words(const std::string &s) { Args r; for (auto &x : split_ws(s)) { std::string y = x; for (auto &ch : y) if (ch == '~') ch = ' '; r.push_back(y); } return r; }
static void train_case(Ctx &c, const std::string &tool, const std::string &text, const std::string &opts) {
  files(); write_file(path("t"), text); Args a = words(opts); a.push_back("%t"); a.push_back("%o"); run3(c, tool, a, "text [" + show(text) + "]");
}
// ---------------------------------------------------------------- models
static std::vector<std::string> MODELS;
static std::string arpa(const std::vector<std::vector<std::string>> &g, const std::string &pre = "") { std::string s = pre + "\\data\\\n"; for (size_t i = 0; i < g.size(); i++) s += strf("ngram %zu=%zu\n", i + 1, g[i].size()); for (size_t i = 0; i < g.size(); i++) { s += strf("\n\\%zu-grams:\n", i + 1); for (auto &x : g[i]) s += x + "\n"; } return s + "\n\\end\\\n"; }
static void models(bool thorough) {
  MODELS = {arpa({{"-0.5 <UNK>"}}), arpa({{"0 a"}}), arpa({{"-0.5 a"}, {}}), arpa({{"-1 <UNK>", "-0.1 a -0.2"}, {}, {}}), arpa({{"-1 <UNK>", "-0.1 a -0.2"}, {"-0.1 a a"}}), arpa({{"-1 <UNK>", "-0.3 a -0.2", "-99 <s> -0.1"}, {"-0.1 a a -0.1", "-0.2 <s> a"}, {"-0.2 a a a"}, {}}), arpa({{"-0.9 a", "-0.7 b -0.1", "-0.5 </s>"}, {"-0.2 b </s>"}}), arpa({{"-1 <UNK> -0.2", "-0.4 a -0.3", "-0.6 b -0.2"}, {"-0.5 <UNK> <UNK>", "-0.3 a b", "-0.2 b <UNK>"}}), arpa({{"-1 <UNK>", "-0.3 a -0.2", "-0.4 b -0.1"}, {"-0.3 a b -0.1", "-0.4 b a -0.2"}, {"-0.3 a b a -0.1"}, {"-0.3 a b a b -0.1"}, {"-0.2 a b a b a"}}), arpa({{"-1 <UNK>", "-0.3 a -0.2"}, {"-0.2 a a"}}, "\\interpolated\n"), arpa({{"-1 <UNK>", "-0.5 a"}}, "\\interpolated\n"), arpa({{"-0.3 a 0", "-99 b -99", "-0.3 </s>"}, {"-99 b a", "0 a b"}})};
  std::vector<lmgen::Shape> sh; lmgen::shapes_bi(sh, {"<s>", "</s>", "a", "b"}, {"<s>", "a"}, {"a", "b"}, 1); lmgen::shapes_tree(sh, {"a", "b"}, {"a"}, {"a", "b"}, thorough ? 3 : 2); std::vector<lmgen::Kind> ks = {lmgen::BO_NEG, lmgen::INTERP}; unsigned k = 0;
  for (auto &s : sh) { if (!thorough && k++ % 3) continue; for (auto q : ks) MODELS.push_back(lmgen::render(lmgen::make(s, q, s.vocab[0] == "<s>" ? "<s>" : ""))); }
}
static void model_case(Ctx &c, const std::string &m, const std::string &m2) {
  files(); write_file(path("m"), m); write_file(path("n"), m2); std::string w = "model [" + show(m) + "]";
  remove_file(path("b")); run(c, "pat:arpa2bin", {path("m"), path("b")});
  struct T { const char *tool; Args a; }; std::vector<T> ts = {{"arpa2bin", {"%m", "%o"}}, {"arpa2arpa", {"%m", "%o"}}, {"add_zeroprob_grams", {"%m", "%o"}}, {"arpasize", {"-a", "%m", "%o"}}, {"arpasize", {"-a", "-S", "%m", "%o"}}, {"simpleinterpolate2arpa", {"%m,0.5;%n,0.5", "%o"}}, {"simpleinterpolate2arpa", {"%n,1;%m,0.25;%m,2", "%o"}}, {"simpleinterpolate2arpa", {"%m,1", "%o"}}, {"check_model", {"-a", "%m", "%t1"}}, {"check_model", {"-a", "-d", "%m", "%t2"}}, {"check_model", {"-f", "-d", "%m", "%t2"}}, {"check_model", {"-a", "-d", "%m", "%t0"}}, {"check_model", {"-a", "%m", "%t0"}}};
  for (auto &t : ts) { if (m.find("interpolated") != std::string::npos && (!strcmp(t.tool, "simpleinterpolate2arpa"))) continue; if (!run3(c, t.tool, t.a, w)) return; }
  if (exists(path("b"))) for (auto &t : std::vector<T>{{"bin2arpa", {"%b", "%o"}}, {"arpasize", {"%b", "%o"}}, {"check_model", {"-d", "%b", "%t2"}}}) if (!run3(c, t.tool, t.a, w)) return;
}
static void ppl_case(Ctx &c, const std::string &m, const std::string &m2, const std::string &opts, int text) {
  files(); write_file(path("m"), m); write_file(path("n"), m2); write_file(path("t"), DT[text]); Args a = words(opts);
  if (opts.find("-A") != std::string::npos) { remove_file(path("b")); run(c, "pat:arpa2bin", {path("m"), path("b")}); if (!exists(path("b"))) return; }
  a.push_back("%t"); a.push_back("%o"); run3(c, "perplexity", a, strf("text [%s] model [%s] second [%s]", show(DT[text]).c_str(), show(m).c_str(), show(m2).c_str()));
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C23") return false;
  d.chunk = 1; Args n; for (auto v : {"asan:", "pat:", "zer:"}) for (auto &t : TOOLS) n.push_back(v + t); load_tools(n); models(thorough);
  Args com = {"", "-a", "-x", "-C", "-s", "-L", "-f 1", "-f 2", "-d 2", "-d 100", "-d 2 -s", "-B %v0", "-B %v1", "-B %v2", "-B %v3", "-B %v4", "-o %t0", "-o %t1", "-o %t2", "-o %t3", "-O 1~1", "-O 100", "-O 0~2", "-N", "-H 1", "-H 2", "-H 1000", "-W %o2 -U %o3", "-3", "-A", "-3 -A"};
  Args k2 = com, vg = com; for (auto x : {"-p 0", "-p 0.1", "-p 1000", "-r -p 0.1", "-r -p 1000 -N", "-D -O 1~1", "-r -O 1"}) k2.push_back(x);
  for (auto x : {"-D 0", "-D 0.01", "-D 1000", "-D 0.01 -E 0.1", "-D 0.01 -E 1000", "-S", "-Z", "-F 0.5", "-F 0", "-F 1", "-V 1", "-V 3 -D 0.001", "-S -D 0.01 -s"}) vg.push_back(x);
  Args kn, vn; for (auto o : {"-n 1", "-n 2", "-n 3", "-n 7"}) for (auto &x : k2) kn.push_back(std::string("-a ") + o + " " + x); for (auto o : {"", "-n 1", "-n 3"}) for (auto &x : vg) vn.push_back(std::string("-a ") + o + " " + x);
  auto fam = [&](const std::string &name, const std::string &tool, Args confs, std::vector<std::string> texts) { Family f; f.name = name; f.timeout_s = 60; unsigned nc = confs.size(); f.n = texts.size() * (uint64_t)nc; f.run = [=](uint64_t i, Ctx &c) { train_case(c, tool, texts[i / nc], confs[i % nc]); }; f.desc = [=](uint64_t i) { return tool + " " + confs[i % nc] + " text=[" + show(texts[i / nc]) + "]"; }; d.families.push_back(f); };
  std::vector<std::string> deg(DT, DT + NDT); fam("fixed-order training, degenerate texts", "counts2kn", kn, deg); fam("growing, degenerate texts", "varigram_kn", vn, deg);
  // pairs of option groups on three texts
  auto pairs = [](const Args &x, const std::string &pre) { Args r; for (size_t i = 1; i < x.size(); i++) for (size_t j = i + 1; j < x.size(); j++) { if (split_ws(x[i])[0] == split_ws(x[j])[0]) continue; r.push_back(pre + x[i] + " " + x[j]); } return r; };
  std::vector<std::string> few = thorough ? std::vector<std::string>{"", "a", "<s> a </s>\n", "<s> a b a c a b </s>\n<s> b a d a </s>\n<s> a a b </s>\n<s> a b a c </s>\n"} : std::vector<std::string>{"<s> a b a c a b </s>\n<s> b a d a </s>\n<s> a a b </s>\n"};
  fam("fixed-order training, pairs of options", "counts2kn", pairs(k2, "-n 3 "), few); fam("growing, pairs of options", "varigram_kn", pairs(vg, "-n 4 "), few);
  // all short texts
  std::vector<std::string> all; for (unsigned l = 0; l <= (thorough ? 5u : 3u); l++) for (uint64_t i = 0; i < seq_count(3, l, l); i++) { Words w; for (auto x : seq_at(i, 3, l, l)) w.push_back(x == 0 ? "a" : x == 1 ? "b" : "<s>"); all.push_back(join(w)); }
  fam("fixed-order training, all short texts", "counts2kn", {"-a -n 3", "-x -n 2 -3 -C", "-n 3 -A -r -p 0.1", "-a -n 4 -O 1"}, all); fam("growing, all short texts", "varigram_kn", {"-a -D 0.001", "-x -n 3 -3 -D 0.001 -E 0.01", "-a -n 4 -S -D 0.001"}, all);
  // exported counts as input
  { Family f; f.name = "training from counts"; f.timeout_s = 60; static Args cf = {"-a -c -B %cv", "-a -c -3 -B %cv", "-x -c -B %cv -p 0.1", "-a -c -B %cv -r -R %t -p 0.1", "-a -c -s -B %cv -O 1", "-a -c -L -B %cv -N"}; unsigned nc = cf.size(); f.n = NDT * nc * 3; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int t = g.next(NDT), k = g.next(nc); files(); write_file(path("t"), DT[t]); remove_file(path("cc")); remove_file(path("cv")); Args a = {"-n", strf("%d", 1 + 2 * (int)g.i % 5), "-W", path("cc"), "-U", path("cv"), path("t"), path("o")}; if (cf[k].find("-3") != std::string::npos) a.insert(a.begin(), "-3"); Res r = run(c, "pat:counts2kn", a); if (!r.ok()) { c.trivial(); return; } Args b = words(cf[k]); b.push_back("%cc"); b.push_back("%o"); run3(c, "counts2kn", b, strf("counts of [%s] (order %d)", show(DT[t]).c_str(), 1 + 2 * (int)g.i % 5)); }; f.desc = [=](uint64_t i) { Digits g(i); int t = g.next(NDT), k = g.next(nc); return strf("counts2kn %s on the counts of [%s], order %d", cf[k].c_str(), show(DT[t]).c_str(), 1 + 2 * (int)g.i % 5); }; d.families.push_back(f); }
  { Family f; f.name = "models"; f.timeout_s = 120; unsigned nm = MODELS.size(); f.n = nm * 3; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int m = g.next(nm); static const int S[] = {0, 4, 8}; model_case(c, MODELS[m], MODELS[S[g.i]]); }; f.desc = [=](uint64_t i) { Digits g(i); int m = g.next(nm); return strf("every conversion of model [%s], merged with model %d", show(MODELS[m]).c_str(), (int)g.i); }; d.families.push_back(f); }
  Args rep = {"-a %m", "-a %m -f", "-a %m -f -s", "-A %b", "-a %m -i %n", "-a %m -f -i %n"}, ex = {"", "-u a", "-u <s>", "-u qq -U", "-o", "-S %o2", "-W %v0", "-W %l1", "-X %l2", "-X %v0", "-C %l3", "-C %v0", "-t 1", "-t 5", "-I 0", "-I 1", "-o -X %l2 -S %o2", "-W %l1 -C %l3 -o", "-t 2 -W %l1 -S %o2", "-u b -X %l2 -o"};
  Args pc; for (auto &r : rep) for (auto &x : ex) { if (x.find("-I") == 0 && r.find("-i") == std::string::npos) continue; pc.push_back(r + " " + x); }
  { Family f; f.name = "scoring"; f.timeout_s = 60; std::vector<int> tx; for (int t = 0; t < NDT; t++) if (thorough || t == 0 || t == 4 || t == 15 || t == 22) tx.push_back(t); unsigned np = pc.size(), nm = thorough ? MODELS.size() : 12, nt = tx.size(); f.n = (uint64_t)np * nm * nt; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int t = g.next(nt), m = g.next(nm); ppl_case(c, MODELS[m], MODELS[(m * 5 + 4) % 12], pc[g.i], tx[t]); }; f.desc = [=](uint64_t i) { Digits g(i); int t = g.next(nt), m = g.next(nm); return strf("perplexity %s, text [%s], model [%s]", pc[g.i].c_str(), show(DT[tx[t]]).c_str(), show(MODELS[m]).c_str()); }; d.families.push_back(f); }
  d.rule = "Every command is run on an address-sanitizer build and on two builds in which every uninitialized automatic variable and every fresh or freed heap byte has a definite, different value. It must not touch memory it does not own, not end by a signal, and end with the same status and the same outputs and messages in all builds (else a result depends on uninitialized storage).";
  d.bounds = strf("%d degenerate texts x %zu + %zu option groups, all pairs of option groups, all texts of up to %d tokens over {a, b, <s>}, %zu small models through every conversion, %zu scoring option sets", NDT, kn.size(), vn.size(), thorough ? 5 : 3, MODELS.size(), pc.size());
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
