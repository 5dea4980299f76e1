// C27: the trainer object used as a library (also through the Python wrapper) and the command line tool give the same files,
// whatever the order and number of the calls.
#include "fill.hh"
#include "train.hh"
#include "TreeGram.hh"
#include "VarigramFuncs.hh"
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
struct Cfg { int kt; bool three, abs, small, clear, unks; double d, d2; int target, order, ndrop, nfirst; std::string cut, opti, vocab; };
static std::string show(const Cfg &k) { return strf("keys %s counts %s%s%s%s%s%s -D %g -E %g -V %d -n %d -d %d -f %d -O '%s' -o '%s' -B '%s'", k.kt & 1 ? "short" : "int", k.kt & 2 ? "long" : "int", k.three ? " -3" : "", k.abs ? " -A" : "", k.small ? " -S" : "", k.clear ? " -C" : "", k.unks ? " -N" : "", k.d, k.d2, k.target, k.order, k.ndrop, k.nfirst, k.cut.c_str(), k.opti.c_str(), k.vocab.c_str()); }
static Args args(const Cfg &k) {
  Args a = {"-H", "40", "-D", strf("%g", k.d)}; auto add = [&](std::initializer_list<std::string> l) { a.insert(a.end(), l); };
  if (k.kt & 1) add({"-s"}); if (k.kt & 2) add({"-L"}); if (k.three) add({"-3"}); if (k.abs) add({"-A"}); if (k.small) add({"-S"}); if (k.clear) add({"-C"}); if (k.unks) add({"-N"});
  if (k.d2 > 0) add({"-E", strf("%g", k.d2)}); if (k.target) add({"-V", std::to_string(k.target)}); if (k.order) add({"-n", std::to_string(k.order)}); if (k.ndrop) add({"-d", std::to_string(k.ndrop)}); if (k.nfirst > 0) add({"-f", std::to_string(k.nfirst)});
  if (!k.cut.empty()) add({"-O", k.cut}); if (!k.opti.empty()) add({"-o", path(k.opti)}); if (!k.vocab.empty()) add({"-B", path(k.vocab)});
  return a;
}
// calls that write, and the one that changes the model
enum Op { ARPA, BIN, NARPA, NARPA_NZ, COUNTS, VOCAB, DISC, FILE_ARPA, FILE_BIN, NOPS };
static const char *ON[] = {"write(arpa)", "write(binary)", "write_narpa", "write_narpa without zero-probability n-grams", "write_debug_counts", "write_vocab", "set_all_discounts", "write_file(arpa)", "write_file(binary)"};
static const char *FORCE = "0.5";
static std::string names(const std::vector<int> &s) { Words w; for (int x : s) w.push_back(ON[x]); return join(w, ", "); }
typedef std::unique_ptr<Varigram> V;
static V create(const Cfg &k) {
  switch (k.kt) { case 0: return V(new Varigram_t<int, int>(k.three, k.abs)); case 1: return V(new Varigram_t<unsigned short, int>(k.three, k.abs)); case 2: return V(new Varigram_t<int, long>(k.three, k.abs)); }
  return V(new Varigram_t<unsigned short, long>(k.three, k.abs));
}
// the settings and the initialization in the order given by perm (0 initialize, 1 scale, 2 pruning scale, 3 order, 4 target)
static void prepare(Varigram &v, const Cfg &k, const std::vector<int> &perm, bool rev) {
  for (int p : perm) switch (p) {
    case 0: v.initialize(path("text"), 40, k.ndrop, k.nfirst, k.opti.empty() ? "" : path(k.opti), k.clear ? "<s>" : "", k.small, k.vocab.empty() ? "" : path(k.vocab)); break;
    case 1: v.set_datacost_scale((float)std::max(0.00001, k.d)); break;
    case 2: if (k.d2 > 0) v.set_datacost_scale2((float)k.d2); break;
    case 3: if (k.order) v.set_max_order(k.order); break;
    case 4: if (k.target) v.set_ngram_prune_target(k.target); break;
  }
  std::vector<int> cut; for (auto &x : split_ws(k.cut)) cut.push_back(std::stoi(x));
  if (rev) v.set_discard_unks(k.unks); if (!cut.empty()) v.set_cutoffs(cut); if (!rev) v.set_discard_unks(k.unks);
}
static std::string apply(Varigram &v, int op) { // what the call writes
  if (op == FILE_ARPA || op == FILE_BIN) { std::string f = path("named"); v.write_file(f, op == FILE_ARPA); return read_file(f); }
  if (op == DISC) { v.set_all_discounts(atof(FORCE)); return ""; }
  char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); if (!f) _exit(8);
  switch (op) { case ARPA: v.write(f, true); break; case BIN: v.write(f, false); break; case NARPA: case NARPA_NZ: v.set_zeroprobgrams(op == NARPA); v.write_narpa(f); break; case COUNTS: v.write_debug_counts(f); break; case VOCAB: v.write_vocab(f); break; }
  fclose(f); std::string r(b, n); free(b); return r;
}
// run f in a child process
static bool child(Ctx &c, const char *what, const std::function<void()> &f) {
  fflush(0); pid_t p = fork(); if (p < 0) { perror("fork"); abort(); }
  if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); mallopt(M_MMAP_THRESHOLD, 1 << 28); mallopt(M_TRIM_THRESHOLD, 1 << 28); mallopt(M_TOP_PAD, 1 << 24); int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); struct rlimit r; r.rlim_cur = c.confirming ? 80 : 20; r.rlim_max = r.rlim_cur + 5; setrlimit(RLIMIT_CPU, &r); try { f(); } catch (...) { _exit(9); } _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) ; c.steps(1);
  if (st) { c.fail("died", "%s: the process died (wait status 0x%x)", what, st); return false; }
  return true;
}
// what a file means: models as models, counts without empty n-grams
struct Got { int kind = 0; Model m; std::string text; };
static std::string counts_of(const std::string &t) { std::istringstream is(t); std::string l, title; std::set<std::string> s; while (std::getline(is, l)) { if (l.empty()) continue; if (l[0] == '\\') { title = l; continue; } if (l[0] == '[') { size_t b = l.find("] "); if (b != std::string::npos && atof(l.c_str() + b + 2) == 0 && title.find("gram counts") != std::string::npos) continue; } s.insert(title + " " + l); } std::string r; for (auto &x : s) r += x + "\n"; return r; }
static bool read_got(Ctx &c, int op, const std::string &file, Got &g) {
  g.text = read_file(file); if (op == VOCAB) return true; if (op == COUNTS) { g.text = counts_of(g.text); g.kind = 2; return true; }
  g.kind = 1; g.m = parse_arpa(g.text); if (!g.m.err.empty()) { c.fail("bad-arpa", "%s: %s", ON[op], g.m.err.c_str()); return false; }
  if (op == NARPA_NZ) { auto &m = g.m; for (size_t i = 1; i <= m.counts.size(); i++) ; }
  return true;
}
static bool same_sets(const Model &a, const Model &b) { if (a.g.size() != b.g.size() || a.interp != b.interp) return false; auto j = b.g.begin(); for (auto &x : a.g) { if (x.first != j->first) return false; ++j; } return true; }
static bool compare(Ctx &c, int op, const Got &a, const Got &b, const std::string &what) {
  if (a.kind != 1) { c.queries(1); if (a.text != b.text) { c.fail(strf("call-%d", op), "%s: %s gives %s, the tool writes %s", what.c_str(), ON[op], vk::show(b.text).substr(0, 600).c_str(), vk::show(a.text).substr(0, 600).c_str()); return false; } return true; }
  if (!same_sets(a.m, b.m)) { c.fail(strf("call-%d", op), "%s: %s gives other n-grams (%zu) than the tool (%zu)", what.c_str(), ON[op], b.m.g.size(), a.m.g.size()); return false; }
  auto j = b.m.g.begin();
  for (auto &x : a.m.g) { c.queries(2); auto &p = x.second; auto &q = (j++)->second; double e = op == NARPA || op == NARPA_NZ ? 2e-4 : 2e-5; if (std::fabs(p.lp - q.lp) > e * std::max(1.0, std::fabs(p.lp)) || std::fabs(p.bo - q.bo) > e * std::max(1.0, std::fabs(p.bo))) { c.fail(strf("call-%d", op), "%s: %s gives %g %g for [%s], the tool %g %g", what.c_str(), ON[op], q.lp, q.bo, join(x.first).c_str(), p.lp, p.bo); return false; } }
  return true;
}
static void unbin(const std::string &f) { FILE *in = fopen(f.c_str(), "r"); if (!in) _exit(7); TreeGram t; t.read(in, true); fclose(in); FILE *o = fopen((f + ".a").c_str(), "w"); t.write(o, false); fclose(o); }
static int what_of(int op) { return op == FILE_ARPA ? ARPA : op == FILE_BIN ? BIN : op; }
static bool inputs(Ctx &c, const Words &text, const Cfg &k) {
  if (k.clear && (all_s(text) || ((k.kt & 1) && !std::count(text.begin(), text.end(), "<s>")))) { c.trivial(); return false; } // short keys need the sentence start in the text
  write_file(path("text"), text_of(text)); write_file(path("held"), "a b a c b a a <UNK> b c\n"); write_file(path("words"), "b\na\n"); if (k.clear && !k.vocab.empty()) write_file(path("words"), "b\na\n<s>\n");
  return true;
}
static bool reference(Ctx &c, const Cfg &k, Got (&R)[2][NOPS], int need) {
  for (int d = 0; d < 2; d++) { Args b = args(k); if (d) { b.push_back("-F"); b.push_back(FORCE); }
    for (int op : {ARPA, BIN, NARPA, NARPA_NZ}) { if (!(need & (1 << op)) || (d && !(need & (1 << DISC)))) continue; Args a = b; if (op == ARPA) { a.push_back("-a"); for (auto &x : Args{"-W", path("rc"), "-U", path("rv")}) a.push_back(x); } if (op == NARPA || op == NARPA_NZ) a.push_back("-x"); if (op == NARPA_NZ) a.push_back("-Z"); a.push_back(path("text")); a.push_back(path("r")); remove_file(path("r"));
      if (!run_ok(c, "varigram_kn", a)) return false;
      if (op == BIN) { if (!child(c, "reading the tool's binary model", [&] { unbin(path("r")); })) return false; if (!read_got(c, op, path("r.a"), R[d][op])) return false; } else if (!read_got(c, op, path("r"), R[d][op])) return false;
      if (op == ARPA && !(read_got(c, COUNTS, path("rc"), R[d][COUNTS]) && read_got(c, VOCAB, path("rv"), R[d][VOCAB]))) return false; } }
  return true;
}
// every sequence of depth calls on a trained model
static void c_seq(Ctx &c, const Words &text, const Cfg &k, int depth) {
  if (!inputs(c, text, k)) return;
  Got R[2][NOPS]; if (!reference(c, k, R, (1 << NOPS) - 1)) return;
  c.outcome(hash64(R[0][ARPA].text)); if (R[0][ARPA].m.order < 2) c.trivial();
  uint64_t n = 1; for (int i = 0; i < depth; i++) n *= NOPS;
  auto seq = [&](uint64_t i) { std::vector<int> s; for (int j = 0; j < depth; j++) { s.push_back(i % NOPS); i /= NOPS; } return s; };
  const uint64_t B = 243; // every distinct output of the batch becomes a file d<number>, listed in "index"
  std::set<std::string> seen; // outputs compared already
  for (uint64_t b = 0; b < n; b += B) {
    uint64_t e = std::min(n, b + B);
    if (!child(c, "calls on a trained model", [&] { std::string index; int nd = 0; std::set<std::string> had;
      for (uint64_t i = b; i < e; i++) { V v = create(k); prepare(*v, k, {0, 1, 2, 3, 4}, false); v->grow(1); auto s = seq(i); int d = 0;
        for (int j = 0; j < depth; j++) { std::string t = apply(*v, s[j]); if (s[j] == DISC) { d = 1; continue; } int op = what_of(s[j]); if (!had.insert(strf("%d %d ", op, d) + t).second) continue; std::string f = path(strf("d%d", nd++)); write_file(f, t); if (op == BIN) unbin(f); index += strf("%d %llu %d %d\n", s[j], (unsigned long long)i, j, d); } }
      write_file(path("index"), index); })) return;
    c.steps((e - b) * (depth + 3)); c.queries((e - b) * depth);
    std::istringstream is(read_file(path("index"))); int sj, j, d, nd = 0; unsigned long long i;
    while (is >> sj >> i >> j >> d) { int op = what_of(sj); std::string f = path(strf("d%d", nd++)) + (op == BIN ? ".a" : ""); if (!seen.insert(strf("%d %d ", op, d) + read_file(f)).second) continue; Got g; if (!read_got(c, op, f, g) || !compare(c, op, R[d][op], g, names(seq(i)) + strf(": call %d", j + 1))) return; }
    if (!nd) { c.fail("nothing", "no output"); return; }
  }
  c.validated(n);
}
// settings and initialization in every order
static void c_perm(Ctx &c, const Words &text, const Cfg &k) {
  if (!inputs(c, text, k)) return;
  Got R[2][NOPS]; if (!reference(c, k, R, 1 << ARPA)) return;
  c.outcome(hash64(R[0][ARPA].text)); if (R[0][ARPA].m.order < 2) c.trivial();
  std::vector<std::vector<int>> P; std::vector<int> p = {0, 1, 2, 3, 4}; do P.push_back(p); while (std::next_permutation(p.begin(), p.end()));
  std::string last; for (size_t i = 0; i < P.size(); i++) remove_file(path(strf("p%zu", i)));
  if (!child(c, "training", [&] { for (size_t i = 0; i < P.size(); i++) { V v = create(k); prepare(*v, k, P[i], i & 1); v->grow(1); std::string t = apply(*v, ARPA), q = apply(*v, COUNTS); if (t + q == last) continue; last = t + q; write_file(path(strf("p%zu", i)), t); write_file(path(strf("c%zu", i)), q); } })) return;
  c.queries(P.size()); if (!exists(path("p0"))) { c.fail("nothing", "no output"); return; }
  for (size_t i = 0; i < P.size(); i++) { if (!exists(path(strf("p%zu", i)))) continue; std::string what = "settings in the order"; static const char *N[] = {"initialize", "datacost_scale", "datacost_scale2", "max_order", "ngram_prune_target"}; for (int x : P[i]) what += strf(" %s", N[x]); Got g, h; if (!read_got(c, ARPA, path(strf("p%zu", i)), g) || !read_got(c, COUNTS, path(strf("c%zu", i)), h) || !compare(c, ARPA, R[0][ARPA], g, what) || !compare(c, COUNTS, R[0][COUNTS], h, what)) return; }
  c.validated(P.size());
}
static std::vector<Cfg> confs(bool clear, bool held) {
  std::vector<Cfg> r; int n = 0;
  auto add = [&](double d, double d2, int target, int order, std::string cut, bool unks, bool small, int ndrop, int nfirst, std::string opti, std::string vocab) { for (int s = 0; s < 4; s++) { Cfg k; k.kt = n++ % 4 ^ (s & 1) ^ (s & 2); if (k.kt > 3) k.kt = 0; k.three = s & 1; k.abs = s & 2; k.small = small; k.clear = clear; k.unks = unks; k.d = d; k.d2 = d2; k.target = target; k.order = order; k.ndrop = ndrop; k.nfirst = nfirst; k.cut = cut; k.opti = opti; k.vocab = vocab; r.push_back(k); } n++; };
  add(0.00001, 0, 0, 3, "", false, false, 0, -1, "", "");
  add(0.003, 0.01, 0, 0, "", false, false, 0, -1, "", "");
  add(0.00001, 0, 0, 4, "0 1", false, false, 0, -1, "", "");
  add(0.0001, 0, 6, 3, "", false, false, 0, -1, "", "");
  add(0.00001, 0, 0, 3, "", true, true, 0, -1, "", clear ? "words" : "");
  add(-1, 0, 0, 0, "", true, false, clear ? 0 : 2, -1, "", "");
  if (!clear) add(0.00001, 0.003, 7, 3, "0 0 1", true, false, 0, 2, "", "");
  if (held) { add(0.00001, 0, 0, 2, "", false, false, 0, -1, "held", ""); add(0.00001, 0, 0, 3, "", false, false, 0, -1, "held", "words"); }
  return r;
}
static bool build(const std::string &prop, bool th, CheckDef &d) {
  if (prop != "C27") return false;
  load_tools({"varigram_kn"});
  unsigned e = th ? 1 : 0;
  auto fam2 = [&](const std::string &name, TextSpace t, std::vector<Cfg> k, int depth) { Family f; f.name = name; f.timeout_s = 200; unsigned n = k.size(); f.n = t.n * n; auto at = t.at; f.run = [=](uint64_t i, Ctx &c) { if (depth) c_seq(c, at(i / n), k[i % n], depth); else c_perm(c, at(i / n), k[i % n]); }; f.desc = [=](uint64_t i) { return (depth ? strf("sequences of %d calls, ", depth) : std::string("orders of settings, ")) + show(k[i % n]) + " text=[" + join(at(i / n)) + "]"; }; d.families.push_back(f); };
  auto P = confs(false, true), C = confs(true, false);
  fam2("calls2/abc", rgs_space("abc", 3, 1, 4 + e), P, 2);
  fam2("calls2/ab", rgs_space("ab", 2, 6, 6 + e), P, 2);
  fam2("calls2/unk", seq_space("unk", {"a", "<UNK>"}, 2, 3 + e), P, 2);
  fam2("calls2/clear", seq_space("s", {"<s>", "a", "b"}, 2, 3 + e), C, 2);
  fam2("calls2/arith", arith_space("w7", 7, th ? std::vector<unsigned>{20, 60} : std::vector<unsigned>{20}), P, 2);
  fam2("calls3/abc", rgs_space("ab", 2, 5, 5 + e), th ? P : confs(false, false), 3);
  fam2("calls3/clear", seq_space("s", {"<s>", "a"}, 2, 3 + e), C, 3);
  fam2("orders/abc", rgs_space("abc", 3, 1, 4 + e), P, 0);
  fam2("orders/clear", seq_space("s", {"<s>", "a", "b"}, 2, 3 + e), C, 0);
  fam2("orders/arith", arith_space("w7", 7, th ? std::vector<unsigned>{20, 60} : std::vector<unsigned>{20}), P, 0);
  if (th) { fam2("calls4/abc", rgs_space("abc", 3, 4, 5), P, 4); fam2("calls3/arith", arith_space("w7", 7, {20, 60}), P, 3); }
  d.chunk = 2;
  d.rule = "every text x configuration x every sequence of 2 and 3 (thorough 4) calls out of nine that write a trained model (two formats to a stream or by name, interpolated with and without zero-probability n-grams, counts, vocabulary) or force its discounts; each file a call writes against the file the command line tool writes with the corresponding options from the same text; and all 120 orders of the settings and the initialization; non-trivial: model order >= 2";
  d.bounds = "texts <= 4-6 tokens over 2 to 3 letters, arithmetic texts over 7 words; all key and count types; 1/3 discounts; KN/absolute; growing, pruning, cutoffs, size targets, vocabulary limits, held-out text, history clearing, uncached text";
  d.assumptions = {"count files after a model was written may list n-grams with zero count"};
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
