// C26: what the diagnostic tools report about a model.
#include "lmgen.hh"
using namespace mc; using namespace vk; using namespace lmgen;
// one unnormalized or odd model made from a normalized one
static Model damage(Model m, unsigned how, unsigned which) { // how 0 none, 1 raised, 2 lowered a little, 3 lowered a lot
  if (!how) return m; auto it = m.g.begin(); std::advance(it, which % m.g.size()); double p = pow(10, it->second.lp); static const double F[] = {1, 1.3, 0.995, 0.5}; p = std::min(1.0, p * F[how]); it->second.lp = p > 0 ? r6(log10(p)) : -99; return m;
}
static double sum(const Model &m, const Words &ctx) { Words w = ctx; w.push_back(""); double s = 0; for (auto &x : m.vocab) { w.back() = x; s += m.prob(w); } return s; }
static void c_size(Ctx &c, const Model &M0, bool bin) {
  std::string A = render(M0); Model M = parse_arpa(A); if (!M.err.empty()) { c.fail("gen", "%s", M.err.c_str()); return; }
  write_file(path("m.arpa"), A); c.outcome(hash64(A)); std::string m = path("m.arpa");
  if (bin) { if (M.interp) { c.trivial(); return; } if (!run_ok(c, "arpa2bin", {m, path("m.bin")})) return; m = path("m.bin"); }
  if (!run_ok(c, "arpasize", bin ? Args{m, path("o")} : Args{"-a", m, path("o")})) return;
  std::vector<long> lo(M.order + 1, 0), hi(M.order + 1, 0);
  for (auto &x : M.g) { int o = x.first.size(); bool yes = true, no = false;
    if (o > 1) { double a = log10(std::max(1e-300, M.prob(x.first))), b = log10(std::max(1e-300, M.prob(Words(x.first.begin() + 1, x.first.end())))); a = std::max(a, -99.0); b = std::max(b, -99.0);
      if (x.second.bo >= -0.9e-6) { double d = a == 0 ? (b == 0 ? 1 : 1e9) : std::fabs((a - b) / a); yes = d >= 0.00503; no = d < 0.00497; if (std::fabs(a) < 1e-5) yes = no = false; } }
    if (!no) hi[o]++; if (yes) lo[o]++; }
  std::istringstream is(read_file(path("o"))); std::string l; long tot = 0, seen = 0; bool end = false;
  while (std::getline(is, l)) { long o, n; c.queries(1); if (end) { c.fail("size", "arpasize: text after the total"); return; }
    if (sscanf(l.c_str(), "%ld-grams: %ld", &o, &n) == 2 && o == seen + 1 && o <= M.order) { seen = o; tot += n; if (n < lo[o] || n > hi[o]) { c.fail("size", "arpasize reports %ld %ld-grams, expected %ld", n, o, lo[o]); return; } continue; }
    if (sscanf(l.c_str(), "Total grams: %ld", &n) == 1) { end = true; if (n != tot || seen != M.order) { c.fail("size", "arpasize reports a total of %ld after %ld orders, expected %ld after %d", n, seen, tot, M.order); return; } continue; }
    c.fail("size", "arpasize writes: %s", l.c_str()); return; }
  if (!end) { c.fail("size", "arpasize writes no total"); return; }
  if (!bin) { if (!run_ok(c, "arpasize", {"-a", "-S", m, path("o")})) return; std::string e; long t = 0; for (int o = 1; o <= M.order; o++) { e += strf("%d-grams: %ld\n", o, (long)M.counts[o]); t += M.counts[o]; } e += strf("--\ntotal %ld n-grams\n", t); std::string g = read_file(path("o")); c.queries(1); if (g != e) { c.fail("simple-size", "arpasize -S writes %s, expected %s", show(g).c_str(), show(e).c_str()); return; } }
  c.validated(1);
}
static void c_check(Ctx &c, const Model &M0, int mode, const Words &oov) { // mode 0 tree, 1 hash, 2 binary
  std::string A = render(M0); Model M = parse_arpa(A); if (!M.err.empty()) { c.fail("gen", "%s", M.err.c_str()); return; }
  if (M.interp && mode == 2) { c.trivial(); return; }
  write_file(path("m.arpa"), A); c.outcome(hash64(A)); Args base = {"-a", path("m.arpa")}; if (mode == 1) base.insert(base.begin(), "-f");
  if (mode == 2) { if (!run_ok(c, "arpa2bin", {path("m.arpa"), path("m.bin")})) return; base = {path("m.bin")}; }
  RunOpt ro; ro.keep_err = true; Words al = M.vocab; al.push_back("zz"); uint64_t q = 0; bool good = true;
  auto known = [&](const Words &w) { Words r; for (auto &x : w) r.push_back(M.vset.count(x) ? x : "<UNK>"); return r; };
  // single contexts
  for_contexts(al, M.order, [&](const Words &ctx0) { Words ctx = known(ctx0); write_file(path("t"), join(ctx0) + "\n"); Args a = base; a.push_back(path("t")); Res r; if (!run_ok(c, "check_model", a, &r, ro)) return good = false;
    std::istringstream is(r.err); std::string l; size_t i = 0; double s = sum(M, ctx), best = -1, best2 = -1; bool gs = false, g1 = false, g2 = false; Words k = ctx; k.push_back("");
    std::vector<double> ps; for (auto &w : M.vocab) { k.back() = w; ps.push_back(M.prob(k)); } auto so = ps; std::sort(so.rbegin(), so.rend()); best = so[0]; best2 = so.size() > 1 ? so[1] : -1;
    while (std::getline(is, l)) { char w[64]; int id, o; double p;
      if (sscanf(l.c_str(), "%63[^:]: %d -> %lg (order %d)", w, &id, &p, &o) == 4) { if (id != (int)i || i >= M.vocab.size()) { c.fail("words", "check_model lists word %d at position %zu", id, i); return good = false; } k.back() = w; if (!M.vset.count(w)) { c.fail("words", "check_model lists the word %s", w); return good = false; } int h = 0; double e = M.prob(k, &h); q++; if (std::fabs(p - e) > 1e-12 + 2e-5 * e || (e > 1e-60 && o != h && M.g.at(Words(k.end() - h, k.end())).lp > -60)) { c.fail("word-prob", "check_model: P(%s | %s) = %g (order %d), expected %g (order %d)", w, join(ctx).c_str(), p, o, e, h); return good = false; } i++; }
      else if (sscanf(l.c_str(), "Sum %lg", &p) == 1) { gs = true; q++; if (std::fabs(p - s) > 1e-5 + 2e-5 * s) { c.fail("sum", "check_model: the sum after [%s] is %g, expected %g", join(ctx).c_str(), p, s); return good = false; } }
      else if (sscanf(l.c_str(), "Most probable %63[^,], %lg", w, &p) == 2) { g1 = true; k.back() = w; if (std::fabs(p - best) > 1e-12 + 2e-5 * best || std::fabs(M.prob(k) - best) > 2e-5 * best) { c.fail("best", "check_model: most probable after [%s]: %s %g, expected %g", join(ctx).c_str(), w, p, best); return good = false; } }
      else if (sscanf(l.c_str(), "Second most probable %63[^,], %lg", w, &p) == 2) { g2 = true; k.back() = w; if (std::fabs(p - best2) > 1e-12 + 2e-5 * best2 || std::fabs(M.prob(k) - best2) > 2e-5 * best2) { c.fail("best", "check_model: second most probable after [%s]: %s %g, expected %g", join(ctx).c_str(), w, p, best2); return good = false; } } }
    if (i != M.vocab.size() || !gs || !g1 || !g2) { c.fail("report", "check_model: incomplete report after [%s]: %zu words", join(ctx).c_str(), i); return good = false; }
    return true; });
  if (!good) return; c.steps(q);
  // a text: every position (the words since its start, as far back as the order) is judged
  Words text; for_contexts(al, 2, [&](const Words &w) { text.insert(text.end(), w.begin(), w.end()); return true; }); write_file(path("t"), join(text) + "\n"); long must = 0, may = 0; std::multiset<std::string> e1, e2; Words kt = known(text);
  for (size_t i = 0; i < kt.size(); i++) { size_t b = i + 1 >= (size_t)M.order ? i + 1 - M.order : 0; Words ctx(kt.begin() + b, kt.begin() + i + 1); double s = sum(M, ctx); bool no = s > 0.99 + 1e-5 && s < 1.001 - 1e-5, yes = s < 0.99 - 1e-5 || s > 1.001 + 1e-5; if (!no) { may++; e2.insert(join(ctx)); } if (yes) { must++; e1.insert(join(ctx)); } }
  Args a = base; a.insert(a.begin(), "-d"); a.push_back(path("t")); Res r; if (!run_ok(c, "check_model", a, &r, ro)) return;
  std::istringstream is(r.err); std::string l; long e = -1, n = -1, lines = 0; std::multiset<std::string> got;
  while (std::getline(is, l)) { size_t p; if (l.compare(0, 15, "Sum failed for ") == 0 && (p = l.find(" = ")) != std::string::npos) { got.insert(l.substr(15, p - 15)); lines++; } sscanf(l.c_str(), "Done, %ld/%ld errors found.", &e, &n); }
  if (n != (long)text.size() || e < must || e > may || lines != e) { c.fail("errors", "check_model -d: %ld of %ld positions (%ld lines), expected %ld of %zu", e, n, lines, must, text.size()); return; }
  for (auto &x : e1) if (got.count(x) < e1.count(x)) { c.fail("errors", "check_model -d does not report [%s]", x.c_str()); return; }
  for (auto &x : got) if (e2.count(x) < got.count(x)) { c.fail("errors", "check_model -d reports [%s]", x.c_str()); return; }
  c.queries(q + text.size()); c.validated(1);
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C26") return false;
  load_tools({"arpasize", "check_model", "arpa2bin"});
  auto S = std::make_shared<std::vector<Shape>>(), T = std::make_shared<std::vector<Shape>>();
  shapes_bi(*S, {"<UNK>", "a", "b"}, {"a", "b"}, {"<UNK>", "a", "b"}, 1);
  shapes_tree(*S, {"<UNK>", "a"}, {"a", "<UNK>"}, {"<UNK>", "a"}, 3); shapes_tree(*S, {"<UNK>", "a", "b"}, {"a"}, {"a", "b"}, 4);
  for (auto &s : *S) if (s.vocab.size() == 2 || s.order != 3) T->push_back(s);
  static const Kind K[] = {BO_NEG, BO_POS, INTERP, INTERP_BK};
  unsigned st = thorough ? 1 : 29, sz = thorough ? 1 : 3;
  { Family f; f.name = "sizes"; f.n = (S->size() + sz - 1) / sz * 4 * 2 * 4; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = K[g.next(4)]; bool b = g.next(2); unsigned h = g.next(4); c_size(c, damage(make((*S)[g.i * sz], k), h, g.i), b); }; f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), b = g.next(2), h = g.next(4); return strf("arpasize, kind %d, binary %d, damage %d ", k, b, h) + show_shape((*S)[g.i * sz]); }; d.families.push_back(f); }
  { Family f; f.name = "checks"; f.timeout_s = 120; f.n = (T->size() + st - 1) / st * 4 * 3 * 4; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = K[g.next(4)]; int b = g.next(3); unsigned h = g.next(4); c_check(c, damage(make((*T)[g.i * st], k), h, g.i), b, {}); }; f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), b = g.next(3), h = g.next(4); return strf("check_model, kind %d, representation %d, damage %d ", k, b, h) + show_shape((*T)[g.i * st]); }; d.families.push_back(f); }
  { Family f; f.name = "large-sizes"; f.timeout_s = 300; f.n = 4 * 2 * 4 * 3 * 4; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = K[g.next(4)]; bool b = g.next(2); unsigned h = g.next(4), o = 2 + g.next(3), z = g.next(4); c_size(c, damage(make(text_shape(thorough ? 400 : 100, 0, 200 << z, o, 1 + z), k), h, 37 * g.i + i), b); }; f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), b = g.next(2), h = g.next(4), o = 2 + g.next(3), z = g.next(4); return strf("arpasize, kind %d, binary %d, damage %d, all n-grams up to %d words of a text of %d words", k, b, h, o, 200 << z); }; d.families.push_back(f); }
  { Family f; f.name = "large-checks"; f.timeout_s = 300; f.n = 4 * 3 * 4 * 2; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = K[g.next(4)]; int b = g.next(3); unsigned h = g.next(4); c_check(c, damage(make(text_shape(thorough ? 40 : 20, 0, 300, 2, 1 + g.i), k), h, 37 * i), b, {}); }; f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), b = g.next(3), h = g.next(4); return strf("check_model, kind %d, representation %d, damage %d, all word pairs of a text of 300 words (text %d)", k, b, h, (int)g.i); }; d.families.push_back(f); }
  d.chunk = 16;
  d.rule = "Every model of the space, intact and with one n-gram's probability raised, lowered a little or halved: the sizes arpasize reports per order and in total, and its plain mode; check_model's word probabilities, hit orders, sum and most probable words after every context up to the model order (unknown words included), and the positions it reports as wrong for a text that contains every word pair; all against an independent evaluator of the ARPA file.";
  d.bounds = strf("%zu models of order 1 to 4 over 2 or 3 words; back-off and interpolated; ARPA, hash and binary representations; arpasize on every %u., check_model on every %u. of them; arpasize on models of texts of 200 to 1600 words, check_model on models of 300-word texts", S->size(), sz, st);
  d.assumptions = {"sums within 1e-5 of check_model's limits and n-grams within 0.6 % of arpasize's limit may be judged either way"};
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
