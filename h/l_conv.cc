// C05: conversions between binary, ARPA and interpolated ARPA.
#include "fill.hh"
#include "lmgen.hh"
#include "TreeGram.hh"
#include "HashGram.hh"
#include "Endian.hh"
#include "ArpaReader.hh"
#include "TreeGramArpaReader.hh"
using namespace mc; using namespace vk; using namespace lmgen;

// independent reader of the binary format
static Model parse_bin(const std::string &d) {
  Model m; size_t p = 0; auto line = [&](std::string &l) { size_t e = d.find('\n', p); if (e == std::string::npos) return false; l = d.substr(p, e - p); p = e + 1; return true; };
  std::string l; auto bad = [&](const std::string &w) { m.err = w; return m; };
  if (!line(l) || l != "cis-binlm2") return bad("bad magic");
  if (!line(l)) return bad("no type"); if (l == "interpolated") m.interp = true; else if (l != "backoff") return bad("bad type " + l);
  if (!line(l)) return bad("no word count"); int n = atoi(l.c_str()); for (int i = 0; i < n; i++) { if (!line(l)) return bad("short vocabulary"); m.vocab.push_back(l); m.vset.insert(l); }
  int order, nodes; if (!line(l) || sscanf(l.c_str(), "%d %d", &order, &nodes) != 2) return bad("bad order line");
  m.counts.assign(1, 0); long sum = 0; for (int i = 0; i < order; i++) { if (!line(l)) return bad("short counts"); m.counts.push_back(atol(l.c_str())); sum += m.counts.back(); }
  if (nodes != sum && nodes != sum + 1) return bad("node count"); if (d.size() - p != (size_t)nodes * 16) return bad(strf("%zu bytes of nodes, expected %zu", d.size() - p, (size_t)nodes * 16));
  struct N { int w; float lp, bo; int ch; }; std::vector<N> v(nodes); memcpy((void *)v.data(), d.data() + p, nodes * 16);
  std::vector<uint64_t> seen(order + 1, 0); m.order = order;
  std::function<bool(int, Words &)> rec = [&](int i, Words &k) -> bool {
    if (v[i].w < 0 || v[i].w >= n || (int)k.size() >= order) return false;
    k.push_back(m.vocab[v[i].w]); Entry e; e.lp = v[i].lp; e.bo = v[i].bo; if (!m.g.insert({k, e}).second) return false; seen[k.size()]++;
    if (i + 1 < nodes && v[i].ch > 0 && v[i + 1].ch > v[i].ch) for (int c = v[i].ch; c < v[i + 1].ch; c++) { if (c >= nodes || (c > v[i].ch && v[c].w <= v[c - 1].w) || !rec(c, k)) return false; }
    k.pop_back(); return true; };
  for (int i = 0; i < (int)m.counts[1]; i++) { if (v[i].w != i) return bad("unigram nodes out of place"); Words k; if (!rec(i, k)) return bad("bad node structure"); }
  for (int o = 1; o <= order; o++) if (seen[o] != m.counts[o]) return bad(strf("order %d: %llu n-grams counted, %llu stored", o, (unsigned long long)m.counts[o], (unsigned long long)seen[o]));
  return m;
}
static bool same_grams(Ctx &c, const char *what, const Model &a, const Model &b) {
  if (a.order != b.order) { c.fail("order", "%s: order %d, expected %d", what, b.order, a.order); return false; }
  for (auto &x : a.g) if (!b.g.count(x.first)) { c.fail("ngrams", "%s: n-gram [%s] is missing", what, join(x.first).c_str()); return false; }
  for (auto &x : b.g) if (!a.g.count(x.first)) { c.fail("ngrams", "%s: n-gram [%s] was added", what, join(x.first).c_str()); return false; }
  return true;
}
static bool arpa_ok(Ctx &c, const char *what, const std::string &file, const Model &ref, Model &out, bool interp = false, double re = 6e-5) {
  out = parse_arpa(read_file(file));
  if (!out.err.empty()) { c.fail("arpa", "%s is not well formed: %s", what, out.err.c_str()); return false; }
  if (out.interp != interp) { c.fail("type", "%s is %sinterpolated", what, out.interp ? "" : "not "); return false; }
  return same_grams(c, what, ref, out) && check_same(c, "prob", ref, out, 1e-12, re);
}
static Model with_unk(Model m) { if (!m.vset.count("<UNK>")) { m.vset.insert("<UNK>"); m.vocab.insert(m.vocab.begin(), "<UNK>"); Entry e; e.lp = -99; m.g[{"<UNK>"}] = e; } return m; }
static void c05(Ctx &c, const Model &M0, const Layout &lay) {
  std::string A = render(M0, lay); Model M = parse_arpa(A); if (!M.err.empty()) { c.fail("gen", "generated model: %s", M.err.c_str()); return; }
  M = with_unk(M); c.outcome(hash64(A));
  std::string a = path("a.arpa"), b1 = path("1.bin"), a2 = path("2.arpa"), b2 = path("2.bin"), a3 = path("3.arpa"), a4 = path("4.arpa"), a5 = path("5.arpa");
  write_file(a, A); Model X;
  if (!run_ok(c, "arpa2bin", {a, b1})) return;
  std::string B1 = read_file(b1); Model P = parse_bin(B1);
  if (!P.err.empty()) { c.fail("bin", "binary file: %s", P.err.c_str()); return; }
  if (P.interp) { c.fail("type", "arpa2bin wrote an interpolated binary"); return; }
  if (!same_grams(c, "binary", M, P) || !check_same(c, "prob", M, P, 1e-12, 6e-5)) return;
  if (!run_ok(c, "bin2arpa", {b1, a2}) || !arpa_ok(c, "bin2arpa output", a2, M, X)) return;
  if (!run_ok(c, "arpa2bin", {a2, b2}) || !run_ok(c, "bin2arpa", {b2, a3})) return;
  if (read_file(a2) != read_file(a3)) { c.fail("stable", "binary -> ARPA -> binary -> ARPA changes the file: %s", show(read_file(a3)).c_str()); return; }
  if (!run_ok(c, "arpa2arpa", {a, a4}) || !arpa_ok(c, "arpa2arpa output", a4, M, X)) return;
  if (!run_ok(c, "arpa2arpa", {"-t", a4, a5}) || !arpa_ok(c, "arpa2arpa -t output", a5, M, X)) return;
  std::string t5 = read_file(a5); // three tab separated fields at most
  for (auto &l : {t5}) { size_t p = 0; while (p < l.size()) { size_t e = l.find('\n', p); std::string s = l.substr(p, e - p); p = e + 1; if (s.empty() || s[0] == '\\' || s[0] == 'n') continue; if (s.find('\t') == std::string::npos) { c.fail("tabs", "line without a tab: %s", s.c_str()); return; } } }
  c.validated(1);
}
static bool load(TreeGram &t, const std::string &f, bool bin) { FILE *i = fopen(f.c_str(), "r"); if (!i) return false; t.read(i, bin); fclose(i); return true; }
// library level: typed binary, byte order, hash representation
static void c05_lib(Ctx &c, const Model &M0, const Layout &lay, bool big) {
  std::string A = render(M0, lay); Model M = with_unk(parse_arpa(A)); std::string a = path("a.arpa"), b = path("b.bin"), h = path("h.arpa"); write_file(a, A);
  Endian::big = false; c.outcome(hash64(A));
  TreeGram t; load(t, a, false);
  if ((t.get_type() == NGram::INTERPOLATED) != M.interp) { c.fail("type", "type lost"); return; }
  Endian::big = big; FILE *o = fopen(b.c_str(), "w"); t.write(o, true); fclose(o);
  std::string B = read_file(b);
  if (big) { size_t n = (t.gram_count(1) ? B.size() : 0); (void)n; size_t nodes = 0; for (int i = 1; i <= t.order(); i++) nodes += t.gram_count(i); size_t hd = (B.size() % 16); (void)hd; // locate the node area from the header
    size_t p = 0; for (int i = 0, nl = 3 + t.num_words() + 1 + t.order(); i < nl; i++) p = B.find('\n', p) + 1;
    std::string S = B; for (size_t i = p; i + 4 <= S.size(); i += 4) { std::swap(S[i], S[i + 3]); std::swap(S[i + 1], S[i + 2]); }
    Endian::big = false; Model P = parse_bin(S); if (!P.err.empty()) { c.fail("endian", "byte-swapped write: %s", P.err.c_str()); return; } if (!same_grams(c, "byte-swapped write", M, P) || !check_same(c, "endian", M, P, 1e-12, 2e-6)) return; Endian::big = true; }
  else { Model P = parse_bin(B); if (!P.err.empty()) { c.fail("bin", "%s", P.err.c_str()); return; } if (P.interp != M.interp) { c.fail("type", "binary type differs"); return; } if (!same_grams(c, "binary write", M, P) || !check_same(c, "prob", M, P, 1e-12, 2e-6)) return; }
  TreeGram t2; load(t2, b, true); Endian::big = false;
  if (t2.get_type() != t.get_type() || t2.order() != t.order() || t2.num_words() != t.num_words()) { c.fail("bin-read", "binary re-read: type %d order %d words %d", t2.get_type(), t2.order(), t2.num_words()); return; }
  uint64_t q = 0; bool good = true;
  for_contexts(M.vocab, M.order, [&](const Words &ctx) { for (auto &w : M.vocab) { std::vector<int> g; for (auto &x : ctx) g.push_back(t.word_index(x)); g.push_back(t.word_index(w)); q++; Words k = ctx; k.push_back(w);
      double p = pow(10, t.log_prob(g)), p2 = pow(10, t2.log_prob(g)), r = M.prob(k);
      if (std::fabs(p - r) > 1e-12 + 1e-5 * r || p != p2) { c.fail("prob", "P(%s | %s): %.8g before, %.8g after writing and reading, reference %.8g", w.c_str(), join(ctx).c_str(), p, p2, r); return good = false; } } return true; });
  c.queries(q); if (!good) return;
  for (int small = 0; small < 2; small++) {
    HashGram *hg = small ? (HashGram *)new HashGram_t<unsigned short> : (HashGram *)new HashGram_t<int>;
    FILE *i = fopen(a.c_str(), "r"); hg->read(i); fclose(i); o = fopen(h.c_str(), "w"); hg->write(o); fclose(o); delete hg;
    Model X = parse_arpa(read_file(h)); if (!X.err.empty()) { c.fail("hash-arpa", "hash representation wrote: %s", X.err.c_str()); return; }
    if (X.interp != M.interp) { c.fail("type", "hash representation: type changed"); return; }
    for (auto &x : M.g) if ((x.second.lp > -60 || x.second.bo != 0) && !X.g.count(x.first)) { c.fail("hash-ngrams", "hash representation lost [%s]", join(x.first).c_str()); return; }
    for (auto &x : X.g) if (!M.g.count(x.first)) { c.fail("hash-ngrams", "hash representation added [%s]", join(x.first).c_str()); return; }
    for (auto &w : M.vocab) if (!X.vset.count(w)) { X.vset.insert(w); X.vocab.push_back(w); } // words without probability may be dropped
    X.order = M.order; if (!check_same(c, "hash-prob", M, X, 1e-12, 3e-4 * M.order)) return;
  }
  c.validated(1);
}
// add_zeroprob_grams completes prefixes and changes nothing else
static void c05_zpg(Ctx &c, const Shape &s, Kind k, bool small, uint64_t dropmask) {
  Model M = make(s, k); // drop inner n-grams (keeping a proper distribution is not needed here: the evaluator defines the meaning)
  Model D = M; std::vector<Words> inner; for (auto &x : M.g) if (x.first.size() > 1 && (int)x.first.size() < M.order) inner.push_back(x.first);
  bool any = false; for (size_t i = 0; i < inner.size() && i < 6; i++) if (dropmask >> i & 1) { if (D.g.at(inner[i]).bo != 0) continue; D.g.erase(inner[i]); any = true; }
  if (!any && dropmask) { c.trivial(); }
  // an n-gram with a back-off weight keeps its entry; drop only the probability of a prefix is impossible in ARPA
  std::string A = render(D); Model R = parse_arpa(A); if (!R.err.empty()) { c.trivial(); return; }
  write_file(path("a"), A); Args a = {path("a"), path("o")}; if (small) a.insert(a.begin(), "-s");
  if (!run_ok(c, "add_zeroprob_grams", a)) return; c.outcome(hash64(A));
  Model X = parse_arpa(read_file(path("o"))); if (!X.err.empty()) { c.fail("zpg-arpa", "add_zeroprob_grams wrote: %s", X.err.c_str()); return; }
  for (auto &x : R.g) if ((x.second.lp > -60 || x.second.bo != 0) && !X.g.count(x.first)) { c.fail("zpg-lost", "[%s] lost", join(x.first).c_str()); return; }
  for (auto &x : X.g) { Words p = x.first; p.pop_back(); if (!p.empty() && !X.g.count(p)) { c.fail("zpg-prefix", "[%s] has no prefix", join(x.first).c_str()); return; }
    if (!R.g.count(x.first)) { bool need = false; for (auto &y : R.g) need |= y.first.size() > x.first.size() && std::equal(x.first.begin(), x.first.end(), y.first.begin()); if (!need) { c.fail("zpg-extra", "[%s] was not needed", join(x.first).c_str()); return; } } }
  X.order = R.order;
  if (M.interp && !check_same(c, "zpg-prob", R, X, 1e-12, 3e-4 * M.order)) return;
  c.validated(1);
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C05") return false;
  load_tools({"arpa2bin", "bin2arpa", "arpa2arpa", "add_zeroprob_grams"});
  auto S3 = std::make_shared<std::vector<Shape>>(), SS = std::make_shared<std::vector<Shape>>(), ST = std::make_shared<std::vector<Shape>>(), S4 = std::make_shared<std::vector<Shape>>();
  shapes_bi(*S3, {"<UNK>", "a", "b"}, {"<UNK>", "a", "b"}, {"<UNK>", "a", "b"}, thorough ? 2 : 1, 1);
  shapes_bi(*SS, {"<UNK>", "<s>", "a", "</s>"}, {"<s>", "a"}, {"<UNK>", "a", "</s>"}, 2);
  shapes_bi(*SS, {"b", "a"}, {"a", "b"}, {"a", "b"}, 2); // no unknown word in the file
  shapes_tree(*ST, {"<UNK>", "a"}, {"a", "<UNK>"}, {"<UNK>", "a"}, 3);
  shapes_tree(*S4, {"<UNK>", "a", "b"}, {"a"}, {"a", "b"}, 4);
  shapes_tree(*S4, {"<UNK>", "a"}, {"<UNK>"}, {"<UNK>", "a"}, 4);
  static const Kind K[] = {BO_NEG, BO_POS, INTERP, INTERP_BK};
  auto fam = [&](const std::string &n, std::shared_ptr<std::vector<Shape>> s, unsigned kinds, const std::string &zero, unsigned step) {
    Family f; f.name = n; f.n = (s->size() + step - 1) / step * kinds;
    f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = K[g.next(kinds)]; Layout l; l.sep = g.i % 2; const Shape &sh = (*s)[g.i * step]; c05(c, make(sh, k, zero.size() && std::find(sh.vocab.begin(), sh.vocab.end(), zero) != sh.vocab.end() ? zero : ""), l); };
    f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(kinds); return strf("kind %d ", k) + show_shape((*s)[g.i * step]); };
    d.families.push_back(f); };
  auto lib = [&](const std::string &n, std::shared_ptr<std::vector<Shape>> s, const std::string &zero) {
    Family f; f.name = n; f.n = s->size() * 8;
    f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = K[g.next(4)]; bool big = g.next(2); const Shape &sh = (*s)[g.i]; c05_lib(c, make(sh, k, zero.size() && std::find(sh.vocab.begin(), sh.vocab.end(), zero) != sh.vocab.end() ? zero : ""), Layout(), big); };
    f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), big = g.next(2); return strf("kind %d big-endian %d ", k, big) + show_shape((*s)[g.i]); };
    d.families.push_back(f); };
  fam("conv-sent", SS, 4, "<s>", 1); fam("conv-3words", S3, 4, "", thorough ? 1 : 7); fam("conv-trees3", ST, 4, "", 1); fam("conv-trees4", S4, 4, "", 1);
  lib("lib-sent", SS, "<s>"); lib("lib-3words", S3, ""); lib("lib-trees3", ST, ""); lib("lib-trees4", S4, "");
  { auto N = std::make_shared<std::vector<unsigned>>(); for (unsigned k = 6; k <= 40; k += thorough ? 1 : 2) N->push_back(k); for (unsigned k : {64, 100, 128, 200, 255, 256, 257}) if (thorough || k < 130) N->push_back(k);
    Family f; f.name = "conv-many-successors"; f.timeout_s = 300; f.n = N->size() * 2 * 2; auto dec = [=](uint64_t i, int &k, int &lb) { Digits g(i); lb = g.next(2); k = (g.next(2) * 2 + g.i) % 4; return (*N)[g.i]; };
    f.run = [=](uint64_t i, Ctx &c) { int k, lb; unsigned n = dec(i, k, lb); Shape s = wide_shape(n + n / 2 + 4, n, n % 3, n % 2); if (lb && n < 60) c05_lib(c, make(s, K[k]), Layout(), n % 2); else c05(c, make(s, K[k]), Layout()); }; f.desc = [=](uint64_t i) { int k, lb; unsigned n = dec(i, k, lb); return strf("%u successors, kind %d, %s", n, k, lb ? "library" : "tools"); }; d.families.push_back(f); }
  { Family f; f.name = "long-chains"; f.n = 32 * 4 * 3 * 2; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int k = g.next(4), lb = g.next(2), m = g.next(32); Shape s = chain_shape(5 + g.i, m); if (lb) c05_lib(c, make(s, K[k]), Layout(), m & 1); else c05(c, make(s, K[k]), Layout()); }; f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), lb = g.next(2), m = g.next(32); return strf("order %d, chain form %d, kind %d, %s", 5 + (int)g.i, m, k, lb ? "library" : "tools"); }; d.families.push_back(f); }
  { // words that look like parts of the file formats
    auto W = std::make_shared<Words>(Words{"\\data\\", "\\end\\", "\\1-grams:", "\\2-grams:", "\\interpolated", "ngram", "-1.5", "0", "1e5", "nan", "#", "#x", "=", "a=b", "_", "__", "(", "a(2)", ",", ";", "backoff", "interpolated", "cis-binlm2", "%s", "%d%n", "\"", "'", "\xc3\xa4", "\xff", "\x01", "\v", "\f", "a\vb", "<unk>", "UNK", "<s>", "</s>", "-", "--", "*", "\\", "a\\", std::string(999, 'x'), std::string(1000, 'y')});
    for (auto it = W->begin(); it != W->end();) if (*it == "\v" || *it == "\f" || *it == "a\vb") it = W->erase(it); else ++it; // blanks
    size_t n = W->size(); Family f; f.name = "odd-words"; f.n = n * 4 * 2 * 2; auto shape = [=](size_t a, bool first) { const std::string &x = (*W)[a], &y = (*W)[(a * 7 + 3) % n]; Shape s; s.vocab = {"<UNK>", "a", x}; if (first) s.vocab = {x, "<UNK>", "a"}; if (y != x) s.vocab.push_back(y); s.order = 3; s.grams = {{x, "a"}, {"a", x}, {x, x}, {x, y}, {"a", x, "a"}, {x, x, y}, {y, x}}; return s; };
    f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = K[g.next(4)]; bool lb = g.next(2), first = g.next(2); Shape s = shape(g.i, first); if (lb) c05_lib(c, make(s, k), Layout(), false); else c05(c, make(s, k), Layout()); }; f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(4), lb = g.next(2), first = g.next(2); return strf("kind %d, %s, ", k, lb ? "library" : "tools") + show(show_shape(shape(g.i, first))); }; d.families.push_back(f); }
  { Family f; f.name = "prefix-completion"; f.n = S4->size() * 2 * 2 * 8; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); Kind k = g.next(2) ? INTERP_BK : BO_NEG; bool sm = g.next(2); uint64_t dm = g.next(8); c05_zpg(c, (*S4)[g.i], k, sm, dm); };
    f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(2), sm = g.next(2), dm = g.next(8); return strf("interpolated %d small %d drop %d ", k, sm, dm) + show_shape((*S4)[g.i]); }; d.families.push_back(f); }
  d.chunk = 32;
  d.rule = "Every prefix-closed n-gram set in the stated space, as back-off model with weights below and above one and as interpolated model with and without probability-free bookkeeping entries, is converted ARPA to binary to ARPA to binary to ARPA and interpolated/standard ARPA to standard ARPA by the tools, and written and re-read in both byte orders and through the hash representation in the library. Every output is read by an independent reader (ARPA and binary) and every word after every context compared with an independent evaluation of the input.";
  d.bounds = "all bigram sets over 3 words with 0/1/all-but-one/all trigrams (thorough: also pairs), sentence-marked vocabularies, all prefix-closed sets to order 3 over 2 words and to order 4 below one word; chains to order 7; 6 to 128 (thorough 257) successors; 40 odd words";
  d.assumptions = {"contexts without extensions carry no back-off weight (true of every normalized model)", "a missing <UNK> is added with (almost) no probability"};
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
