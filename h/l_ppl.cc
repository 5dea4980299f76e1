// C08 C25: perplexity accounting and scorer state.  C09 C10: mixtures of models.
#include "fill.hh"
#include "lmgen.hh"
#include "seq.hh"
#include "TreeGram.hh"
#include "HashGram.hh"
#include "InterTreeGram.hh"
#include "PerplexityFuncs.hh"
#include <fcntl.h>
#include <unistd.h>
using namespace mc; using namespace vk; using namespace lmgen;
static const Kind K[] = {BO_NEG, BO_POS, INTERP, INTERP_BK};
template <class T> static std::shared_ptr<NGram> load(const std::string &A, const std::string &unk) { auto t = std::make_shared<T>(); t->set_oov(unk); FILE *f = fmemopen((void *)A.data(), A.size(), "r"); t->read(f, false); fclose(f); return t; }
static std::shared_ptr<NGram> load_rep(int rep, const std::string &A, const std::string &unk = "<UNK>") { return rep == 0 ? load<TreeGram>(A, unk) : rep == 1 ? load<HashGram_t<int>>(A, unk) : load<HashGram_t<unsigned short>>(A, unk); }
static const char *REP[] = {"tree", "hash", "small hash", "binary"};
struct Quiet { int sv; Quiet() { fflush(stderr); sv = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { fflush(stderr); dup2(sv, 2); close(sv); } };
// ---------------------------------------------------------------- reference scorer
enum Wb { EVERY, LISTED, MB };
struct Opt { Wb wb = EVERY; std::set<std::string> breaks, cues; Words marks; bool score_unk = false; int init = 0; };
struct RefTok { double lp = 0, word_lp = 0; int order = 0; bool scored = false, order_known = true; };
struct RefScorer {
  const Model *M; Opt o; std::string unk = "<UNK>"; std::function<double(const Words &, int *, bool *)> prob; bool has(const std::string &w) const { return known ? known->count(w) : M->vset.count(w); } const std::set<std::string> *known = nullptr;
  Words hist; int left = 0; double pend = 0; bool pend_unk = false;
  long words = 0, toks = 0, unks = 0, tunks = 0, cues = 0, ends = 0; double lp = 0, wlp = 0; std::vector<long> hits; bool hits_known = true; int order;
  RefScorer(const Model &m, const Opt &op) : M(&m), o(op) { left = o.init; order = m.order; hits.assign(order + 1, 0);
    prob = [this](const Words &k, int *h, bool *sure) { double p = M->prob(k, h); if (*h < 1) *h = 1; Words e(k.end() - *h, k.end()); auto it = M->g.find(e); *sure = it != M->g.end() && it->second.lp > -60; return p; }; }
  void clear() { hist.clear(); left = o.init; pend = 0; pend_unk = false; }
  bool marked(const std::string &w) const { for (auto &p : o.marks) { if (p[0] == '^') { if (w.compare(0, p.size() - 1, p, 1, std::string::npos) == 0) return true; } else if (p.back() == '$') { std::string s = p.substr(0, p.size() - 1); if (w.size() >= s.size() && w.compare(w.size() - s.size(), s.size(), s) == 0) return true; } } return false; }
  bool ends_word(const std::string &w) const { return o.wb == EVERY || (o.wb == LISTED ? has(w) && o.breaks.count(w) : !marked(w)); }
  RefTok token(const std::string &w) {
    RefTok r; bool kn = has(w) && w != unk; std::string h = kn ? w : unk;
    if (left > 0 && left == o.init) hist.clear();
    if (left > 0) { if (w != "<s>" && ends_word(w)) words++; left--; hist.push_back(h); return r; }
    if (w == "</s>") { left = o.init; ends++; }
    if (!kn) {
      tunks++;
      if (o.wb == EVERY) unks++;
      else if (o.wb == MB && !marked(w)) { unks++; if (!o.score_unk) { r.word_lp = pend; pend = 0; } }
      else pend_unk = true;
      if (!o.score_unk) { hist.push_back(h); return r; }
    }
    if (kn && o.cues.count(w)) { cues++; hist.push_back(h); return r; }
    hist.push_back(h); Words k(hist.size() > (size_t)order ? hist.end() - order : hist.begin(), hist.end()); bool sure = true; double p = prob(k, &r.order, &sure);
    r.lp = p > 0 ? log10(p) : -60; r.scored = true; r.order_known = sure; if (!sure) hits_known = false; hits[0]++; if (r.order < (int)hits.size()) hits[r.order]++; toks++; pend += r.lp;
    if (ends_word(w)) { if (pend_unk) { unks++; if (o.score_unk) { r.word_lp = pend; words++; } pend_unk = false; } else { r.word_lp = pend; words++; } pend = 0; }
    return r;
  }
  void add(const RefTok &t) { lp += t.lp; wlp += t.word_lp; }
};
static bool num_eq(const std::string &a, const std::string &e, double rel) {
  if (a == e) return true; char *p, *q; double x = strtod(a.c_str(), &p), y = strtod(e.c_str(), &q); if (p == a.c_str() || q == e.c_str() || std::string(p) != q) return false;
  if (e.find_first_not_of("-0123456789,") == std::string::npos || e.find('.') == std::string::npos) { if (e.find('e') == std::string::npos && e.find("nan") == std::string::npos && e.find("inf") == std::string::npos) { if (e.find('.') == std::string::npos && a.find('.') == std::string::npos && a.find('e') == std::string::npos) return false; } }
  if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y); if (std::isinf(x) || std::isinf(y)) return x == y || std::fabs(y) > 1e30 || std::fabs(x) > 1e30;
  size_t dot = q - e.c_str(), d = 0; size_t pt = e.find('.'); if (pt != std::string::npos && e.find('e') == std::string::npos) d = dot - pt - 1; return std::fabs(x - y) <= rel * std::fabs(y) + (pt != std::string::npos ? 1.01 * pow(10, -(double)d) : 0);
}
static bool text_eq(Ctx &c, const char *what, const std::string &out, const std::string &exp, const std::string &in) {
  auto a = split_ws(out), e = split_ws(exp); size_t n = std::max(a.size(), e.size());
  for (size_t i = 0; i < n; i++) if (i >= a.size() || i >= e.size() || !num_eq(a[i], e[i], 3e-4)) { c.fail("report", "%s, text [%s]: field %zu is %s, expected %s; output: %s", what, show(in).c_str(), i + 1, i < a.size() ? a[i].c_str() : "missing", i < e.size() ? e[i].c_str() : "nothing", show(out).c_str()); return false; }
  return true;
}
static std::string report(const RefScorer &r, bool hits, double wlp_total) { // the report the counters lead to
  std::string s; long U = r.unks, T = r.tunks; if (r.o.wb == EVERY) { U = T; T = 0; } double W = r.words, C = r.cues, tk = r.toks; bool sk = !r.o.score_unk;
  if (sk) { s += strf("Dropped: %ld UNKS, %.2f %%\n", U, 100.0 * U / (W + U + C)); if (r.o.wb != EVERY) s += strf("%ld TUNKS, %.2f %%\n", T, 100.0 * T / (tk + T + C)); }
  else { s += strf("Found: %ld UNKS, %.2f %%\n", U, 100.0 * U / (W + C)); if (r.o.wb != EVERY) s += strf("%ld TUNKS, %.2f %%\n", T, 100.0 * T / (tk + C)); }
  if (r.o.cues.size()) s += sk ? strf("%ld context cues\n", r.cues) : strf("Dropped: %ld context cues\n", r.cues);
  s += strf("Processed: %ld words\n", r.words); if (r.o.wb != EVERY) s += strf("%ld tokens\n", r.toks);
  s += strf("Total: %ld words\n", r.words + (sk ? U : 0) + r.cues); if (r.o.wb != EVERY) s += strf("%ld tokens\n", r.toks + (sk ? T : 0) + r.cues);
  auto block = [&](double total, double n, const char *lab) { double x = total / n; s += strf("%s %.2f (- %.0fth root) = %.3f bits\n", lab, pow(10, -x), n, -x / log10(2.0)); };
  s += strf("Logprob %.6f\n", wlp_total); block(wlp_total, W, "Perplexity"); block(wlp_total, W - r.ends, "Perplexity (sentence ends not in normalization)");
  if (r.words != r.toks) { s += strf("Tokenwise logprob %.6f\n", r.lp); block(r.lp, tk, "Tokenwise perplexity"); }
  if (hits) { s += "Ngram hit rates:\n"; for (int i = 1; i <= r.order; i++) s += strf("%d: %.3f\n", i, 100.0 * r.hits[i] / r.hits[0]); }
  return s;
}
static std::string strip_hits(const std::string &s) { size_t p = s.find("Ngram hit rates"); return p == std::string::npos ? s : s.substr(0, p); }
static bool stream_eq(Ctx &c, const char *what, const std::string &st, const Words &toks, const std::vector<RefTok> &r, const std::string &in, bool orders = true) {
  auto f = split_ws(st); if (f.size() != toks.size() * 6) { c.fail("stream", "%s, text [%s]: stream has %zu fields, expected %zu: %s", what, show(in).c_str(), f.size(), toks.size() * 6, show(st).c_str()); return false; }
  for (size_t i = 0; i < toks.size(); i++) { const std::string *x = &f[i * 6]; double p = atof(x[1].c_str()), e = pow(10, r[i].lp); int o = atoi(x[3].c_str()); double w = atof(x[5].c_str());
    if (x[0] != toks[i] || !(std::fabs(p - e) <= 1e-5 * e + 1e-12) || (orders && r[i].order_known && o != r[i].order) || !(std::fabs(w - r[i].word_lp) <= 1.1e-4 + 1e-5 * std::fabs(r[i].word_lp))) { c.fail("stream", "%s, text [%s], token %zu: stream says %s %s order %d word %s; expected %s %g order %d word %.4f", what, show(in).c_str(), i + 1, x[0].c_str(), x[1].c_str(), o, x[5].c_str(), toks[i].c_str(), e, r[i].order, r[i].word_lp); return false; } }
  return true;
}
// ---------------------------------------------------------------- C08
struct Set { std::string name; Opt o; Words al; std::string wbf, mbf, ccf; };
static std::vector<Set> sets() {
  std::vector<Set> v;
  for (int unk = 0; unk < 2; unk++) for (int init = 0; init < 3; init++) {
    Set s; s.o.score_unk = unk; s.o.init = init;
    { Set t = s; t.name = "words"; t.al = {"a", "b", "zz", "<s>", "</s>"}; v.push_back(t); }
    { Set t = s; t.name = "word breaks"; t.o.wb = LISTED; t.o.breaks = {"<w>", "</s>"}; t.wbf = "<w>\n</s>\n"; t.al = {"a", "<w>", "zz", "<s>", "</s>"}; v.push_back(t); }
    { Set t = s; t.name = "postfix marks"; t.o.wb = MB; t.o.marks = {"+$", "^<s>", "^</s>"}; t.mbf = "+$ ^<s>\n^</s>"; t.al = {"a", "b+", "zz", "zz+", "</s>"}; v.push_back(t); }
    { Set t = s; t.name = "bare postfix marks"; t.o.wb = MB; t.o.marks = {"+$", "@@$"}; t.mbf = "+$\n@@$"; t.al = {"a", "+", "@@", "@", "</s>"}; v.push_back(t); }
    { Set t = s; t.name = "bare prefix marks"; t.o.wb = MB; t.o.marks = {"^#", "^@@"}; t.mbf = "^#\n^@@"; t.al = {"a", "#", "@@", "@", "</s>"}; v.push_back(t); }
    { Set t = s; t.name = "prefix marks"; t.o.wb = MB; t.o.marks = {"^#"}; t.mbf = "^#"; t.al = {"a", "#a", "zz", "#zz", "</s>"}; v.push_back(t); }
    if (!init) {
      { Set t = s; t.name = "cues"; t.o.cues = {"c", "</s>"}; t.ccf = "c </s>"; t.al = {"a", "c", "zz", "</s>", "b"}; v.push_back(t); }
      { Set t = s; t.name = "word breaks and cues"; t.o.wb = LISTED; t.o.breaks = {"<w>"}; t.wbf = "<w>"; t.o.cues = {"c"}; t.ccf = "c\n"; t.al = {"a", "<w>", "zz", "c", "</s>"}; v.push_back(t); }
      { Set t = s; t.name = "words like tags"; t.al = {"<s>x", "</s>x", "</s>", "<UNK>", "a"}; v.push_back(t); }
    } else { Set t = s; t.name = "words like tags"; t.al = {"<s>x", "</s>x", "</s>", "<s>", "a"}; v.push_back(t); }
  }
  return v;
}
static const Words VOC = {"<UNK>", "<s>", "</s>", "a", "b", "c", "<w>", "b+", "#a", "<s>x", "+", "@@", "#"};
static std::vector<Shape> ppl_shapes() {
  std::vector<Shape> v; auto add = [&](std::set<Words> g) { Shape s; s.vocab = VOC; s.grams = g; s.order = 1; for (auto &x : g) s.order = std::max<int>(s.order, x.size()); v.push_back(s); };
  add({}); add({{"a", "b"}, {"a", "<UNK>"}, {"<w>", "a"}, {"a", "<w>"}, {"<s>", "a"}, {"b+", "a"}, {"a", "#a"}, {"<UNK>", "a"}, {"a", "c"}, {"</s>", "<s>"}, {"</s>", "a"}});
  add({{"a", "b"}, {"a", "a"}, {"a", "<UNK>"}, {"<w>", "a"}, {"a", "<w>"}, {"<s>", "a"}, {"b+", "a"}, {"a", "#a"}, {"<UNK>", "a"}, {"c", "a"}, {"a", "c"}, {"a", "</s>"}, {"a", "a", "b"}, {"a", "a", "a"}, {"<s>", "a", "</s>"}, {"<s>", "a", "a"}, {"a", "c", "a"}, {"a", "<w>", "a"}, {"a", "b", "a"}, {"<UNK>", "a", "b"}, {"b+", "a", "<w>"}, {"a", "#a", "#a"}});
  return v;
}
static Model mkm(const Shape &s, Kind k) { return make(s, k, std::find(s.vocab.begin(), s.vocab.end(), "<s>") != s.vocab.end() ? "<s>" : ""); }
static std::string ftmp(const std::string &n, const std::string &d) { if (d.empty()) return ""; write_file(path(n), d); return path(n); }
static void c08_api(Ctx &c, const Shape &s, Kind k, int rep, const Set &st, unsigned L) {
  std::string A = render(make(s, k)); Model R = parse_arpa(A); auto lm = load_rep(rep, A); std::string cc = ftmp("cc", st.ccf), wb = ftmp("wb", st.wbf), mb = ftmp("mb", st.mbf); Quiet quiet; uint64_t q = 0;
  std::string what = strf("%s, %s%s, initial history %d", REP[rep], st.name.c_str(), st.o.score_unk ? ", unknown words scored" : "", st.o.init);
  for (unsigned len = 0; len <= L; len++) { uint64_t n = 1; for (unsigned i = 0; i < len; i++) n *= st.al.size();
    for (uint64_t x = 0; x < n; x++) {
      Words t; uint64_t y = x; std::string text; for (unsigned i = 0; i < len; i++) { t.push_back(st.al[y % st.al.size()]); y /= st.al.size(); text += t.back() + (i % 2 ? "\n" : " "); }
      Perplexity p(lm, cc, wb, mb, "", !st.o.score_unk); p.set_unk_warn(false); if (st.o.init) p.set_init_hist(st.o.init);
      char *sb = nullptr, *rb = nullptr; size_t sn = 0, rn = 0; FILE *in = text.empty() ? fopen("/dev/null", "r") : fmemopen((void *)text.data(), text.size(), "r"), *so = open_memstream(&sb, &sn), *ro = open_memstream(&rb, &rn);
      double ret = p.logprob_file(in, so, 1); double bits = p.print_results(ro); p.print_hitrates(ro); fclose(in); fclose(so); fclose(ro); std::string stream(sb, sn), rp(rb, rn); free(sb); free(rb);
      RefScorer r(R, st.o); std::vector<RefTok> v; for (auto &w : t) { v.push_back(r.token(w)); r.add(v.back()); }
      double W = r.wlp + r.pend; q += len + 1;
      if (!stream_eq(c, what.c_str(), stream, t, v, text)) return;
      std::string e = report(r, true, W), g = rp; if (!r.hits_known) { e = strip_hits(e); g = strip_hits(g); }
      if (!text_eq(c, what.c_str(), g, e, text)) return;
      if (!(std::fabs(ret - r.lp) <= 1e-4 + 1e-5 * std::fabs(r.lp))) { c.fail("return", "%s, text [%s]: logprob_file returns %g, expected %g", what.c_str(), show(text).c_str(), ret, r.lp); return; }
      double eb = -(W / r.words) / log10(2.0); if (r.words && !(std::fabs(bits - eb) <= 1e-4 + 1e-5 * std::fabs(eb))) { c.fail("return", "%s, text [%s]: print_results returns %g, expected %g", what.c_str(), show(text).c_str(), bits, eb); return; }
      if (p.processed_tokens() != r.toks || p.processed_words() != r.words) { c.fail("counts", "%s, text [%s]: %d tokens %d words processed, expected %ld and %ld", what.c_str(), show(text).c_str(), p.processed_tokens(), p.processed_words(), r.toks, r.words); return; }
      c.outcome(hash64(e + what)); c.steps(1);
    } }
  c.queries(q); c.validated(1);
}
// long texts: sums and counters over up to 300000 tokens
static void c08_long(Ctx &c, const Shape &s, Kind k, int rep, const Set &st, unsigned n, unsigned pat) {
  std::string A = render(make(s, k)); Model R = parse_arpa(A); auto lm = load_rep(rep, A); std::string cc = ftmp("cc", st.ccf), wb = ftmp("wb", st.wbf), mb = ftmp("mb", st.mbf), text; Quiet quiet; Perplexity p(lm, cc, wb, mb, "", !st.o.score_unk); p.set_unk_warn(false); if (st.o.init) p.set_init_hist(st.o.init);
  RefScorer r(R, st.o); std::map<std::pair<Words, std::string>, std::pair<double, std::pair<int, bool>>> memo; auto pr = r.prob; r.prob = [&](const Words &w, int *h, bool *sure) { auto key = std::make_pair(w, std::string()); auto i = memo.find(key); if (i == memo.end()) { double x = pr(w, h, sure); i = memo.insert({key, {x, {*h, *sure}}}).first; } *h = i->second.second.first; *sure = i->second.second.second; return i->second.first; };
  for (unsigned i = 0; i < n; i++) { uint64_t z = pat == 0 ? i % 2 * 2 + i / 2 % 2 : pat == 1 ? (uint64_t)i * i / 3 + i / 7 : i / 11 + i * 3; const std::string &w = i % 9 == 8 ? st.al[4] : st.al[z % 5]; text += w; text += i % 13 == 12 ? "\n" : " "; r.add(r.token(w)); }
  FILE *in = fmemopen((void *)text.data(), text.size(), "r"); double ret = p.logprob_file(in, nullptr, 1); fclose(in); char *rb = nullptr; size_t rn = 0; FILE *ro = open_memstream(&rb, &rn); p.print_results(ro); p.print_hitrates(ro); fclose(ro); std::string g(rb, rn); free(rb); double W = r.wlp + r.pend; std::string what = strf("%s, %u tokens, pattern %u", st.name.c_str(), n, pat);
  std::string e = report(r, true, W); if (!r.hits_known) { e = strip_hits(e); g = strip_hits(g); }
  if (!text_eq(c, what.c_str(), g, e, text.substr(0, 100) + "...")) return; size_t q = g.find("Logprob "); double lp = atof(g.c_str() + q + 8);
  if (!(std::fabs(lp - W) <= 2e-6 * std::fabs(W) + 1e-5) || !(std::fabs(ret - r.lp) <= 2e-6 * std::fabs(r.lp) + 1e-5)) { c.fail("long", "%s: log-probability %.8g (tokens: %.8g), expected %.8g (%.8g)", what.c_str(), lp, ret, W, r.lp); return; }
  if (p.processed_tokens() != r.toks || p.processed_words() != r.words) { c.fail("counts", "%s: %d tokens %d words processed, expected %ld and %ld", what.c_str(), p.processed_tokens(), p.processed_words(), r.toks, r.words); return; }
  c.outcome(hash64(e)); c.queries(n); c.steps(1); c.validated(1);
}
// library interval streams: sums of bits over N tokens
static void c08_interval(Ctx &c, const Shape &s, Kind k, int interval) {
  std::string A = render(make(s, k)); Model R = parse_arpa(A); auto lm = load_rep(0, A); Words al = {"a", "b", "zz", "</s>"}; Quiet quiet; uint64_t q = 0;
  for (uint64_t x = 0; x < 4096; x++) { Words t; uint64_t y = x; std::string text; for (int i = 0; i < 6; i++) { t.push_back(al[y % 4]); y /= 4; text += t.back() + " "; }
    Perplexity p(lm, "", "", "", "", true); p.set_unk_warn(false); char *sb = nullptr; size_t sn = 0; FILE *in = fmemopen((void *)text.data(), text.size(), "r"), *so = open_memstream(&sb, &sn); p.logprob_file(in, so, interval); fclose(in); fclose(so); std::string st(sb, sn); free(sb);
    RefScorer r(R, Opt()); double sum = 0; std::string e; for (size_t i = 0; i < t.size(); i++) { sum += r.token(t[i]).lp; if ((i + 1) % interval == 0) { e += strf("%.4f\n", sum / log10(2.0)); sum = 0; } }
    q++; if (!text_eq(c, strf("stream of sums over %d tokens", interval).c_str(), st, e, text)) return; c.outcome(hash64(e)); }
  c.queries(q); c.steps(q); c.validated(1);
}
// two files one after the other: the report covers both
static void c08_two(Ctx &c, const Shape &s, Kind k, const Set &st, bool clear, unsigned L1, unsigned L2) {
  std::string A = render(make(s, k)); Model R = parse_arpa(A); auto lm = load_rep(0, A); std::string cc = ftmp("cc", st.ccf), wb = ftmp("wb", st.wbf), mb = ftmp("mb", st.mbf); Quiet quiet; uint64_t q = 0; unsigned a = st.al.size();
  for (unsigned l1 = 0; l1 <= L1; l1++) for (unsigned l2 = 0; l2 <= L2; l2++) { uint64_t n = 1; for (unsigned i = 0; i < l1 + l2; i++) n *= a;
    for (uint64_t x = 0; x < n; x++) { Words t; uint64_t y = x; for (unsigned i = 0; i < l1 + l2; i++) { t.push_back(st.al[y % a]); y /= a; }
      Perplexity p(lm, cc, wb, mb, "", !st.o.score_unk); p.set_unk_warn(false); if (st.o.init) p.set_init_hist(st.o.init); RefScorer r(R, st.o); double ret = 0, W = 0;
      for (int f = 0; f < 2; f++) { std::string text = join(Words(f ? t.begin() + l1 : t.begin(), f ? t.end() : t.begin() + l1)) + "\n"; FILE *in = fmemopen((void *)text.data(), text.size(), "r"); ret = p.logprob_file(in, nullptr, 1); fclose(in); for (unsigned i = f ? l1 : 0; i < (f ? l1 + l2 : l1); i++) r.add(r.token(t[i])); if (f == 0 && clear) { W += r.pend; p.clear_history(); r.clear(); } }
      W += r.wlp + r.pend; char *rb = nullptr; size_t rn = 0; FILE *ro = open_memstream(&rb, &rn); p.print_results(ro); p.print_hitrates(ro); fclose(ro); std::string rp(rb, rn); free(rb); q++;
      std::string e = report(r, true, W), g = rp, in = join(t) + strf(" (the first %u tokens in another file%s)", l1, clear ? ", history cleared between" : ""), what = strf("%s%s, initial history %d", st.name.c_str(), st.o.score_unk ? ", unknown words scored" : "", st.o.init); if (!r.hits_known) { e = strip_hits(e); g = strip_hits(g); }
      if (!text_eq(c, what.c_str(), g, e, in)) return; if (!(std::fabs(ret - r.lp) <= 1e-4 + 1e-5 * std::fabs(r.lp))) { c.fail("return", "%s, text [%s]: logprob_file returns %g, expected %g", what.c_str(), in.c_str(), ret, r.lp); return; } c.outcome(hash64(e)); } }
  c.queries(q); c.steps(2 * q); c.validated(1);
}
// the symbol of unknown words: named with -u, in the model without being named, missing from the model
static const char *USYM[] = {"<UNK>", "UNK", "<unk>", "UNK", "<UNK>", "zz"};
static const char *UNAME[] = {"default unknown symbol", "-u UNK", "-u <unk>", "the model has UNK, not named", "no unknown symbol in the model", "-u zz, a symbol the model lacks"};
static void c08_cli(Ctx &c, const Shape &s0, Kind k, int rep, const Set &st0, const Words &t, int um = 0, bool warn = false) {
  Set st = st0; if (um >= 3 || (um && rep == 3)) st.o.score_unk = false; // no probability to score them with
  Shape s = s0; if (um >= 4) { s.vocab.erase(std::find(s.vocab.begin(), s.vocab.end(), "<UNK>")); s.grams.clear(); for (auto &g : s0.grams) if (std::find(g.begin(), g.end(), "<UNK>") == g.end()) s.grams.insert(g); }
  std::string A = render(make(s, k)), sym = um == 3 || rep == 3 ? "<UNK>" : USYM[um]; /* a binary file carries its own symbol */ if (um >= 1 && um <= 3) for (size_t p = 0; (p = A.find("<UNK>", p)) != std::string::npos;) A.replace(p, 5, USYM[um]); Model R = parse_arpa(A); Args a; std::string m = path("m.arpa"), text; write_file(m, A);
  if (rep == 3) { if (!run_ok(c, "arpa2bin", {m, path("m.bin")})) return; a = {"-A", path("m.bin")}; if (k == INTERP || k == INTERP_BK) { Model N = R; (void)N; } } else a = {"-a", m};
  if (rep == 1 || rep == 2) a.push_back("-f"); if (rep == 2) a.push_back("-s");
  for (auto &x : {std::make_pair("-W", ftmp("wb", st.wbf)), std::make_pair("-X", ftmp("mb", st.mbf)), std::make_pair("-C", ftmp("cc", st.ccf))}) if (x.second.size()) { a.push_back(x.first); a.push_back(x.second); }
  if (um == 1 || um == 2 || um == 5) { a.push_back("-u"); a.push_back(USYM[um]); } if (warn) a.push_back("-U");
  if (st.o.score_unk) a.push_back("-o"); if (st.o.init) { a.push_back("-t"); a.push_back(std::to_string(st.o.init)); }
  for (size_t i = 0; i < t.size(); i++) text += t[i] + (i % 2 ? "\n" : " "); write_file(path("t"), text); a.push_back("-S"); a.push_back(path("s")); a.push_back(path("t")); a.push_back(path("r")); remove_file(path("s")); remove_file(path("r"));
  if (!run_ok(c, "perplexity", a)) return;
  RefScorer r(R, st.o); r.unk = sym; std::vector<RefTok> v; for (auto &w : t) { v.push_back(r.token(w)); r.add(v.back()); }
  std::string what = "perplexity " + join(a); if (!stream_eq(c, what.c_str(), read_file(path("s")), t, v, text, rep != 3 || !R.interp)) return;
  std::string e = report(r, true, r.wlp + r.pend), g = read_file(path("r")); if (!r.hits_known || (rep == 3 && R.interp)) { e = strip_hits(e); g = strip_hits(g); }
  if (!text_eq(c, what.c_str(), g, e, text)) return;
  c.outcome(hash64(e + what)); c.queries(t.size() + 1); c.validated(1);
}
// ---------------------------------------------------------------- C25
struct ScorerSys : Sys {
  static constexpr double EPS = 2e-5; std::shared_ptr<NGram> lm; std::unique_ptr<Perplexity> p, fresh; RefScorer r; Set st; std::string cc, wb, mb; uint64_t h = 7; bool cleared = false;
  std::unique_ptr<Perplexity> mk() { std::unique_ptr<Perplexity> x(new Perplexity(lm, cc, wb, mb, "", !st.o.score_unk)); x->set_unk_warn(false); if (st.o.init) x->set_init_hist(st.o.init); return x; }
  ScorerSys(std::shared_ptr<NGram> l, const Model &m, const Set &s, const std::string &c, const std::string &w, const std::string &b) : lm(l), r(m, s.o), st(s), cc(c), wb(w), mb(b) { p = mk(); fresh = mk(); }
  static unsigned nops(const Set &s) { return s.al.size() * 2 + 1 + 5; }
  static std::vector<Words> sents(const Set &s) { return {{}, {s.al[0]}, {s.al[1], s.al[0]}, {s.al[2], s.al[0], s.al.back()}, {s.al.back(), s.al[0]}}; }
  static std::string name(const Set &s, unsigned o) { unsigned n = s.al.size(); if (o < n) return "token " + s.al[o]; if (o < 2 * n) return "word " + s.al[o - n]; o -= 2 * n; if (o == 0) return "clear"; return strf(o == 5 ? "file [%s]" : "sentence [%s]", join(sents(s)[o - 1]).c_str()); }
  bool same(const char *w, double a, double b, double e) { h = h * 1099511628211ull + (uint64_t)(e * 4096 + 1e9); if (std::fabs(a - b) > 1e-9 * (1 + std::fabs(b))) { err = strf("%s gives %.7g, a fresh scorer gives %.7g", w, a, b); return false; } if (!(std::fabs(a - e) <= EPS + EPS * std::fabs(e))) { err = strf("%s gives %.7g, the model gives %.7g", w, a, e); return false; } return true; }
  bool apply(unsigned o) override {
    unsigned n = st.al.size();
    if (o < n) { auto &w = st.al[o]; double a = p->token_logprob(w.c_str()), b = fresh->token_logprob(w.c_str()); return same("token_logprob", a, b, r.token(w).lp), true; }
    if (o < 2 * n) { auto &w = st.al[o - n]; double a = p->word_logprob(w.c_str()), b = fresh->word_logprob(w.c_str()); return same("word_logprob", a, b, r.token(w).word_lp), true; }
    o -= 2 * n; if (o == 0) { p->clear_history(); fresh = mk(); freshed.clear(); r.clear(); h = h * 31 + 5; return true; }
    Words t = sents(st)[o - 1]; double e = 0, a, b; for (auto &w : t) e += r.token(w).lp;
    if (o == 5) { std::string x = join(t, "\n") + "\n"; FILE *f = fmemopen((void *)x.data(), x.size(), "r"), *g = fmemopen((void *)x.data(), x.size(), "r"); a = p->logprob_file(f, nullptr) - lastp; b = fresh->logprob_file(g, nullptr) - 0; fclose(f); fclose(g); lastp += a; // the return value is the running total of all files
      double bb = b - (freshed.count(fresh.get()) ? freshed[fresh.get()] : 0); freshed.clear(); freshed[fresh.get()] = b; return same("logprob_file", a, bb, e), true; }
    std::string x; for (size_t i = 0; i < t.size(); i++) x += (!i ? "" : t.size() == 2 ? " \v" : i % 2 ? " " : "\t\f \r") + t[i]; if (t.size() == 2) x += "\n"; a = p->sentence_logprob(x.c_str()); b = fresh->sentence_logprob(x.c_str()); return same("sentence_logprob", a, b, -e), true;
  }
  double lastp = 0; std::map<Perplexity *, double> freshed;
  std::string check() override { return err; }
  uint64_t state() override { return h; }
};
// ---------------------------------------------------------------- C09
static double comp(const Model &m, const std::set<std::string> &voc, Words k, const std::string &unk) { for (auto &w : k) if (!voc.count(w)) w = unk; if (!m.vset.count(k.back())) return 0; return m.prob(k); }
struct Mix { std::vector<Model> m; std::vector<double> w; std::set<std::string> voc; std::string unk = "<UNK>"; int order = 0; double prob(const Words &k) const { double p = 0; for (size_t i = 0; i < m.size(); i++) { Words t((int)k.size() > m[i].order ? k.end() - m[i].order : k.begin(), k.end()); p += w[i] * comp(m[i], voc, t, unk); } return p; } };
static Mix mkmix(const std::vector<std::string> &A, const std::vector<double> &w, const std::string &unk = "<UNK>") { Mix x; x.unk = unk; x.w = w; for (auto &a : A) { Model m = parse_arpa(a); x.voc.insert(m.vset.begin(), m.vset.end()); x.order = std::max(x.order, m.order); x.m.push_back(m); } x.voc.insert(unk); return x; }
static std::vector<float> fl(const std::vector<double> &v) { return std::vector<float>(v.begin(), v.end()); }
static void c09_inter(Ctx &c, const std::vector<std::string> &A, const std::vector<double> &w, bool lists) {
  Mix X = mkmix(A, w); std::vector<std::string> names; for (size_t i = 0; i < A.size(); i++) { names.push_back(path(strf("m%zu", i))); write_file(names.back(), A[i]); }
  Quiet quiet; InterTreeGram t(names, fl(w)); uint64_t q = 0; bool good = true;
  if (t.order() != X.order) { c.fail("order", "mixture has order %d, expected %d", t.order(), X.order); return; } if (t.num_words() != (int)X.voc.size()) { c.fail("vocab", "mixture has %d words, expected %zu", t.num_words(), X.voc.size()); return; }
  Words voc(X.voc.begin(), X.voc.end()); std::string h;
  for_contexts(voc, X.order - (voc.size() > 8), [&](const Words &ctx) { Words k = ctx; k.push_back(""); NGram::Gram g; for (auto &x : ctx) g.push_back(t.word_index(x)); g.push_back(0);
    for (auto &x : voc) { k.back() = x; g.back() = t.word_index(x); double p = pow(10, t.NGram::log_prob(g)), e = X.prob(k); q++; h += strf("%.5g ", e); if (!(std::fabs(p - e) <= 1e-5 * e + 1e-12)) { c.fail("mixture", "P(%s | %s) = %.8g, the weighted sum is %.8g", x.c_str(), join(ctx).c_str(), p, e); return good = false; } }
    return true; });
  if (!good) return;
  if (lists) for (auto &u : voc) { std::vector<int> next; for (auto &x : voc) next.push_back(t.word_index(x)); std::vector<float> res(next.size(), 3); t.fetch_bigram_list(t.word_index(u), next, res); for (size_t i = 0; i < voc.size(); i++) { double e = X.prob({u, voc[i]}), p = pow(10, res[i]); q++; if (!(std::fabs(p - e) <= 1e-5 * e + 1e-12)) { c.fail("list", "look-ahead list: P(%s | %s) = %.8g, the weighted sum is %.8g", voc[i].c_str(), u.c_str(), p, e); return; } } }
  for (size_t i = 0; i < A.size(); i++) { t.test_write(path("w"), i); Model W = parse_arpa(read_file(path("w"))); if (!W.err.empty()) { c.fail("write", "component %zu written as: %s", i, W.err.c_str()); return; } for (auto &x : voc) if (!W.vset.count(x)) { c.fail("write", "component %zu written without word %s", i, x.c_str()); return; }
    Model B = X.m[i]; for (auto &x : voc) if (!B.vset.count(x)) { B.vset.insert(x); B.vocab.push_back(x); Entry e; e.lp = -99; B.g[{x}] = e; } if (!check_same(c, "write", B, W, 1e-12, 3e-4 * B.order)) return; q++; }
  c.outcome(hash64(h)); c.queries(q); c.steps(1); c.validated(1);
}
static void c09_api(Ctx &c, const std::string &A, const std::string &B, double wa, int rep, unsigned L, bool alpha_first) {
  Mix X = mkmix({A, B}, {wa, 1 - wa}); write_file(path("b"), B); std::string a = path("a"); write_file(a, A); Quiet quiet; uint64_t q = 0;
  int type = 0; if (rep == 3) { TreeGram g; FILE *f = fmemopen((void *)A.data(), A.size(), "r"); g.read(f, false); fclose(f); a = path("a.bin"); f = fopen(a.c_str(), "w"); g.write(f, true); fclose(f); type = 1; }
  Perplexity p(a, type, "", "", "", "", rep == 1 ? 1 : rep == 2 ? -1 : 0, true); p.set_unk_warn(false); if (alpha_first) p.set_alpha(wa); p.set_interpolation(path("b")); if (!alpha_first) p.set_alpha(wa);
  Opt o; RefScorer r(X.m[0], o); r.known = &X.voc; r.order = X.order; r.prob = [&](const Words &k, int *h, bool *s) { *h = 0; *s = false; return std::max(X.prob(k), 1e-60); };
  Words al(X.voc.begin(), X.voc.end()); al.push_back("zz"); std::string h; bool good = true;
  for_contexts(al, L - 1, [&](const Words &ctx) { for (auto &x : al) { p.clear_history(); r.clear(); Words t = ctx; t.push_back(x); for (auto &y : t) { double v = pow(10, p.token_logprob(y.c_str())); RefTok e = r.token(y); double ev = e.scored ? pow(10, e.lp) : 1; q++; if (!(std::fabs(v - ev) <= 1e-5 * ev + 1e-12)) { c.fail("mixture", "after [%s]: probability %.8g, the weighted sum is %.8g", join(t).c_str(), v, ev); return good = false; } h += strf("%.5g ", ev); } } return true; });
  if (!good) return; long hits = 0; for (int i = 1; i <= X.order; i++) hits += p.get_hitorder(i); if (hits > r.toks || (hits < r.toks && X.m[0].vset.size() == X.voc.size()) || p.get_hitorder(0) != r.toks) { c.fail("hits", "hit counts sum to %ld (total %d), %ld tokens were scored", hits, p.get_hitorder(0), r.toks); return; }
  c.outcome(hash64(h)); c.queries(q); c.steps(q); c.validated(1);
}
static std::string rename_unk(std::string s, const std::string &to) { size_t p; while ((p = s.find("<UNK>")) != std::string::npos) s.replace(p, 5, to); return s; }
static void c09_cli(Ctx &c, std::string A, std::string B, int mode, double w, bool unk) {
  std::string U = unk ? "UNK" : "<UNK>"; if (unk) { A = rename_unk(A, U); B = rename_unk(B, U); } Mix X = mkmix({A, B}, {1 - (w < 0 ? 0.5 : w), w < 0 ? 0.5 : w}, U);
  write_file(path("a"), A); write_file(path("b"), B); Words al(X.voc.begin(), X.voc.end()); al.erase(std::remove_if(al.begin(), al.end(), [&](const std::string &x) { return x == U || X.prob({x}) < 1e-50; }), al.end()); if (!(mode & 2) || X.prob({U}) > 1e-50) al.push_back("zz");
  Words t; for (auto &x : al) for (auto &y : al) for (auto &z : al) { t.push_back(x); t.push_back(y); t.push_back(z); } std::string text = join(t) + "\n"; write_file(path("t"), text);
  Args a = {"-a", path("a"), "-i", path("b"), "-S", path("s")}; if (mode & 1) a.push_back("-f"); if (mode & 2) a.push_back("-o"); if (w >= 0) { a.push_back("-I"); a.push_back(strf("%g", w)); } if (unk) { a.push_back("-u"); a.push_back(U); } a.push_back(path("t")); a.push_back(path("r"));
  if (!run_ok(c, "perplexity", a)) return;
  Opt o; o.score_unk = mode & 2; RefScorer r(X.m[0], o); r.unk = U; r.known = &X.voc; r.order = X.order; r.prob = [&](const Words &k, int *h, bool *s) { *h = 0; *s = false; return std::max(X.prob(k), 1e-60); };
  std::vector<RefTok> v; for (auto &x : t) { v.push_back(r.token(x)); r.add(v.back()); } std::string what = "perplexity " + join(a);
  if (!stream_eq(c, what.c_str(), read_file(path("s")), t, v, text, false) || !text_eq(c, what.c_str(), strip_hits(read_file(path("r"))), report(r, false, r.wlp + r.pend), text)) return;
  c.outcome(hash64(read_file(path("s")))); c.queries(t.size()); c.validated(1);
}
// ---------------------------------------------------------------- C10
static void c10(Ctx &c, const std::vector<std::string> &A, const std::vector<double> &w) {
  double tot = 0; for (double x : w) tot += x; std::vector<double> nw; for (double x : w) nw.push_back(x / tot); Mix X = mkmix(A, nw); std::string arg;
  for (size_t i = 0; i < A.size(); i++) { std::string f = path(strf("m%zu.arpa", i)); write_file(f, A[i]); arg += (i ? ";" : "") + f + strf(",%g", w[i]); } remove_file(path("o"));
  if (!run_ok(c, "simpleinterpolate2arpa", {arg, path("o")})) return; Model W = parse_arpa(read_file(path("o"))); if (!W.err.empty()) { c.fail("arpa", "merged model: %s", W.err.c_str()); return; }
  if (W.order != X.order) { c.fail("order", "merged model has order %d, expected %d", W.order, X.order); return; } uint64_t q = 0;
  std::set<Words> all; for (auto &m : X.m) for (auto &g : m.g) all.insert(g.first); std::set<Words> two; for (size_t i = 0; i < 2; i++) for (auto &g : X.m[i].g) two.insert(g.first);
  for (auto &x : W.g) if (!all.count(x.first) && x.first != Words{"<UNK>"}) { c.fail("ngrams", "n-gram [%s] belongs to no component", join(x.first).c_str()); return; }
  for (auto &g : all) { q++; double e = X.prob(g); if (!W.g.count(g)) { if (e <= 1e-55) continue; c.fail("ngrams", "n-gram [%s] of a component is missing", join(g).c_str()); return; } if (!two.count(g)) continue; double p = pow(10, W.g[g].lp); if (!(std::fabs(p - e) <= 1.5e-4 * e + 1e-6)) { c.fail("prob", "P(%s) = %.8g in the merged model, the weighted sum is %.8g", join(g).c_str(), p, e); return; } }
  if (!check_normalized(c, W, 5e-5 + 1.2e-4 * W.order, Words(), true)) return;
  c.outcome(hash64(read_file(path("o")))); c.queries(q); c.validated(1);
}
// ---------------------------------------------------------------- spaces of component models
static std::vector<std::string> comps(bool bo_only, bool small) {
  std::vector<std::string> v; std::vector<Shape> s;
  auto add = [&](Words voc, std::set<Words> g) { Shape x; x.vocab = voc; x.grams = g; x.order = 1; for (auto &y : g) x.order = std::max<int>(x.order, y.size()); s.push_back(x); };
  Words V1 = {"<UNK>", "a", "b"}, V2 = {"<UNK>", "b", "c"}, V3 = {"c", "a", "<UNK>"}, V4 = {"a", "b"}, V5 = {"<UNK>", "<s>", "a", "</s>"};
  add(V1, {}); add(V1, {{"a", "b"}}); add(V1, {{"a", "a"}, {"a", "b"}, {"b", "a"}}); add(V1, {{"a", "b"}, {"a", "b", "a"}, {"b", "<UNK>"}}); add(V1, {{"a", "a"}, {"a", "b"}, {"a", "<UNK>"}, {"<UNK>", "a"}, {"<UNK>", "a", "a"}, {"a", "a", "b"}, {"a", "a", "a"}});
  add(V2, {}); add(V2, {{"b", "c"}, {"c", "b"}}); add(V2, {{"b", "c"}, {"b", "c", "b"}, {"b", "c", "b", "c"}}); add(V3, {{"a", "c"}, {"c", "a"}}); add(V3, {{"a", "c"}, {"a", "c", "c"}, {"c", "c"}, {"a", "a"}}); add(V4, {{"a", "b"}, {"b", "b"}}); add(V5, {{"<s>", "a"}, {"a", "</s>"}, {"<s>", "a", "</s>"}});
  for (auto &x : s) for (int k = 0; k < (bo_only ? 2 : 4); k++) { if (small && k == 1) continue; v.push_back(render(mkm(x, K[k]))); }
  return v;
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  d.level = "exploration"; d.chunk = 1;
  if (prop == "C08") {
    load_tools({"perplexity", "arpa2bin"}); auto S = std::make_shared<std::vector<Set>>(sets()); auto H = std::make_shared<std::vector<Shape>>(ppl_shapes()); unsigned L = thorough ? 6 : 5;
    { Family f; f.name = "texts"; f.timeout_s = 300; f.n = S->size() * 12 * 3; auto dec = [=](uint64_t i, int &k, int &h, int &rep) { Digits g(i); int s = g.next(S->size()); k = g.next(4); h = g.next(3); rep = g.next(3); return s; };
      f.run = [=](uint64_t i, Ctx &c) { int k, h, r; int s = dec(i, k, h, r); c08_api(c, (*H)[h], K[k], r, (*S)[s], r == 0 ? L : L - 1); };
      f.desc = [=](uint64_t i) { int k, h, r; int s = dec(i, k, h, r); return strf("all texts up to %u tokens of {%s}, %s, unknown scored %d, initial history %d, model kind %d order %d, %s", r == 0 ? L : L - 1, join((*S)[s].al).c_str(), (*S)[s].name.c_str(), (*S)[s].o.score_unk, (*S)[s].o.init, k, h + 1, REP[r]); }; d.families.push_back(f); }
    { Family f; f.name = "intervals"; f.n = 4 * 3 * 3; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int iv = g.next(3) + 2; int k = g.next(4); c08_interval(c, (*H)[g.i], K[k], iv); }; f.desc = [=](uint64_t i) { Digits g(i); int iv = g.next(3) + 2; int k = g.next(4); return strf("sums over %d tokens, kind %d, model %d, all texts of 6 tokens", iv, k, (int)g.i); }; d.families.push_back(f); }
    { Family f; f.name = "two-files"; f.n = S->size() * 2 * 4; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int s = g.next(S->size()), cl = g.next(2), k = g.next(2), h = 1 + g.next(2); c08_two(c, (*H)[h], K[k + 1], (*S)[s], cl, 3, thorough ? 3 : 2); }; f.desc = [=](uint64_t i) { Digits g(i); int s = g.next(S->size()), cl = g.next(2), k = g.next(2), h = 1 + g.next(2); return strf("two files of {%s}, %s, unknown scored %d, initial history %d, kind %d order %d, %s", join((*S)[s].al).c_str(), (*S)[s].name.c_str(), (*S)[s].o.score_unk, (*S)[s].o.init, k + 1, h + 1, cl ? "history cleared between" : "history kept"); }; d.families.push_back(f); }
    { Family f; f.name = "command-line"; unsigned NT = 1 + 5 + 25; f.n = S->size() * 4 * NT * (thorough ? 8 : 2); auto dec = [=](uint64_t i, int &k, int &h, int &rep, Words &t) { Digits g(i); unsigned x = g.next(NT); int s = g.next(S->size()); rep = g.next(4); static const int KK[][2] = {{0, 2}, {3, 1}, {1, 1}, {2, 2}, {0, 0}, {2, 0}, {1, 2}, {3, 2}}; k = KK[g.i][0]; h = KK[g.i][1]; unsigned len = x == 0 ? 1 : x < 6 ? 2 : 4; const Words &al = (*S)[s].al; x -= x == 0 ? 0 : x < 6 ? 1 : 6; if (len == 1) t = {}; else if (len == 2) t = {al[0], al[x]}; else t = {al[x % 5], al[x / 5], al[(x + x / 5) % 5], al[0], al[4], al[x / 5]}; return s; };
      f.run = [=](uint64_t i, Ctx &c) { int k, h, r; Words t; int s = dec(i, k, h, r, t); c08_cli(c, (*H)[h], K[k], r, (*S)[s], t); };
      f.desc = [=](uint64_t i) { int k, h, r; Words t; int s = dec(i, k, h, r, t); return strf("perplexity, text [%s], %s, unknown scored %d, initial history %d, model kind %d order %d, %s", join(t).c_str(), (*S)[s].name.c_str(), (*S)[s].o.score_unk, (*S)[s].o.init, k, h + 1, REP[r]); }; d.families.push_back(f); }
    { Family f; f.name = "long-texts"; static const unsigned N[] = {1000, 4096, 32768, 65537, 140000}; f.n = S->size() * 3 * (thorough ? 5 * 3 : 3); f.timeout_s = 300; auto dec = [=](uint64_t i, int &n, int &rep, int &pat) { Digits g(i); int s = g.next(S->size()); pat = g.next(3); if (thorough) { n = g.next(5); rep = g.i; } else { n = g.i * 2; rep = (s + pat) % 3; } return s; };
      f.run = [=](uint64_t i, Ctx &c) { int n, r, pt; int s = dec(i, n, r, pt); c08_long(c, (*H)[1 + pt % 2], K[(s + pt) % 4], r, (*S)[s], N[n], pt); }; f.desc = [=](uint64_t i) { int n, r, pt; int s = dec(i, n, r, pt); return strf("%u tokens, pattern %d, %s, unknown scored %d, initial history %d, %s", N[n], pt, (*S)[s].name.c_str(), (*S)[s].o.score_unk, (*S)[s].o.init, REP[r]); }; d.families.push_back(f); }
    { Family f; f.name = "unknown-symbol"; f.n = S->size() * 4 * 6 * 2 * 4 * 3; auto dec = [=](uint64_t i, int &k, int &h, int &rep, int &um, bool &warn, Words &t) { Digits g(i); int x = g.next(4), s = g.next(S->size()); rep = g.next(4); um = g.next(6); warn = g.next(2); h = 2 - g.next(3); k = (x + um + s) % 4; const Words &al = (*S)[s].al; t = x == 0 ? Words{USYM[um], al[0], "<UNK>", al[1], "zz"} : x == 1 ? Words{al[0], "UNK", al[0], al[4], "UNK", al[0], "zz"} : x == 2 ? Words{al[1], al[0], "<unk>", "<UNK>", al[0], al[4]} : Words{"UNK", "<UNK>", "zz", "zz", USYM[um]}; return s; };
      f.run = [=](uint64_t i, Ctx &c) { int k, h, r, um; bool w; Words t; int s = dec(i, k, h, r, um, w, t); c08_cli(c, (*H)[h], K[k], r, (*S)[s], t, um, w); };
      f.desc = [=](uint64_t i) { int k, h, r, um; bool w; Words t; int s = dec(i, k, h, r, um, w, t); return strf("perplexity, %s%s, text [%s], %s, unknown scored %d, initial history %d, model kind %d order %d, %s", UNAME[um], w ? ", -U" : "", join(t).c_str(), (*S)[s].name.c_str(), (*S)[s].o.score_unk, (*S)[s].o.init, k, h + 1, REP[r]); }; d.families.push_back(f); }
    d.rule = "Every text up to the length bound over five tokens (known words, unknown tokens with and without boundary marks, sentence tags, break symbols, context cues) is scored for every word-delimiting mode, with unknown words skipped and scored, initial history 0-2, model types, orders and representations; the per-token stream, every number of the report and the returned values are compared with an independent scorer that multiplies the probabilities of an independent model evaluator. The command line tool is run on a slice with every option set and representation.";
    d.bounds = strf("texts of up to %u tokens over 5 symbols, patterned texts of up to 140000; %zu option sets; 12 models of order 1-3; 3 representations plus binary", L, S->size());
    d.assumptions = {"the break, cue and mark lists contain words of the model", "in sub-word modes the attribution of unknown sub-words to words follows the tool's convention (unmarked token closes a word)"};
    return true;
  }
  if (prop == "C25") {
    auto S = sets(); auto H = ppl_shapes(); d.level = "model_checking"; d.chunk = 4;
    for (size_t i = 0; i < S.size(); i++) for (int v = 0; v < 2; v++) { if (v && !thorough && i % 3) continue;
      Set st = S[i]; int kind = v ? 2 : (i % 2 ? 1 : 0), rep = i % 3, h = v ? 1 : 2; auto lm = std::make_shared<std::shared_ptr<NGram>>(); std::string A = render(make(H[h], K[kind])); auto R = std::make_shared<Model>(parse_arpa(A)); if (st.o.score_unk && kind > 1) rep = 0;
      SeqSpec s; s.name = strf("%s-%s-hist%d-%d", join(split_ws(st.name), "-").c_str(), st.o.score_unk ? "scored" : "skipped", st.o.init, v); s.nops = ScorerSys::nops(st); s.depth = thorough ? 5 : 4; s.pre = 1; s.timeout = 400; s.opname = [=](unsigned o) { return ScorerSys::name(st, o); };
      s.mk = [=]() { if (!*lm) *lm = load_rep(rep, A); std::string cc = ftmp("cc" + s.name, st.ccf), wb = ftmp("wb" + s.name, st.wbf), mb = ftmp("mb" + s.name, st.mbf); return std::unique_ptr<Sys>(new ScorerSys(*lm, *R, st, cc, wb, mb)); };
      d.families.push_back(seq_family(s)); }
    d.rule = "Every sequence of scorer operations (a token, a word, clear, sentences, a file) up to the depth; after each operation the result is compared with a scorer created at the last clear that was given only the later operations, and with the independent reference scorer.";
    d.bounds = strf("sequences of up to %d operations out of 16", thorough ? 5 : 4);
    return true;
  }
  if (prop == "C09") {
    load_tools({"perplexity"}); auto V = std::make_shared<std::vector<std::string>>(comps(false, false)); auto B = std::make_shared<std::vector<std::string>>(comps(true, false)); size_t n = V->size(); static const double W[] = {0.25, 1, 0, 0.5}; d.chunk = 4;
    unsigned nw = thorough ? 4 : 2;
    { Family f; f.name = "inter-tree-pairs"; f.n = n * n * nw; auto dec = [=](uint64_t i, double &w) { Digits g(i); w = W[g.next(nw)]; return g.i; };
      f.run = [=](uint64_t i, Ctx &c) { double w; auto j = dec(i, w); c09_inter(c, {(*V)[j % n], (*V)[j / n]}, {w, 1 - w}, false); }; f.desc = [=](uint64_t i) { double w; auto j = dec(i, w); return strf("weight %g for component %d, %g for component %d", w, (int)(j % n), 1 - w, (int)(j / n)); }; d.families.push_back(f); }
    { size_t m = B->size(); Family f; f.name = "inter-tree-lists"; f.n = m * m; f.run = [=](uint64_t i, Ctx &c) { c09_inter(c, {(*B)[i % m], (*B)[i / m]}, {0.7, 0.3}, true); }; f.desc = [=](uint64_t i) { return strf("look-ahead lists, back-off components %d and %d", (int)(i % m), (int)(i / m)); }; d.families.push_back(f); }
    { Family f; f.name = "inter-tree-triples"; unsigned st = thorough ? 3 : 7; uint64_t k = (n + st - 1) / st; f.n = k * k * k; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); unsigned a = g.next(k), b = g.next(k); c09_inter(c, {(*V)[a * st], (*V)[b * st], (*V)[g.i * st]}, {0.5, 0.3, 0.2}, false); }; f.desc = [=](uint64_t i) { Digits g(i); unsigned a = g.next(k), b = g.next(k); return strf("three components %u %u %u", a * st, b * st, (unsigned)g.i * st); }; d.families.push_back(f); }
    { Family f; f.name = "set-interpolation"; f.n = n * n * 4 * 2; auto dec = [=](uint64_t i, int &rep, int &first) { Digits g(i); rep = g.next(4); first = g.next(2); return g.i; };
      f.run = [=](uint64_t i, Ctx &c) { int r, o; auto j = dec(i, r, o); c09_api(c, (*V)[j % n], (*V)[j / n], W[(i / 8) % 4], r, thorough ? 4 : 3, o); }; f.desc = [=](uint64_t i) { int r, o; auto j = dec(i, r, o); return strf("scorer with %s component %d (weight %g) interpolated with component %d, weight set %s", REP[r], (int)(j % n), W[(i / 8) % 4], (int)(j / n), o ? "before" : "after"); }; d.families.push_back(f); }
    { Family f; f.name = "command-line"; f.n = n * n * 8; auto dec = [=](uint64_t i, int &mode, int &unk) { Digits g(i); mode = g.next(4); unk = g.next(2); return g.i; };
      f.run = [=](uint64_t i, Ctx &c) { int m, u; auto j = dec(i, m, u); double w = (j / 3) % 4 == 3 ? -1 : W[(j / 3) % 4]; c09_cli(c, (*V)[j % n], (*V)[j / n], m, w, u); }; f.desc = [=](uint64_t i) { int m, u; auto j = dec(i, m, u); return strf("perplexity -i, mode %d, unknown symbol %s, components %d and %d", m, u ? "UNK" : "<UNK>", (int)(j % n), (int)(j / n)); }; d.families.push_back(f); }
    { static const Kind P[][2] = {{BO_NEG, BO_POS}, {INTERP, BO_NEG}, {BO_NEG, INTERP}, {INTERP, INTERP}}; auto dec = [=](uint64_t i, int &m, int &k, int &o, int &s, double &w) { Digits g(i); m = g.next(6); k = g.next(4); o = 2 + g.next(thorough ? 3 : 2); s = g.next(3); w = W[g.next(nw)]; };
      Family f; f.name = "large-components"; f.n = 6ull * 4 * (thorough ? 3 : 2) * 3 * nw; f.timeout_s = 300;
      f.run = [=](uint64_t i, Ctx &c) { int m, k, o, s; double w; dec(i, m, k, o, s, w); unsigned v = m < 2 ? 20 : 14; std::string A = render(make(text_shape(v, 0, 600, o, 1 + s), P[k][0])), B = render(make(text_shape(v + s, s == 2 ? 0 : v / 2, 900, 5 - o > 1 ? 5 - o : 2, 3 - s), P[k][1]));
        if (m < 2) c09_inter(c, {A, B}, {w, 1 - w}, m == 1 && P[k][0] < INTERP && P[k][1] < INTERP); else if (m < 5) c09_api(c, A, B, w, m - 2 + (m == 4), 2, s & 1); else c09_cli(c, A, B, (int)(i % 4), w, s & 1); };
      f.desc = [=](uint64_t i) { int m, k, o, s; double w; dec(i, m, k, o, s, w); return strf("components with hundreds of n-grams, order %d, kinds %d, overlap %d, mode %d, weight %g", o, k, s, m, w); }; d.families.push_back(f); }
    d.rule = "Every ordered pair (and triple) of component models of the list - different orders, vocabularies, types, word orders - with several weights is combined by the library mixture, the scorer's interpolation (tree, hash, small hash and binary main model; weight set before and after) and the perplexity tool (-i with and without -f, -o, -u); the probability of every word after every context is compared with the weighted sum from an independent evaluator.";
    d.bounds = strf("%zu component models of order 1-4 over up to 4 words; all contexts; components with all n-grams of texts of 600 and 900 words", n); d.assumptions = {"a word outside a component's vocabulary but inside another's has probability zero in that component"};
    return true;
  }
  if (prop == "C10") {
    load_tools({"simpleinterpolate2arpa"}); auto B = std::make_shared<std::vector<std::string>>(comps(true, false)); size_t m = B->size(); d.chunk = 8; static const double W[][2] = {{0.5, 0.5}, {0.1, 0.9}, {2, 1}, {0.999, 0.001}};
    auto S = std::make_shared<std::vector<Shape>>(); shapes_bi(*S, {"<UNK>", "a", "b"}, {"<UNK>", "a"}, {"<UNK>", "a", "b"}, 1); auto T = std::make_shared<std::vector<Shape>>(); shapes_tree(*T, {"<UNK>", "a"}, {"a"}, {"<UNK>", "a"}, 4);
    { Family f; f.name = "pairs"; f.n = m * m * 4; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int w = g.next(4); c10(c, {(*B)[g.i % m], (*B)[g.i / m]}, {W[w][0], W[w][1]}); }; f.desc = [=](uint64_t i) { Digits g(i); int w = g.next(4); return strf("components %d and %d, weights %g %g", (int)(g.i % m), (int)(g.i / m), W[w][0], W[w][1]); }; d.families.push_back(f); }
    auto sp = [&](const char *n, std::shared_ptr<std::vector<Shape>> S, unsigned st) { uint64_t k = (S->size() + st - 1) / st; Family f; f.name = n; f.n = k * k * 2; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int v = g.next(2); uint64_t a = g.next(k); c10(c, {render(make((*S)[a * st], v ? BO_POS : BO_NEG)), render(make((*S)[(g.i * st + g.i % st) % S->size()], v ? BO_NEG : BO_POS))}, {0.3, 0.7}); }; f.desc = [=](uint64_t i) { Digits g(i); int v = g.next(2); uint64_t a = g.next(k); return strf("kinds %d %d, ", v, !v) + show_shape((*S)[a * st]) + " with " + show_shape((*S)[(g.i * st + g.i % st) % S->size()]); }; d.families.push_back(f); };
    sp("shape-pairs", S, thorough ? 2 : 7); sp("tree-pairs", T, thorough ? 3 : 11);
    { Family f; f.name = "triples"; unsigned st = thorough ? 2 : 3; uint64_t k = m / st; f.n = k * k * k; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); unsigned a = g.next(k), b = g.next(k); c10(c, {(*B)[a * st], (*B)[b * st + 1], (*B)[g.i * st]}, {0.5, 0.3, 0.2}); }; f.desc = [=](uint64_t i) { Digits g(i); unsigned a = g.next(k), b = g.next(k); return strf("three components %u %u %u", a * st, b * st + 1, (unsigned)g.i * st); }; d.families.push_back(f); }
    { Family f; f.name = "large-components"; f.n = 2 * 2 * 3 * 3 * 2; f.timeout_s = 300; auto dec = [=](uint64_t i, int &v, int &k, int &o, int &s, int &w) { Digits g(i); v = g.next(2) ? (thorough ? 400 : 200) : 50; k = g.next(2); o = 2 + g.next(3); s = g.next(3); w = 2 * g.next(2); };
      f.run = [=](uint64_t i, Ctx &c) { int v, k, o, s, w; dec(i, v, k, o, s, w); c10(c, {render(make(text_shape(v, 0, v * 8, o, 1 + s), k ? BO_NEG : BO_POS)), render(make(text_shape(v + s, s == 2 ? 0 : v / 2, v * 10, 5 - o > 1 ? 5 - o : 2, 3 - s), k ? BO_POS : BO_NEG))}, {W[w][0], W[w][1]}); };
      f.desc = [=](uint64_t i) { int v, k, o, s, w; dec(i, v, k, o, s, w); return strf("components of %d words with all n-grams of a text of %d, kinds %d, order %d, overlap %d, weights %g %g", v, v * 8, k, o, s, W[w][0], W[w][1]); }; d.families.push_back(f); }
    d.rule = "Every ordered pair of component models of the list and of a stride through the space of n-gram sets is merged by simpleinterpolate2arpa with several weights; the merged file must contain exactly the union of the n-grams, give each the weighted sum of the components' probabilities and be normalized after every context. Triples: union, normalization, and exactness on the n-grams of the first two.";
    d.bounds = strf("%zu component models of order 1-4 over up to 4 words; components of 50 and 200 (thorough 400) words with all n-grams of texts of 400 to 4000 words", m); d.assumptions = {"a word outside a component's vocabulary has probability zero in that component", "zero-probability words (sentence start) may be left out"};
    return true;
  }
  return false;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
