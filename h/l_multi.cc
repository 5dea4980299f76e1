// C24: objects in one process do not influence each other.
// Scripts of operations on one object (or one family of objects) are run alone in a fresh process; then the scripts are
// interleaved in every order (within a bound on the number of switches) in one process.  Every operation's result must be
// the one of the lone run.
#include "fill.hh"
#include "vk.hh"
#include "lmgen.hh"
#include "TreeGram.hh"
#include "HashGram.hh"
#include "ArpaReader.hh"
#include "TreeGramArpaReader.hh"
#include "InterTreeGram.hh"
#include "PerplexityFuncs.hh"
#include "VarigramFuncs.hh"
#include "InterKn.hh"
#include "NgramCounts.hh"
#include "str.hh"
#include <memory>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc; using namespace vk;
typedef std::function<std::string()> Op;
struct Env { std::shared_ptr<NGram> shared, shared2; }; // models shared by several scorers
struct Script { std::string name; bool heavy; std::function<std::vector<Op>(Env &)> make; };
static std::vector<Script> S;
static std::string dir; // files shared by all scripts, read only
static std::string fl(float x) { return strf("%a ", x); }
struct Mem { char *b = nullptr; size_t n = 0; FILE *f; Mem() { f = open_memstream(&b, &n); } ~Mem() { if (f) fclose(f); free(b); } std::string str() { fclose(f); f = nullptr; return std::string(b, n); } };
struct In { FILE *f; std::string d; In(const std::string &s) : d(s) { f = d.empty() ? fopen("/dev/null", "r") : fmemopen((void *)d.data(), d.size(), "r"); } ~In() { fclose(f); } };
static const char *TEXT[] = {"<s> a b a c a b </s>\n<s> b a d a </s>\n<s> a a b </s>\n<s> a b a c </s>\n", "<s> b c c a b </s>\n<s> c c b a e </s>\n<s> a b c c b </s>\n<s> b b </s>\n<s> c a </s>\n<s> a b c c f </s>\n", "<s> b a b a b b a </s>\n<s> a b </s>\n"};
static std::string M[4], MI[2], BIN[2]; // models (back-off, interpolated), binary forms
static std::vector<std::vector<int>> queries(NGram &g, int n) { std::vector<std::vector<int>> r; std::vector<int> v(1); int W = g.num_words(); for (int a = 0; a < W; a++) { r.push_back({a}); if (n > 1) for (int b = 0; b < W; b++) { r.push_back({a, b}); if (n > 2) for (int c = 0; c < W; c++) r.push_back({a, b, c}); } } return r; }
static std::string ask(NGram &g, int n) { std::string s; for (auto &q : queries(g, n)) s += fl(g.log_prob(q)) + strf("%d ", g.last_order()); return s; }
static std::string names(NGram &g) { std::string s; for (int i = 0; i < g.num_words(); i++) s += g.word(i) + strf("=%d ", g.word_index(g.word(i))); return s; }
static std::string node(TreeGram::Iterator &i) { std::string s; for (int o = 1; o <= i.order(); o++) { auto &n = i.node(o); s += strf("%d %a %a|", n.word, n.log_prob, n.back_off); } return s; }
static std::string outw(NGram &g, bool bin) { Mem m; g.write(m.f, bin); return m.str(); }
static void tree(const std::string &name, std::string model, bool bin, bool interp) {
  S.push_back({name, false, [=](Env &) { auto t = std::make_shared<std::shared_ptr<TreeGram>>(); auto it = std::make_shared<TreeGram::Iterator>(); std::vector<Op> v;
    v.push_back([=] { t->reset(new TreeGram); In in(model); (*t)->read(in.f, bin); return names(**t) + strf("%d %d", (*t)->order(), (*t)->get_type()); });
    v.push_back([=] { return ask(**t, 2); });
    v.push_back([=] { it->reset(t->get()); std::string s; for (int k = 0; k < 5 && it->next(); k++) s += node(*it); return s; });
    v.push_back([=] { std::string s; for (int w = 0; w < (*t)->num_words() && !interp; w++) { std::vector<int> next; std::vector<float> r((*t)->num_words()); for (int x = 0; x < (*t)->num_words(); x++) next.push_back(x); (*t)->fetch_bigram_list(w, next, r); for (auto x : r) s += fl(x); std::vector<float> r2((*t)->num_words()); (*t)->fetch_trigram_list(0, w, next, r2); for (auto x : r2) s += fl(x); } return s; });
    v.push_back([=] { std::string s; while (it->next()) s += node(*it); return s; });
    v.push_back([=] { return outw(**t, false); });
    v.push_back([=] { return outw(**t, true) + ask(**t, 3); });
    v.push_back([=] { t->reset(); return std::string("gone"); });
    return v; }});
}
template <class KT> static void hash(const std::string &name, std::string model, std::string other) {
  S.push_back({name, false, [=](Env &) { typedef std::shared_ptr<HashGram_t<KT>> P; auto t = std::make_shared<P>(), u = std::make_shared<P>(); std::vector<Op> v;
    v.push_back([=] { t->reset(new HashGram_t<KT>); if (!other.empty()) (*t)->set_oov("<UNK>"); In in(model); (*t)->read(in.f); return names(**t) + strf("%d %d", (*t)->order(), (*t)->get_type()); });
    v.push_back([=] { return ask(**t, 2); });
    v.push_back([=] { if (other.empty()) return outw(**t, false); u->reset(new HashGram_t<KT>); (*u)->set_oov("<UNK>"); (*t)->copy_vocab_to(**u); In in(other); (*u)->read(in.f); (*u)->copy_vocab_to(**t); return names(**u) + outw(**u, false); });
    v.push_back([=] { if (other.empty()) { (*t)->remove_empty_grams(); return ask(**t, 2); } (*t)->fake_interpolate(**u, 0.25); return ask(**t, 2) + ask(**u, 2); });
    v.push_back([=] { if (other.empty()) (*t)->add_zeroprob_grams(); else { u->reset(); } return outw(**t, false); });
    v.push_back([=] { return ask(**t, 3); });
    v.push_back([=] { if ((*t)->get_type() == NGram::BACKOFF) (*t)->prune(0.01); return outw(**t, false); });
    v.push_back([=] { t->reset(); u->reset(); return std::string("gone"); });
    return v; }});
}
static std::string stats(Perplexity &p, bool all) { Mem m; std::string s = strf("%d %d %d %d ", p.processed_tokens(), p.processed_words(), p.get_num_tunks(), p.get_hitorder(1)); if (all) { s += strf("%a ", p.print_results(m.f)); p.print_hitrates(m.f); s += m.str(); } return s; }
static void scorer(const std::string &name, int kind) { // 0 hash 1 tree binary 2 marks 3 mixture 4 interpolated pair 5, 6 shared model 7 listed breaks
  S.push_back({name, false, [=](Env &e) { auto p = std::make_shared<std::shared_ptr<Perplexity>>(); auto env = std::make_shared<Env>(e); std::vector<Op> v; Env sh = e;
    v.push_back([=] { Perplexity *x; if (kind == 0) x = new Perplexity(dir + "/m0", 0, "", "", "", "", 1); else if (kind == 1) x = new Perplexity(dir + "/b1", 1, "", "", "", "", 0); else if (kind == 2) x = new Perplexity(dir + "/m0", 0, dir + "/ccs", "", dir + "/mbs", "", 0, false); else if (kind == 3) x = new Perplexity(std::make_shared<InterTreeGram>(Words{dir + "/m0", dir + "/m1"}, std::vector<float>{0.75f, 0.25f}), "", "", "", ""); else if (kind == 4) { x = new Perplexity(dir + "/m1", 0, "", "", "", "", 0); x->set_interpolation(dir + "/m0"); x->set_alpha(0.25); } else if (kind == 5) x = new Perplexity(sh.shared, "", "", "", ""); else if (kind == 6) x = new Perplexity(sh.shared, dir + "/ccs", "", dir + "/mbs", ""); else x = new Perplexity(dir + "/m0", 0, "", dir + "/wbs", "", "b", -1); p->reset(x); if (kind == 2 || kind == 6) { x->set_wb_type(Perplexity::MB_LISTED); } if (kind == 7) x->set_wb_type(Perplexity::LISTED); if (kind == 5) x->set_init_hist(1); x->reset_hitrates(); return stats(*x, false); });
    v.push_back([=] { std::string s; for (auto w : {"<s>", "a", "b"}) s += fl((*p)->token_logprob(w)); return s; });
    v.push_back([=] { std::string s; for (auto w : {"a", "zz", "c"}) { float lp = 0; s += fl((*p)->logprob(w, lp)) + fl(lp); } return s + stats(**p, false); });
    v.push_back([=] { return stats(**p, true); });
    v.push_back([=] { return fl((*p)->sentence_logprob("<s> a b a </s>")) + stats(**p, false); });
    v.push_back([=] { In in(TEXT[0]); Mem m; double d = (*p)->logprob_file(in.f, m.f, 2); return strf("%a ", d) + m.str() + stats(**p, true); });
    v.push_back([=] { (*p)->clear_history(); return fl((*p)->word_logprob("a")) + fl((*p)->word_logprob("b")); });
    v.push_back([=] { std::string s = stats(**p, true); p->reset(); return s; });
    return v; }});
}
template <class KT, class CT> static void grow(const std::string &name, int text, bool three, bool abs, bool small, bool clear, float d2, int target, std::string opti = "") {
  S.push_back({name, true, [=](Env &) { auto t = std::make_shared<std::shared_ptr<Varigram_t<KT, CT>>>(); std::vector<Op> v;
    v.push_back([=] { t->reset(new Varigram_t<KT, CT>(three, abs)); (*t)->set_datacost_scale(0.01); (*t)->set_datacost_scale2(d2); if (target) (*t)->set_ngram_prune_target(target); (*t)->set_max_order(4); return std::string(); });
    v.push_back([=] { (*t)->initialize(dir + strf("/t%d", text), 100, 0, 1000, opti.empty() ? "" : dir + "/" + opti, clear ? "<s>" : "", small, ""); Mem m; (*t)->write_vocab(m.f); return m.str(); });
    v.push_back([=] { (*t)->grow(1); Mem m; (*t)->write_debug_counts(m.f); return m.str(); });
    v.push_back([=] { Mem m; (*t)->write(m.f, true); return m.str(); });
    v.push_back([=] { Mem m; (*t)->write_narpa(m.f); return m.str(); });
    v.push_back([=] { t->reset(); return std::string("gone"); });
    return v; }});
}
template <class D, class CT> static void fixed(const std::string &name, int text, int n, bool abs, const char *opti, float prune, bool real, std::vector<int> cut) {
  S.push_back({name, true, [=](Env &) { auto t = std::make_shared<std::shared_ptr<D>>(); auto lm = std::make_shared<std::shared_ptr<TreeGram>>(); std::vector<Op> v; std::string data = dir + strf("/t%d", text);
    v.push_back([=] { t->reset(new D(abs, data, "", *opti ? dir + "/" + opti : "", false, n, 0, 0, nullptr, data, "", 100)); (*t)->init_disc(0.71); (*t)->prune_with_real_counts = real; (*t)->cutoffs = cut; return strf("%ld", (long)(*t)->num_grams()); });
    v.push_back([=] { (*t)->create_model(prune); return strf("%ld", (long)(*t)->num_grams()); });
    v.push_back([=] { Mem m; (*t)->write_counts(m.f); return m.str(); });
    v.push_back([=] { lm->reset(new TreeGram); (*t)->counts2lm(lm->get()); return strf("%d", (*lm)->num_words()); });
    v.push_back([=] { t->reset(); return std::string("gone"); });
    v.push_back([=] { return outw(**lm, false); });
    v.push_back([=] { lm->reset(); return std::string("gone"); });
    return v; }});
}
static void counts(const std::string &name, int text) {
  S.push_back({name, false, [=](Env &) { typedef NgramCounts_t<int, int> N; auto t = std::make_shared<std::shared_ptr<N>>(), u = std::make_shared<std::shared_ptr<N>>(); auto f1 = std::make_shared<std::string>(), f2 = std::make_shared<std::string>(); std::vector<Op> v;
    v.push_back([=] { t->reset(new N(2, 0, 50)); In in(TEXT[text]); return strf("%ld", (*t)->count(in.f, true)); });
    v.push_back([=] { Mem a, b; (*t)->write(a.f, b.f, true); *f1 = a.str(); *f2 = b.str(); return *f1 + *f2; });
    v.push_back([=] { u->reset(new N(1, 0, 7)); In in(TEXT[text]); return strf("%ld", (*u)->count(in.f, true)); });
    v.push_back([=] { (*u)->shrink(1, 3); Mem a, b; (*u)->write(a.f, b.f, true); return a.str() + b.str(); });
    v.push_back([=] { t->reset(new N(2, 0, 50)); In a(*f1), b(*f2); (*t)->read(a.f, b.f); Mem x, y; (*t)->write(x.f, y.f, true); return x.str() + y.str(); });
    v.push_back([=] { t->reset(); Mem a, b; (*u)->write(a.f, b.f, false); return a.str() + b.str(); });
    v.push_back([=] { u->reset(); return std::string("gone"); });
    return v; }});
}
template <class K> static std::string dump(sikMatrix<K, int> &m, bool sorted) { std::string s; std::vector<K> k(m.dims); int x; std::multiset<std::string> o; m.stept_sortsearch = sorted; m.stept(true, &k[0], &x); while (m.stept(false, &k[0], &x)) { std::string e; for (auto y : k) e += strf("%d,", (int)y); e += strf("=%d ", x); if (sorted) s += e; else o.insert(e); } for (auto &e : o) s += e; return s; }
template <class K> static void table(const std::string &name, int dims, int hash) {
  S.push_back({name, false, [=](Env &) { auto t = std::make_shared<std::shared_ptr<sikMatrix<K, int>>>(); std::vector<Op> v; auto put = [=](int n, int mul) { for (int i = 0; i < n; i++) { std::vector<K> k(dims); int x = i * mul; for (auto &y : k) { y = x % 3; x /= 3; } (*t)->increment(&k[0], i + 1); } };
    v.push_back([=] { t->reset(new sikMatrix<K, int>(dims, hash, 0)); put(9, 1); return dump(**t, false); });
    v.push_back([=] { return dump(**t, true); });
    v.push_back([=] { std::vector<K> k(dims); int x; std::string s; (*t)->stepthrough(true, &k[0], &x); while ((*t)->stepthrough(false, &k[0], &x)) if (x % 2) (*t)->delete_current_st(); return dump(**t, true); });
    v.push_back([=] { std::vector<K> k(dims); int x; (*t)->ordered_stepthrough(true, &k[0], &x); (*t)->ordered_stepthrough(false, &k[0], &x); return strf("%d", x); }); // abandoned
    v.push_back([=] { put(27, 2); std::vector<K> k(dims); int x; (*t)->stepthrough(true, &k[0], &x); (*t)->stepthrough(false, &k[0], &x); return dump(**t, false); });
    v.push_back([=] { std::vector<K> k(dims); int x; std::string s = dump(**t, true); (*t)->clear(); put(3, 1); (*t)->stepthrough(true, &k[0], &x); (*t)->stepthrough(false, &k[0], &x); return s; }); // abandoned
    v.push_back([=] { std::string s = dump(**t, false); t->reset(); return s; });
    return v; }});
}
static void journal(const std::string &name) {
  S.push_back({name, false, [=](Env &) { typedef MultiOrderCounts_1nzer<int, int> Mo; auto t = std::make_shared<std::shared_ptr<Mo>>(); auto voc = std::make_shared<Vocabulary>(); std::vector<Op> v;
    auto show = [=] { std::string s; for (int o = 1; o <= (*t)->order(); o++) { std::vector<int> k(o); int x; std::set<std::string> e; (*t)->StepCountsOrder(true, o, &k[0], &x); while ((*t)->StepCountsOrder(false, o, &k[0], &x)) { std::string y; for (auto z : k) y += strf("%d,", z); e.insert(y + strf("=%d ", x)); } for (auto &y : e) s += y; } return s; };
    v.push_back([=] { t->reset(new Mo); In in(TEXT[0]); voc->clear_words(); long n = (*t)->InitializeCountsFromText(in.f, voc.get(), true, 2, ""); return strf("%ld ", n) + show(); });
    v.push_back([=] { (*t)->ResetCaches(); int k[2] = {1, 2}; int a = (*t)->IncrementCountCache(2, k, 3); int j[3] = {1, 2, 1}; int b = (*t)->IncrementCountCache(3, j, 2); return strf("%d %d ", a, b) + show(); });
    v.push_back([=] { std::vector<int> g; std::string s; for (int i = 0; i < 4; i++) { (*t)->NextVector(g); for (auto x : g) s += strf("%d,", x); s += " "; } return s; });
    v.push_back([=] { (*t)->UndoCached(); return show(); });
    v.push_back([=] { std::vector<int> g; std::string s; for (int i = 0; i < 40 && (*t)->NextVector(g); i++) { for (auto x : g) s += strf("%d,", x); s += " "; } return s; });
    v.push_back([=] { int k[2] = {2, 1}; (*t)->ResetCaches(); (*t)->IncrementCountCache(2, k, -1); (*t)->UndoCached(); (*t)->IncrementCount(2, k, 5); return show(); });
    v.push_back([=] { t->reset(); return std::string("gone"); });
    return v; }});
}
static void reader(const std::string &name, std::string model) {
  S.push_back({name, false, [=](Env &) { struct R { Vocabulary v; ArpaReader a; In in; std::string line; std::vector<int> g; float lp, bo; bool i; R(const std::string &m) : a(&v), in(m), g(1), i(false) {} std::string next(int n) { std::string s; for (int k = 0; k < n && a.next_gram(in.f, line, g, lp, bo); k++) { for (auto x : g) s += strf("%d,", x); s += fl(lp) + fl(bo); } return s; } }; auto r = std::make_shared<std::shared_ptr<R>>(); auto so = std::make_shared<std::shared_ptr<io::Stream>>(); std::vector<Op> v;
    v.push_back([=] { r->reset(new R(model)); std::string l; (*r)->a.read_header((*r)->in.f, (*r)->i, (*r)->line); std::string s; for (auto x : (*r)->a.counts) s += strf("%d ", x); return s; });
    v.push_back([=] { return (*r)->next(3); });
    v.push_back([=] { so->reset(new io::Stream(dir + "/t0", "r")); std::string l; str::read_line(&l, (*so)->file); return l; });
    v.push_back([=] { return (*r)->next(4); });
    v.push_back([=] { std::string l; str::read_line(&l, (*so)->file); (*so)->close(); return l; });
    v.push_back([=] { std::string s = (*r)->next(1000); Mem m; (*r)->v.write(m.f); return s + m.str(); });
    v.push_back([=] { r->reset(); so->reset(); return std::string("gone"); });
    return v; }});
}
static std::vector<std::vector<std::string>> EXP; // results of the lone runs
static std::vector<int> LEN;
static void fresh_env(Env &e) { auto t = std::make_shared<TreeGram>(); In in(M[0]); t->read(in.f, false); e.shared = t; }
static bool lone(int s, std::vector<std::string> &out) { // in a fresh process
  int p[2]; if (pipe(p)) return false; fflush(0); pid_t c = fork();
  if (!c) { close(p[0]); FILE *o = fdopen(p[1], "w"); int n = open("/dev/null", O_WRONLY); if (!getenv("VK_STDERR")) dup2(n, 2); dup2(n, 1); fill_byte = 0x5a; Env e; fresh_env(e); auto v = S[s].make(e); for (auto &op : v) { std::string r = op(); size_t z = r.size(); fwrite(&z, sizeof z, 1, o); fwrite(r.data(), 1, z, o); } fclose(o); _exit(0); }
  close(p[1]); FILE *i = fdopen(p[0], "r"); out.clear(); size_t z; while (fread(&z, sizeof z, 1, i) == 1) { std::string r(z, 0); if (z && fread(&r[0], 1, z, i) != z) break; out.push_back(r); } fclose(i); int st; waitpid(c, &st, 0); return st == 0;
}
static std::string sched(const std::vector<int> &who, const std::vector<int> &sc) { std::string s; for (size_t k = 0; k < sc.size(); k++) s += strf("%s%c = %s", k ? ", " : "", 'A' + (int)k, S[sc[k]].name.c_str()); s += ", order "; for (auto w : who) s += 'A' + w; return s; }
static bool play(Ctx &c, const std::vector<int> &sc, const std::vector<int> &who) { // one schedule
  Env e; bool shared = false; for (auto s : sc) shared |= S[s].name.find("shared") != std::string::npos; if (shared) fresh_env(e);
  std::vector<std::vector<Op>> v; for (auto s : sc) v.push_back(S[s].make(e)); std::vector<size_t> pos(sc.size(), 0); uint64_t h = 0;
  for (auto w : who) { int s = sc[w]; size_t k = pos[w]++; std::string r; try { r = v[w][k](); } catch (std::exception &x) { r = std::string("exception ") + x.what(); } c.steps(1); c.queries(1);
    if (r != EXP[s][k]) { size_t d = 0; while (d < r.size() && d < EXP[s][k].size() && r[d] == EXP[s][k][d]) d++; size_t b = d > 15 ? d - 15 : 0; c.fail("interference", "%s: operation %zu of %s gives [%s], alone [%s] (at byte %zu)", sched(who, sc).c_str(), k + 1, S[s].name.c_str(), show(r.substr(b, 60)).c_str(), show(EXP[s][k].substr(b, 60)).c_str(), d); return false; }
    for (size_t x = 0; x < pos.size(); x++) h = h * 31 + pos[x] * 7 + sc[x]; }
  c.outcome(h); c.validated(1); return true;
}
// every schedule of the scripts with at most `sw` switches; first: who starts
static bool all(Ctx &c, const std::vector<int> &sc, int sw, std::vector<int> &who, std::vector<int> &left, int cur, int total) {
  if (!total) return play(c, sc, who);
  for (int w = 0; w < (int)sc.size(); w++) { if (!left[w]) continue; int s = cur >= 0 && w != cur ? sw - 1 : sw; if (s < 0) continue;
    if (s == 0) { bool other = false; for (int x = 0; x < (int)sc.size(); x++) other |= x != w && left[x]; if (other) continue; }
    who.push_back(w); left[w]--; bool ok = all(c, sc, s, who, left, w, total - 1); left[w]++; who.pop_back(); if (!ok) return false; }
  return true;
}
static void models() {
  auto mk = [](int k) { lmgen::Shape s; if (k == 0 || k == 2) { s.vocab = {"<UNK>", "<s>", "</s>", "a", "b", "c"}; s.grams = {{"<s>", "a"}, {"a", "b"}, {"b", "a"}, {"b", "</s>"}, {"a", "c"}, {"<s>", "a", "b"}, {"a", "b", "a"}}; s.order = 3; } else { s.vocab = {"<UNK>", "b", "<s>", "d", "a", "</s>", "g"}; s.grams = {{"b", "a"}, {"a", "a"}, {"a", "d"}, {"<s>", "b"}, {"a", "</s>"}}; s.order = 2; } return s; };
  for (int k = 0; k < 2; k++) { auto s = mk(k); M[k] = lmgen::render(lmgen::make(s, lmgen::BO_NEG, "<s>")); MI[k] = lmgen::render(lmgen::make(s, lmgen::INTERP, "<s>")); }
  // the binary form is written by a child process, so that nothing of the library has run in this one
  for (int k = 0; k < 2; k++) { std::string b = dir + strf("/b%d", k); fflush(0); pid_t p = fork(); if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); TreeGram t; In in(M[k]); t.read(in.f, false); FILE *o = fopen(b.c_str(), "w"); t.write(o, true); fclose(o); _exit(0); } int st; waitpid(p, &st, 0); BIN[k] = read_file(b); write_file(dir + strf("/m%d", k), M[k]); write_file(dir + strf("/t%d", k), TEXT[k]); }
  write_file(dir + "/t2", TEXT[2]); write_file(dir + "/ccs", "</s>\n"); write_file(dir + "/wbs", "b\n</s>\n"); write_file(dir + "/mbs", "^a\nb$\n"); write_file(dir + "/o0", "<s> a b b a </s>\n<s> a c </s>\n");
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C24") return false;
  d.level = "model_checking"; d.chunk = 1; d.respawn_after = 100; dir = scratch() + "/shared"; mkdir(dir.c_str(), 0700); models();
  tree("tree model", M[0], false, false); tree("tree model, interpolated", MI[1], false, true); tree("tree model, binary", BIN[1], true, false);
  hash<int>("hash model", M[0], ""); hash<unsigned short>("hash model, small indices", MI[1], ""); hash<int>("hash models merged", M[0], M[1]);
  scorer("scorer, hash", 0); scorer("scorer, binary tree", 1); scorer("scorer, word marks", 2); scorer("scorer, mixture", 3); scorer("scorer, pair of models", 4); scorer("scorer on a shared model", 5); scorer("second scorer on a shared model", 6); scorer("scorer, listed breaks", 7);
  grow<int, int>("growing trainer", 0, false, false, false, false, 0, 0); grow<unsigned short, int>("growing trainer, three discounts, history cleared", 1, true, false, false, true, 0, 0); grow<int, int>("growing trainer, streamed data, pruned", 1, false, false, true, false, 0.02, 0); grow<int, long>("growing trainer, size target, held-out text", 0, false, true, false, false, 0.001, 12, "o0");
  fixed<InterKn_int_disc<int, int>, int>("fixed-order trainer", 0, 3, false, "", 0, false, {}); fixed<InterKn_int_disc3<int, int>, int>("fixed-order trainer, three discounts, real counts", 1, 3, false, "", 0.05, true, {}); fixed<InterKn_int_disc<unsigned short, long>, long>("fixed-order trainer, cutoffs, held-out text", 1, 2, true, "o0", 0, false, {0, 1});
  // the same trainers again on other data: whatever one of them keeps for itself differs
  grow<int, int>("growing trainer, three discounts, other data", 2, true, false, false, false, 0, 0); fixed<InterKn_int_disc<int, int>, int>("fixed-order trainer, other data", 1, 2, false, "", 0.05, false, {}); fixed<InterKn_int_disc3<int, int>, int>("fixed-order trainer, three discounts, other data", 2, 2, false, "", 0, false, {});
  counts("count collection", 0); table<int>("count table, 2 keys", 2, 5); table<unsigned short>("count table, 3 keys", 3, 2000); journal("count journal"); reader("file readers", M[0]);
  int n = S.size(); EXP.clear(); std::string bad;
  for (int s = 0; s < n; s++) { std::vector<std::string> r; bool ok = lone(s, r); Env e; EXP.push_back(r); std::vector<std::string> r2; size_t ops = S[s].make(e).size(); LEN.push_back(ops); bool same = lone(s, r2) && r == r2; if (!ok || r.size() != ops || !same) { EXP.back().resize(ops, ok ? "(different alone)" : "(died alone)"); if (getenv("VK_STDERR")) fprintf(stderr, "LONE %s ok %d size %zu same %d\n", S[s].name.c_str(), ok, r.size(), same); } }
  { Family f; f.name = "one object after another"; f.timeout_s = 300; f.n = (uint64_t)n * n; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int a = g.next(n), b = g.i; for (int x = 0; x < (thorough ? n : 1); x++) { std::vector<int> sc = {a, b, thorough ? x : a}; std::vector<int> who; for (int k = 0; k < 3; k++) who.insert(who.end(), LEN[sc[k]], k); if (!play(c, sc, who)) return; } }; f.desc = [=](uint64_t i) { Digits g(i); int a = g.next(n); return S[a].name + ", then " + S[g.i].name + ", then another"; }; d.families.push_back(f); }
  int sw = thorough ? 6 : 3, swh = thorough ? 5 : 3;
  for (int heavy = 0; heavy < 2; heavy++) { std::vector<std::pair<int, int>> pr; for (int a = 0; a < n; a++) for (int b = a; b < n; b++) if ((S[a].heavy || S[b].heavy) == heavy) pr.push_back({a, b}); int k = heavy ? swh : sw;
    Family f; f.name = heavy ? "interleavings with a trainer" : "interleavings"; f.timeout_s = 900; f.n = pr.size(); f.run = [=](uint64_t i, Ctx &c) { std::vector<int> sc = {pr[i].first, pr[i].second}, who, left = {LEN[sc[0]], LEN[sc[1]]}; all(c, sc, k, who, left, -1, left[0] + left[1]); }; f.desc = [=](uint64_t i) { return S[pr[i].first].name + " with " + S[pr[i].second].name; }; d.families.push_back(f); }
  if (thorough) { Family f; f.name = "three objects"; f.timeout_s = 900; std::vector<int> l; for (int s = 0; s < n; s++) if (!S[s].heavy) l.push_back(s); unsigned m = l.size(); f.n = (uint64_t)m * m * m; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int a = g.next(m), b = g.next(m), x = g.i; if (a > b || b > x) { c.trivial(); return; } std::vector<int> sc = {l[a], l[b], l[x]}, who, left = {LEN[sc[0]], LEN[sc[1]], LEN[sc[2]]}; all(c, sc, 3, who, left, -1, left[0] + left[1] + left[2]); }; f.desc = [=](uint64_t i) { Digits g(i); int a = g.next(m), b = g.next(m); return S[l[a]].name + " with " + S[l[b]].name + " with " + S[l[g.i]].name; }; d.families.push_back(f); }
  d.rule = "A script is the life of an object (load or construct, use it in several ways, traverse half-way, write it, destroy it) as 6 to 8 operations. The result of every operation (bit patterns of probabilities, bytes written, counters) is recorded in a fresh process with nothing else in it, and must be the same at every position of every schedule of two (thorough: three) scripts in one process, two scripts of the same kind included, and for scripts one after the other. Address sanitizer is on.";
  d.bounds = strf("%d scripts; all schedules of all pairs with at most %d switches between the objects (%d when a trainer takes part)%s; all sequences of %s scripts", n, sw, swh, thorough ? "; triples with at most 3 switches" : "", thorough ? "three" : "two (the first repeated)");
  d.assumptions.push_back("one traversal of a count table at a time: the table library keeps one documented traversal position per process");
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
