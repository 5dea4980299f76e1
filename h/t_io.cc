// C06: truncated model files.
#include "lmgen.hh"
#include <signal.h>
#include <unistd.h>
using namespace mc; using namespace vk; using namespace lmgen;
struct Consumer { std::string name, tool; Args args; bool out = true; }; // %m model, %o output
struct ModelFile { std::string what, data; int type; }; // type 0 ARPA, 1 binary, 2 gzipped ARPA, 3 gzipped binary
static std::vector<ModelFile> files;
static std::vector<Consumer> consumers(int type) {
  std::vector<Consumer> v; auto add = [&](const char *n, const char *t, Args a) { Consumer c; c.name = n; c.tool = t; c.args = a; v.push_back(c); };
  if (type == 0) {
    add("arpa2bin", "arpa2bin", {"%m", "%o"}); add("arpa2arpa", "arpa2arpa", {"%m", "%o"}); add("add_zeroprob_grams", "add_zeroprob_grams", {"%m", "%o"}); add("add_zeroprob_grams -s", "add_zeroprob_grams", {"-s", "%m", "%o"});
    add("perplexity -a", "perplexity", {"-a", "%m", "%t", "%o"}); add("perplexity -f -a", "perplexity", {"-f", "-a", "%m", "%t", "%o"}); add("perplexity -f -s -a", "perplexity", {"-f", "-s", "-a", "%m", "%t", "%o"});
    add("perplexity -i (second model)", "perplexity", {"-a", "%a", "-i", "%m", "%t", "%o"}); add("perplexity -i (first model)", "perplexity", {"-a", "%m", "-i", "%a", "%t", "%o"}); add("perplexity -f -i", "perplexity", {"-f", "-a", "%a", "-i", "%m", "%t", "%o"});
    add("simpleinterpolate2arpa (first model)", "simpleinterpolate2arpa", {"%m,0.5;%a,0.5", "%o"}); add("simpleinterpolate2arpa (second model)", "simpleinterpolate2arpa", {"%a,0.5;%m,0.5", "%o"});
    add("arpasize -a", "arpasize", {"-a", "%m", "%o"}); add("arpasize -S", "arpasize", {"-a", "-S", "%m", "%o"}); add("check_model -a", "check_model", {"-a", "%m", "%t"});
  } else if (type == 1) {
    add("bin2arpa", "bin2arpa", {"%m", "%o"}); add("perplexity -A", "perplexity", {"-A", "%m", "%t", "%o"}); add("arpasize", "arpasize", {"%m", "%o"}); add("check_model", "check_model", {"%m", "%t"});
  } else if (type == 2) { add("arpa2bin", "arpa2bin", {"%m", "%o"}); add("add_zeroprob_grams", "add_zeroprob_grams", {"%m", "%o"}); add("perplexity -a", "perplexity", {"-a", "%m", "%t", "%o"}); }
  else { add("bin2arpa", "bin2arpa", {"%m", "%o"}); add("perplexity -A", "perplexity", {"-A", "%m", "%t", "%o"}); }
  return v;
}
static std::string run_consumer(Ctx &c, const Consumer &k, const std::string &m, Res &r) {
  std::string o = path("o"), t = path("t.txt"), a = path("other.arpa"); remove_file(o); Args args;
  for (auto x : k.args) { for (auto &s : {std::make_pair("%m", m), std::make_pair("%o", o), std::make_pair("%t", t), std::make_pair("%a", a)}) { size_t p; while ((p = x.find(s.first)) != std::string::npos) x.replace(p, 2, s.second); } args.push_back(x); }
  r = run(c, k.tool, args); std::string out = r.out; size_t p; // the output without the model's name
  while ((p = out.find(m)) != std::string::npos) out.replace(p, m.size(), "M");
  return out + "\x01" + read_file(o);
}
static std::map<std::string, std::string> memo;
static void prep() { write_file(path("t.txt"), "<s> a longlongworda zz a </s>\n<s> </s>\n"); write_file(path("other.arpa"), "\\data\\\nngram 1=3\nngram 2=1\n\n\\1-grams:\n-0.6 <UNK>\n-0.4 a -0.2\n-0.5 q\n\n\\2-grams:\n-0.2 a q\n\n\\end\\\n"); }
static void c06(Ctx &c, const ModelFile &f, uint64_t cut) {
  static const char *SUF[] = {"", "", ".gz", ".gz"}; std::string m = path(std::string("model") + SUF[f.type]); prep(); uint64_t q = 0; std::string codes;
  bool interp = f.data.compare(0, 14, "\\interpolated\n") == 0;
  for (auto &k : consumers(f.type)) {
    if (interp && k.tool == "simpleinterpolate2arpa") continue; // takes back-off models only
    std::string key = f.what + "|" + k.name; auto e = memo.find(key); Res r;
    if (e == memo.end()) { write_file(m, f.data); std::string o = run_consumer(c, k, m, r); if (!r.ok()) { c.fail("complete-rejected", "%s: the complete model is rejected: %s", k.name.c_str(), r.how().c_str()); return; } e = memo.insert({key, o}).first; }
    write_file(m, f.data.substr(0, cut)); std::string o = run_consumer(c, k, m, r); q++; codes += r.ok() ? 'a' : 'r';
    if (r.memory || (r.signaled && r.sig != SIGABRT)) { c.fail(k.tool, "%s on the model cut at byte %llu of %zu: %s", k.name.c_str(), (unsigned long long)cut, f.data.size(), r.how().c_str()); return; }
    if (r.ok() && o != e->second) { c.fail(k.tool, "%s accepts the model cut at byte %llu of %zu and gives another result: %s", k.name.c_str(), (unsigned long long)cut, f.data.size(), show(o).c_str()); return; }
    if (r.ok() && k.tool == "arpasize" && k.name == "arpasize -S") continue;
    if (r.ok() && cut + 2 < f.data.size() && f.type < 2) { c.fail(k.tool, "%s accepts the model cut at byte %llu of %zu", k.name.c_str(), (unsigned long long)cut, f.data.size()); return; }
  }
  c.outcome(hash64(f.what + codes + std::to_string(cut))); c.queries(q); c.validated(1);
}
// lines lost or repeated inside the file, the header untouched
static void c06_lines(Ctx &c, const ModelFile &f, size_t i, size_t j, bool rep) {
  std::vector<std::string> L; { std::istringstream is(f.data); std::string l; while (std::getline(is, l)) L.push_back(l); } std::string t; bool gram = false;
  for (size_t k = 0; k < L.size(); k++) { bool in = k >= i && k <= j; if (in && !L[k].empty() && L[k][0] != '\\') gram = true; if (!in || rep) t += L[k] + "\n"; if (rep && k == j) for (size_t x = i; x <= j; x++) t += L[x] + "\n"; }
  if (!gram) { c.trivial(); return; } prep(); std::string m = path("model"); write_file(m, t); bool interp = f.data.compare(0, 14, "\\interpolated\n") == 0; uint64_t q = 0;
  for (auto &k : consumers(0)) { if ((interp && k.tool == "simpleinterpolate2arpa") || k.name == "arpasize -S") continue; Res r; run_consumer(c, k, m, r); q++;
    if (r.memory || (r.signaled && r.sig != SIGABRT)) { c.fail(k.tool, "%s: %s", k.name.c_str(), r.how().c_str()); return; }
    if (r.ok()) { c.fail(k.tool, "%s accepts the model", k.name.c_str()); return; } }
  c.outcome(hash64(t)); c.queries(q); c.validated(1);
}
// independent writer of the binary format
static std::string render_bin(const Model &m) {
  std::string r = std::string("cis-binlm2\n") + (m.interp ? "interpolated" : "backoff") + strf("\n%zu\n", m.vocab.size()); std::map<std::string, int> id; for (auto &w : m.vocab) { int n = id.size(); id[w] = n; r += w + "\n"; }
  std::vector<std::vector<std::pair<std::vector<int>, Entry>>> sec(m.order + 1); for (auto &x : m.g) { std::vector<int> k; for (auto &w : x.first) k.push_back(id[w]); sec[k.size()].push_back({k, x.second}); }
  size_t n = 0; for (auto &s : sec) { std::sort(s.begin(), s.end(), [](const std::pair<std::vector<int>, Entry> &a, const std::pair<std::vector<int>, Entry> &b) { return a.first < b.first; }); n += s.size(); }
  r += strf("%d %zu\n", m.order, n + 1); for (int o = 1; o <= m.order; o++) r += strf("%zu\n", sec[o].size());
  auto put = [&](int w, float lp, float bo, int ch) { char b[16]; memcpy(b, &w, 4); memcpy(b + 4, &lp, 4); memcpy(b + 8, &bo, 4); memcpy(b + 12, &ch, 4); r.append(b, 16); };
  size_t base = 0; for (int o = 1; o <= m.order; o++) { base += sec[o].size(); size_t j = 0; for (auto &x : sec[o]) { int ch = -1; if (o < m.order) { while (j < sec[o + 1].size() && std::vector<int>(sec[o + 1][j].first.begin(), sec[o + 1][j].first.end() - 1) < x.first) j++; ch = base + j; } put(x.first.back(), x.second.lp, x.second.bo, ch); } }
  put(0, -99, 0, -1); return r;
}
static std::string gz(const std::string &d) { char t[] = "/tmp/vkgzXXXXXX"; int fd = mkstemp(t); close(fd); write_file(t, d); std::string r; FILE *f = popen((std::string("gzip -9nc ") + t).c_str(), "r"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); pclose(f); unlink(t); return r; }
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C06") return false;
  load_tools({"arpa2bin", "bin2arpa", "arpa2arpa", "add_zeroprob_grams", "perplexity", "simpleinterpolate2arpa", "arpasize", "check_model"});
  static const Kind K[] = {BO_NEG, BO_POS, INTERP, INTERP_BK};
  auto add = [&](const std::string &n, Words vocab, std::set<Words> grams, int kind, int lay, bool bin, bool comp) {
    Shape s; s.vocab = vocab; s.grams = grams; s.order = 1; for (auto &g : grams) s.order = std::max<int>(s.order, g.size());
    Layout l; l.sep = lay % 5; l.zero_bo = lay >= 5; l.blank = lay >= 5; Model m = make(s, K[kind], std::find(vocab.begin(), vocab.end(), "<s>") != vocab.end() ? "<s>" : "");
    std::string A = render(m, l), nm = strf("%s, kind %d, layout %d", n.c_str(), kind, lay);
    if (!bin) files.push_back({"ARPA, " + nm, A, 0}); else files.push_back({"binary, " + nm, render_bin(m), 1});
    if (comp) files.push_back({"gzip " + nm, gz(bin ? render_bin(m) : A), bin ? 3 : 2}); };
  std::vector<Words> V = {{"<UNK>", "a"}, {"<UNK>", "a", "longlongworda", "longlongwordb"}, {"<UNK>", "<s>", "a", "</s>"}};
  std::vector<std::set<Words>> G; G.push_back({}); G.push_back({{"a", "a"}}); G.push_back({{"a", "<UNK>"}, {"a", "a"}, {"a", "a", "a"}}); G.push_back({{"a", "a"}, {"a", "a", "<UNK>"}, {"a", "a", "a"}, {"a", "a", "a", "a"}});
  for (int kind = 0; kind < 4; kind++) for (size_t g = 0; g < G.size(); g++) { if (kind && g != 2 && !thorough) continue; add("2 words, set " + std::to_string(g), V[0], G[g], kind, (kind + g) % 2, false, kind == 0 && g >= 2); }
  add("long words", V[1], {{"a", "longlongworda"}, {"longlongworda", "longlongwordb"}, {"a", "longlongworda", "longlongwordb"}}, 0, 5, false, false);
  add("sentence", V[2], {{"<s>", "a"}, {"a", "</s>"}, {"a", "a"}, {"<s>", "a", "</s>"}, {"<s>", "a", "a"}}, 0, 0, false, false);
  add("sentence", V[2], {{"<s>", "a"}, {"a", "</s>"}, {"a", "a"}, {"<s>", "a", "</s>"}}, 3, 7, false, false);
  for (int kind = 0; kind < 4; kind++) for (size_t g = 0; g < G.size(); g++) { if (kind && g != 2 && !thorough) continue; add("2 words, set " + std::to_string(g), V[0], G[g], kind, 0, true, kind == 0 && g >= 2); }
  { Words w = {"<UNK>"}; for (int i = 0; i < 12; i++) w.push_back(strf("w%d", i)); std::set<Words> g; for (int i = 0; i < 11; i++) g.insert({"w3", strf("w%d", i)}); add("13 words", w, g, 0, 0, true, true); add("13 words", w, g, 0, 0, false, true); }
  add("long words", V[1], {{"a", "longlongworda"}, {"longlongworda", "longlongwordb"}, {"a", "longlongworda", "longlongwordb"}}, 0, 5, true, false);
  add("sentence", V[2], {{"<s>", "a"}, {"a", "</s>"}, {"a", "a"}, {"<s>", "a", "</s>"}, {"<s>", "a", "a"}}, 2, 0, true, false);
  static const char *FN[] = {"cut-arpa", "cut-binary", "cut-arpa-gz", "cut-binary-gz"};
  for (int t = 0; t < 4; t++) {
    auto ix = std::make_shared<std::vector<std::pair<size_t, uint64_t>>>(); for (size_t i = 0; i < files.size(); i++) if (files[i].type == t) for (uint64_t p = 0; p < files[i].data.size(); p++) ix->push_back({i, p});
    Family f; f.name = FN[t]; f.n = ix->size(); f.run = [=](uint64_t i, Ctx &c) { c06(c, files[(*ix)[i].first], (*ix)[i].second); };
    f.desc = [=](uint64_t i) { auto &x = (*ix)[i]; return strf("%s cut at byte %llu of %zu", files[x.first].what.c_str(), (unsigned long long)x.second, files[x.first].data.size()); };
    d.families.push_back(f);
  }
  for (int rep = 0; rep < 2; rep++) {
    struct Ix { size_t f, i, j; }; auto ix = std::make_shared<std::vector<Ix>>();
    for (size_t f = 0; f < files.size(); f++) if (files[f].type == 0) { std::vector<std::string> L; std::istringstream is(files[f].data); std::string l; size_t first = 0; while (std::getline(is, l)) { L.push_back(l); if (l == "\\1-grams:") first = L.size() - 1; } for (size_t i = first; i < L.size(); i++) for (size_t j = i; j < L.size() && !(rep && L[j] == "\\end\\"); j++) ix->push_back({f, i, j}); }
    Family f; f.name = rep ? "repeated-lines" : "missing-lines"; f.n = ix->size(); f.run = [=](uint64_t n, Ctx &c) { auto &x = (*ix)[n]; c06_lines(c, files[x.f], x.i, x.j, rep); };
    f.desc = [=](uint64_t n) { auto &x = (*ix)[n]; return strf("%s, lines %zu to %zu %s", files[x.f].what.c_str(), x.i + 1, x.j + 1, rep ? "repeated" : "missing"); };
    d.families.push_back(f);
  }
  d.level = "fault_enumeration"; d.chunk = 16;
  d.rule = "Every model file of the list is cut at every byte position and given to every tool that reads that format (address sanitizer builds): the tool must end with a nonzero status, without memory error, signal other than abort, or hang; success is only allowed when at most the final newline and backslash-free tail is missing and the result equals that for the complete file. Compressed files are cut at every byte of the compressed stream; there success is allowed only with the result of the complete file.";
  d.bounds = strf("%zu model files (ARPA, binary, both gzip-compressed), every cut position, up to 15 tool modes each", files.size());
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
