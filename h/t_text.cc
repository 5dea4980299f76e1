// C19: only the token sequence of a text matters.
#include "vk.hh"
#include <functional>
using namespace mc; using namespace vk;
struct Job { std::string name, tool; Args args; std::string where; bool slow = false; }; // %T the text under test, %M / %B a model, %O the output, %L / %V / %X given lists, %P second output
static std::vector<Job> J; static bool deepest = false;
static std::vector<Job> jobs() {
  std::vector<Job> v; auto add = [&](std::string n, std::string t, Args a, bool slow = false) { Job j; j.name = n; j.tool = t; j.args = a; j.slow = slow; v.push_back(j); };
  add("counts2kn", "counts2kn", {"-a", "-n", "3", "-W", "%Q", "-U", "%P", "%T", "%O"});
  add("counts2kn -s -f (two readings)", "counts2kn", {"-a", "-n", "2", "-s", "-f", "20", "-U", "%P", "%T", "%O"});
  add("counts2kn -o", "counts2kn", {"-a", "-n", "2", "-o", "%T", "%V", "%O"});
  add("counts2kn -B text", "counts2kn", {"-a", "-n", "2", "-B", "%T", "%V", "%O"});
  add("counts2kn -r -p", "counts2kn", {"-a", "-n", "3", "-r", "-p", "0.01", "%T", "%O"});
  add("varigram_kn", "varigram_kn", {"-a", "-n", "4", "-D", "0.01", "-U", "%P", "%T", "%O"});
  add("varigram_kn -S", "varigram_kn", {"-a", "-n", "3", "-D", "0.01", "-S", "%T", "%O"});
  add("varigram_kn -s -d", "varigram_kn", {"-a", "-n", "3", "-D", "0.01", "-s", "-d", "1", "%T", "%O"});
  add("perplexity -a -S", "perplexity", {"-a", "%M", "-S", "%P", "%T", "%O"});
  add("perplexity -f", "perplexity", {"-a", "%M", "-f", "-S", "%P", "%T", "%O"});
  add("perplexity -W", "perplexity", {"-a", "%M", "-W", "%L", "-S", "%P", "%T", "%O"});
  add("perplexity -X", "perplexity", {"-a", "%M", "-X", "%L", "-S", "%P", "%T", "%O"});
  add("perplexity -W list", "perplexity", {"-a", "%M", "-W", "%T", "-S", "%P", "%V", "%O"});
  add("perplexity -X list", "perplexity", {"-a", "%M", "-X", "%T", "-S", "%P", "%V", "%O"});
  add("perplexity -C list", "perplexity", {"-a", "%M", "-C", "%T", "-S", "%P", "%V", "%O"});
  add("check_model -d", "check_model", {"-d", "-a", "%M", "%T"});
  return v;
}
struct In { std::string text, model, given, list; };
static Res go(Ctx &c, const Job &j, const In &in, std::string &got) {
  write_file(path("T"), in.text); write_file(path("M"), in.model); write_file(path("V"), in.given); write_file(path("L"), in.list); for (auto n : {"O", "P", "Q"}) remove_file(path(n));
  Args a; for (auto &x : j.args) a.push_back(x[0] == '%' ? path(x.substr(1)) : x); RunOpt o; o.keep_err = j.tool == "check_model"; Res r = run(c, j.tool, a, o); got = strf("status %d\n", r.code) + read_file(path("O")) + "\x01" + read_file(path("P")) + "\x01" + read_file(path("Q")) + "\x01" + r.out;
  if (o.keep_err) { size_t p = 0; std::istringstream is(r.err); std::string l; while (std::getline(is, l)) if (l.find("i.") == std::string::npos && l.find("Opened") == std::string::npos) got += l + "\n"; }
  return r;
}
static std::string cut(const std::string &a, const std::string &b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; size_t s = k > 30 ? k - 30 : 0; return "[" + show(a.substr(s, 80)) + "] instead of [" + show(b.substr(s, 80)) + "]"; }
static bool ref(Ctx &c, const Job &j, const In &in, std::string &e) { Res r = go(c, j, in, e); if (!r.ok()) { c.fail("plain", "%s on [%s]: %s", j.name.c_str(), show(in.text).c_str(), r.how().c_str()); return false; } return true; }
static bool same(Ctx &c, const Job &j, const Res &r, const std::string &got, const std::string &e, const std::string &what) {
  c.queries(1); if (r.memory || r.signaled) { c.fail("crash", "%s, %s: %s", j.name.c_str(), what.c_str(), r.how().c_str()); return false; }
  if (got != e) { c.fail("different", "%s, %s: results differ: %s", j.name.c_str(), what.c_str(), cut(got, e).c_str()); return false; }
  c.outcome(hash64(j.name + what)); c.validated(1); return true;
}
static std::string arpa(const std::string &x, const std::string &y) { // a small model with two words of arbitrary spelling
  return "\\data\\\nngram 1=6\nngram 2=4\nngram 3=2\n\n\\1-grams:\n-0.9 <UNK>\n-0.8 <s> -0.2\n-0.9 </s>\n-0.5 " + x + " -0.3\n-0.7 " + y + " -0.1\n-1.1 c\n\n\\2-grams:\n-0.4 <s> " + x + " -0.1\n-0.3 " + x + " " + y + " -0.2\n-0.6 " + y + " " + x + "\n-0.2 " + y + " </s>\n\n\\3-grams:\n-0.2 <s> " + x + " " + y + "\n-0.1 " + x + " " + y + " " + x + "\n\n\\end\\\n";
}
static bool list_job(const Job &j) { return j.name.find(" list") != std::string::npos; }
static bool line_job(const Job &j) { return j.name == "counts2kn -B text"; } // one word per line
static const std::string GIVEN = "<s> a b a c </s>\n<s> b a q </s>\n<s> a b </s>\n";
static In input(const Job &j, const Words &w) { In in; in.model = arpa("a", "b"); in.given = GIVEN; in.list = "b\n</s>\n"; (void)j; in.text = join(w, line_job(j) ? "\n" : " ") + "\n"; return in; }
static Words base_tokens(const Job &j) { if (list_job(j)) return {"b", "</s>", "c"}; if (line_job(j)) return {"a", "</s>", "<s>", "c"}; return {"<s>", "a", "b", "a", "c", "</s>", "<s>", "b", "a", "</s>"}; }
static const char *SEP[] = {" ", "\n", "\t", "   ", "\n\n", " \t\n ", "\r\n", "\v", "\f", "\n \n"}; static const int NS = 10;
static const char *LSEP[] = {"\n", "\n\n", " \n", "\n ", "\t\n", "\n\t", "\r\n", "\n \n\t \n", "  \n  ", "\t \n"}; // one word per line
// ---------------------------------------------------------------- layouts: every assignment of separators to at most two gaps; to all gaps of short texts
static void k_two(Ctx &c, const Job &j, unsigned g1) {
  Words w = base_tokens(j); std::string e; const char **S = line_job(j) ? LSEP : SEP; if (!ref(c, j, input(j, w), e)) return;
  unsigned n = w.size(); if (g1 > n) { c.trivial(); return; } // gap 0 before the first, gap n after the last token
  for (unsigned g2 = g1; g2 <= n; g2++) for (int s1 = 0; s1 <= NS; s1++) for (int s2 = 0; s2 <= (g2 == g1 ? 0 : NS); s2++) {
    if (!deepest && g2 != g1 && !((s1 >= 1 && s1 <= 3 || s1 == 5) && (s2 >= 1 && s2 <= 3 || s2 == 5))) continue;
    auto sep = [&](unsigned g, int s) { return s == NS ? (g == 0 || g == n ? std::string() : std::string(S[0])) : std::string(S[s]); };
    std::string t; for (unsigned g = 0; g <= n; g++) { if (g == g1) t += sep(g, s1); else if (g == g2) t += sep(g, s2); else if (g == n) t += "\n"; else if (g) t += S[0]; if (g < n) t += w[g]; }
    In in = input(j, w); in.text = t; std::string got; Res r = go(c, j, in, got); if (!same(c, j, r, got, e, "text [" + show(t) + "]")) return; }
}
static void k_all(Ctx &c, const Job &j, const Words &w, unsigned first) { // every gap takes every separator
  std::string e; if (!w.empty() && !ref(c, j, input(j, w), e)) return; if (w.empty()) { In in = input(j, w); go(c, j, in, e); }
  const char **S = line_job(j) ? LSEP : SEP; unsigned n = w.size(), NSS = deepest && w.size() <= 2 ? 6 : 4; if (first > NSS) { c.trivial(); return; } std::vector<unsigned> k(n + 1, 0); k[0] = first;
  for (;;) { std::string t; for (unsigned g = 0; g <= n; g++) { if (g == 0 || g == n) t += k[g] == NSS ? "" : S[k[g]]; else t += S[k[g]]; if (g < n) t += w[g]; }
    In in = input(j, w); in.text = t; std::string got; Res r = go(c, j, in, got); if (!same(c, j, r, got, e, "text [" + show(t) + "]")) return;
    unsigned p = 1; while (p <= n && ++k[p] == (p == n ? NSS + 1 : NSS)) k[p++] = 0; if (p > n) break; }
}
// ---------------------------------------------------------------- lengths and spellings: results as with short tokens, renamed
static std::string replace(std::string s, const std::string &a, const std::string &b) { std::string r; size_t p = 0, q; while ((q = s.find(a, p)) != std::string::npos) { r += s.substr(p, q - p) + b; p = q + a.size(); } return r + s.substr(p); }
static bool renamed(Ctx &c, const Job &j, const std::string &X, const std::string &Y, const std::string &what) { // X, Y in the place of a1 and b1
  const std::string x = "a1", y = "b1"; auto mk = [&](const std::string &p, const std::string &q) { In in; Words w = base_tokens(j); for (auto &t : w) { if (t == "a") t = p; if (t == "b") t = q; } in = input(j, w); in.model = arpa(p, q); in.given = "<s> " + p + " " + q + " " + p + " c </s>\n<s> " + q + " " + p + " </s>\n<s> " + p + " " + q + " </s>\n"; in.list = q + "\n</s>\n"; return in; };
  static std::map<std::string, std::string> memo; if (!memo.count(j.name)) { std::string e; if (!ref(c, j, mk(x, y), e)) return false; memo[j.name] = e; } std::string e = memo[j.name], got; Res r = go(c, j, mk(X, Y), got);
  return same(c, j, r, replace(replace(got, X.size() > Y.size() ? X : Y, X.size() > Y.size() ? x : y), X.size() > Y.size() ? Y : X, X.size() > Y.size() ? y : x), e, what);
}
static std::string word(unsigned n, char last, char fill = 'L') { std::string s(n, fill); s[n - 1] = last; return s; }
static void k_length(Ctx &c, const Job &j, unsigned n) {
  // two words of the same length differing in the last character; a word and its extension by one character
  if (!renamed(c, j, word(n, 'Y'), word(n, 'Z'), strf("two words of %u bytes", n))) return;
  if (n < 1000 && !(j.name == "perplexity -X list" || j.name == "perplexity -X") && !renamed(c, j, "Q" + word(n, 'Y'), word(n, 'Y'), strf("words of %u and %u bytes", n + 1, n))) return;
}
static bool rename_safe(unsigned ch) { return ch > 32 && ch != 127; }
static void k_bytes(Ctx &c, const Job &j, unsigned ch) {
  if (!rename_safe(ch)) { c.trivial(); return; } std::string b(1, (char)ch);
  // the characters the dictionary formats of vocabulary files give a meaning to
  if (line_job(j) && (ch == '(' || ch == '_')) { c.trivial(); return; }
  std::string z = ch == 'Z' ? "QJ" : "QZ";
  if (!deepest) { renamed(c, j, b + "Q" + b + b + "Z7" + b, "JV9", strf("a word with byte %u at its beginning, inside and at its end", ch)); return; }
  for (auto &x : Words{"Q" + b + "Z7", b + "QZ7", "QZ7" + b}) if (!renamed(c, j, x, "JV9", strf("a word [%s] with byte %u", show(x).c_str(), ch))) return;
  if (!renamed(c, j, b + b + "Q" + b + "Q", "JV9", strf("byte %u repeated", ch))) return;
}
// ---------------------------------------------------------------- offsets: the text moved through every position around the buffer sizes
static void k_offset(Ctx &c, const Job &j, unsigned from, unsigned to) {
  Words w = base_tokens(j); std::string e; if (!ref(c, j, input(j, w), e)) return; const std::string s = line_job(j) ? "\n" : " ";
  for (unsigned k = from; k < to; k++) for (int kind = 0; kind < 3; kind++) { In in = input(j, w); std::string t = in.text; if (kind == 0) in.text = std::string(k, line_job(j) ? '\n' : ' ') + t; else if (kind == 1) in.text = t.substr(0, t.size() - 1) + std::string(k, ' ') + (k % 2 ? "\n" : ""); else { size_t p = t.find(s, 4); in.text = t.substr(0, p) + std::string(k, ' ') + t.substr(p); } // blanks before, after, inside
    std::string got; Res r = go(c, j, in, got); if (!same(c, j, r, got, e, strf("%u blanks %s the text", k, kind == 0 ? "before" : kind == 1 ? "after" : "inside"))) return; }
}
// ---------------------------------------------------------------- model files with long lines
struct MJob { const char *name, *tool; Args args; };
static std::vector<MJob> MJ() { return {{"arpa2arpa", "arpa2arpa", {"%M", "%O"}}, {"arpa2bin, bin2arpa", "arpa2bin", {"%M", "%O"}}, {"add_zeroprob_grams", "add_zeroprob_grams", {"%M", "%O"}}, {"simpleinterpolate2arpa", "simpleinterpolate2arpa", {"%M,0.5;%M,0.5", "%O"}}, {"perplexity", "perplexity", {"-a", "%M", "-S", "%P", "%T", "%O"}}, {"perplexity -f", "perplexity", {"-a", "%M", "-f", "-S", "%P", "%T", "%O"}}, {"arpasize", "arpasize", {"-a", "%M", "%O"}}}; }
static std::string deep(const Words &w) { // a chain model: every prefix of w is an n-gram
  std::string s = "\\data\\\n"; unsigned n = w.size(); s += strf("ngram 1=%u\n", n + 1); for (unsigned o = 2; o <= n; o++) s += strf("ngram %u=1\n", o); s += "\n\\1-grams:\n-1.2 <UNK> 0\n"; for (unsigned i = 0; i < n; i++) s += strf("-%.2f ", 0.5 + i * 0.1) + w[i] + " -0.1\n";
  for (unsigned o = 2; o <= n; o++) { s += strf("\n\\%u-grams:\n-0.%u ", o, o); for (unsigned i = 0; i < o; i++) s += (i ? " " : "") + w[i]; s += o < n ? " -0.2\n" : "\n"; } return s + "\n\\end\\\n"; }
static void k_model(Ctx &c, const MJob &m, unsigned order, unsigned line) { // the longest line has `line` characters
  auto text = [&](const Words &w) { return join(w) + " " + join(w) + "\n"; };
  Words a, b; for (unsigned i = 0; i < order; i++) b.push_back(strf("w%u", i)); unsigned fixed = 5 + (order - 1), rest = line - fixed; if (line < fixed + 4 * order || rest > 1000 * order) { c.trivial(); return; } for (unsigned i = 0; i < order; i++) { unsigned n = rest / order + (i < rest % order); std::string x = strf("w%u", i); a.push_back(std::string(n - x.size(), 'L') + x); }
  auto doit = [&](const Words &w, std::string &got) { write_file(path("M"), deep(w)); write_file(path("T"), text(w)); remove_file(path("P")); remove_file(path("O")); Args x; for (auto y : m.args) { size_t p; while ((p = y.find('%')) != std::string::npos) y = y.substr(0, p) + path(y.substr(p + 1, 1)) + y.substr(p + 2); x.push_back(y); } Res r = run(c, m.tool, x); got = read_file(path("O")); if (r.ok() && !strcmp(m.tool, "arpa2bin")) { r = run(c, "bin2arpa", {path("O"), path("P")}); got = ""; } got += "\x01" + read_file(path("P")); return r; };
  std::string e, got; Res r = doit(b, e); if (!r.ok()) { c.fail("plain", "%s: %s", m.name, r.how().c_str()); return; } r = doit(a, got); for (unsigned i = 0; i < order; i++) got = replace(got, a[i], b[i]);
  Job j; j.name = m.name; same(c, j, r, r.ok() ? got : r.how(), e, strf("model of order %u with a line of %u characters", order, line));
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C19") return false;
  d.chunk = 1; deepest = thorough; J = jobs(); load_tools({"counts2kn", "varigram_kn", "perplexity", "check_model", "arpa2arpa", "arpa2bin", "bin2arpa", "add_zeroprob_grams", "simpleinterpolate2arpa", "arpasize"});
  const unsigned nj = J.size();
  { Family f; f.name = "two gaps"; f.timeout_s = 300; f.n = nj * 11; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int k = g.next(11); k_two(c, J[g.i], k); }; f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(11); return strf("%s: every separator in gap %d and one other gap", J[g.i].name.c_str(), k); }; d.families.push_back(f); }
  static std::vector<Words> seqs; seqs.clear(); Words al = {"<s>", "a", "b"}; unsigned L = thorough ? 3 : 2; for (unsigned l = 0; l <= L; l++) for (uint64_t i = 0; i < seq_count(3, l, l); i++) { auto s = seq_at(i, 3, l, l); Words w; for (auto x : s) w.push_back(al[x]); seqs.push_back(w); }
  { Family f; f.name = "all gaps"; f.timeout_s = 600; f.n = (uint64_t)seqs.size() * nj * 7; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); unsigned first = g.next(7), j = g.next(nj); const Words &w = seqs[g.i]; if (J[j].tool != "perplexity" && J[j].tool != "check_model" && (w.size() < 2 || list_job(J[j]))) { c.trivial(); return; } if (line_job(J[j])) for (size_t a = 0; a < w.size(); a++) for (size_t b = 0; b < a; b++) if (w[a] == w[b]) { c.trivial(); return; } k_all(c, J[j], w, first); }; f.desc = [=](uint64_t i) { Digits g(i); unsigned first = g.next(7), j = g.next(nj); return strf("%s: [%s], every separator in every gap (first %u)", J[j].name.c_str(), join(seqs[g.i]).c_str(), first); }; d.families.push_back(f); }
  static std::vector<unsigned> len; len.clear(); for (unsigned n = 1; n <= 1000; n++) { bool near = n >= 985 || n <= 4; for (unsigned k : {16, 32, 64, 100, 128, 200, 256, 500, 512, 900}) near = near || (n + 2 >= k && n <= k + 2); if (thorough || near) len.push_back(n); }
  { Family f; f.name = "token lengths"; f.timeout_s = 120; f.n = len.size() * nj; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); unsigned j = g.next(nj); k_length(c, J[j], len[g.i]); }; f.desc = [=](uint64_t i) { Digits g(i); unsigned j = g.next(nj); return strf("%s: tokens of %u bytes", J[j].name.c_str(), len[g.i]); }; d.families.push_back(f); }
  { Family f; f.name = "token bytes"; f.timeout_s = 120; f.n = 256 * nj; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); unsigned j = g.next(nj); k_bytes(c, J[j], g.i); }; f.desc = [=](uint64_t i) { Digits g(i); unsigned j = g.next(nj); return strf("%s: tokens with byte %u", J[j].name.c_str(), (unsigned)g.i); }; d.families.push_back(f); }
  static std::vector<std::pair<unsigned, unsigned>> off; off.clear(); if (thorough) { for (unsigned b : {960u, 1980u, 4040u, 8150u}) for (unsigned k = 0; k < 80; k += 10) off.push_back({b + k, b + k + 10}); for (unsigned k = 0; k < 20; k += 10) off.push_back({k, k + 10}); } else for (unsigned k : {985u, 1995u, 4050u, 4070u, 4088u, 8180u}) off.push_back({k, k + 12});
  { Family f; f.name = "offsets"; f.timeout_s = 120; f.n = off.size() * nj; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); unsigned j = g.next(nj); k_offset(c, J[j], off[g.i].first, off[g.i].second); }; f.desc = [=](uint64_t i) { Digits g(i); unsigned j = g.next(nj); return strf("%s: %u to %u blanks before, after and inside the text", J[j].name.c_str(), off[g.i].first, off[g.i].second - 1); }; d.families.push_back(f); }
  static std::vector<MJob> mj; mj = MJ(); static std::vector<unsigned> ll; ll.clear(); for (unsigned b : {1000u, 4096u, 8192u}) for (int k = thorough ? -60 : -8; k <= (thorough ? 60 : 8); k++) ll.push_back(b + k); if (thorough) for (unsigned k = 40; k < 4000; k += 37) ll.push_back(k);
  { Family f; f.name = "model lines"; f.timeout_s = 120; unsigned no = 3; f.n = ll.size() * mj.size() * no; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); unsigned o = g.next(no), m = g.next(mj.size()); static const unsigned O[] = {2, 5, 9}; k_model(c, mj[m], O[o], ll[g.i]); }; f.desc = [=](uint64_t i) { Digits g(i); unsigned o = g.next(no), m = g.next(mj.size()); return strf("%s: model of order %u with a line of %u characters", mj[m].name, o == 0 ? 2 : o == 1 ? 5 : 9, ll[g.i]); }; d.families.push_back(f); }
  d.rule = "The same token sequence is given to every tool that reads a text or a word list in every layout: every separator (blank, tab, newlines, carriage return, vertical tab, form feed and mixtures) in every one and two gaps of a ten-token text and in all gaps of short texts, with and without a final newline; with blanks moving the tokens over every offset around the buffer sizes; with tokens of every length up to 1000 bytes and with every byte value, compared with short plain tokens renamed; model files with lines of every length around the buffer sizes. Results must be the same bytes, on an address-sanitizer build.";
  d.bounds = strf("%u tool jobs; texts of 0-%u tokens with all separators in all gaps; %zu token lengths; %zu offsets ranges; %zu line lengths x orders 2, 5, 9", nj, L, len.size(), off.size(), ll.size());
  d.assumptions.push_back("tokens have at most 1000 bytes (MAX_WLEN); no NUL bytes");
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
