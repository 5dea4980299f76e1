// C16: input and output channels are transparent.
#include "vk.hh"
#include "PerplexityFuncs.hh"
#include "VarigramFuncs.hh"
#include "TreeGram.hh"
#include "io.hh"
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc; using namespace vk;
typedef std::map<std::string, std::string> Files;
// ---------------------------------------------------------------- delivery in pieces
static struct { bool on = false; std::string path; std::vector<size_t> cut; size_t chunk = 0; } pl; // cut: offsets where a piece ends; chunk: fixed piece length instead
struct In { int fd; size_t pos; };
static ssize_t cread(void *c, char *b, size_t n) {
  In *i = (In *)c; size_t lim = n;
  if (pl.chunk) lim = std::min(n, pl.chunk); else for (size_t x : pl.cut) if (x > i->pos) { lim = std::min(n, x - i->pos); break; }
  ssize_t r = read(i->fd, b, lim); if (r > 0) i->pos += r; return r;
}
static int cclose(void *c) { close(((In *)c)->fd); delete (In *)c; return 0; }
static FILE *pieces(int fd) { cookie_io_functions_t io = {cread, nullptr, nullptr, cclose}; return fopencookie(new In{fd, 0}, "r", io); }
extern "C" __attribute__((visibility("default"))) FILE *fopen(const char *p, const char *m) {
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  if (!pl.on || m[0] != 'r' || pl.path != p) return real(p, m);
  int fd = open(p, O_RDONLY); return fd < 0 ? nullptr : pieces(fd);
}
extern "C" __attribute__((visibility("default"))) FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
// ---------------------------------------------------------------- jobs
struct Job { std::string name, tool; Args args; std::set<std::string> nostdin; Args in, out; bool merge = false; }; // %i:NAME an input file, %o:NAME an output file; nostdin: read several times
static std::vector<Job> jobs() {
  std::vector<Job> v;
  auto add = [&](std::string n, std::string t, Args a, std::set<std::string> ns = {}) {
    Job j; j.name = n; j.tool = t; j.args = a; j.nostdin = ns; j.merge = t == "simpleinterpolate2arpa";
    for (auto &x : a) for (size_t p = 0; (p = x.find("%", p)) != std::string::npos; p++) { size_t e = x.find_first_of(",; ", p); std::string f = x.substr(p + 3, e == std::string::npos ? e : e - p - 3); (x[p + 1] == 'i' ? j.in : j.out).push_back(f); }
    v.push_back(j); };
  add("counts2kn -a", "counts2kn", {"-a", "-n", "3", "%i:text", "%o:lm"}, {"text"});
  add("counts2kn -o -B -W -U", "counts2kn", {"-n", "2", "-3", "-o", "%i:opti", "-B", "%i:voc", "-W", "%o:cnt", "-U", "%o:wv", "%i:text", "%o:lm"}, {"text"});
  add("counts2kn -f -s", "counts2kn", {"-x", "-n", "3", "-s", "-f", "3", "%i:text", "%o:lm"}, {"text"});
  add("counts2kn -c", "counts2kn", {"-a", "-c", "-B", "%i:cvoc", "%i:counts", "%o:lm"}, {"counts"});
  add("counts2kn -Z -r -R -p", "counts2kn", {"-a", "-n", "3", "-Z", "-r", "-R", "%i:text", "-p", "0.05", "-B", "%i:cvoc", "%i:hcounts", "%o:lm"}, {"text", "hcounts"});
  add("varigram_kn -a", "varigram_kn", {"-a", "-n", "4", "-D", "0.02", "-E", "0.02", "%i:text", "%o:lm"}, {"text"});
  add("varigram_kn -S", "varigram_kn", {"-a", "-n", "3", "-S", "-D", "0.02", "%i:text", "%o:lm"}, {"text"});
  add("varigram_kn -o -B -W -U", "varigram_kn", {"-n", "3", "-D", "0.02", "-o", "%i:opti", "-B", "%i:voc", "-W", "%o:cnt", "-U", "%o:wv", "%i:text", "%o:lm"}, {"text"});
  add("varigram_kn -s -f", "varigram_kn", {"-a", "-n", "3", "-s", "-f", "3", "-D", "0.02", "%i:text", "%o:lm"}, {"text"});
  add("arpa2bin", "arpa2bin", {"%i:m.arpa", "%o:lm"});
  add("bin2arpa", "bin2arpa", {"%i:m.bin", "%o:lm"});
  add("arpa2arpa", "arpa2arpa", {"%i:mi.arpa", "%o:lm"});
  add("add_zeroprob_grams", "add_zeroprob_grams", {"%i:m2.arpa", "%o:lm"});
  add("simpleinterpolate2arpa", "simpleinterpolate2arpa", {"%i:m.arpa,0.4;%i:m2.arpa,0.6", "%o:lm"}, {"m.arpa"} /* "-,0.4" looks like an option */);
  add("perplexity -A -S", "perplexity", {"-A", "%i:m.bin", "-S", "%o:probs", "%i:eval", "%o:res"});
  add("perplexity -a -f -X", "perplexity", {"-a", "%i:m.arpa", "-f", "-X", "%i:mb", "%i:eval", "%o:res"});
  add("perplexity -a -f -i", "perplexity", {"-a", "%i:m.arpa", "-f", "-i", "%i:m2.arpa", "-I", "0.3", "%i:eval", "%o:res"});
  add("perplexity -a -i -W -C", "perplexity", {"-a", "%i:m.arpa", "-i", "%i:m2.arpa", "-I", "0.3", "-W", "%i:wb", "-C", "%i:ccs", "%i:eval", "%o:res"}, {"m.arpa", "m2.arpa"});
  add("arpasize", "arpasize", {"-a", "%i:m.arpa", "%o:res"});
  add("arpasize -S", "arpasize", {"-a", "-S", "%i:m.arpa", "%o:res"});
  add("check_model -d", "check_model", {"-d", "-a", "%i:m.arpa", "%i:eval"});
  return v;
}
static std::vector<Job> J;
// ---------------------------------------------------------------- contents of the input files (0 small, 1 larger than pipe buffers)
static Files small_files(int v) {
  Files f; f["text"] = v == 0 ? "<s> a b a c a b </s>\n<s> b a d a </s>\n<s> a a b </s>\n<s> a b a c </s>\n" : "";
  if (v == 1) { uint64_t s = 12345; for (int i = 0; i < 2500; i++) { f["text"] += "<s>"; for (int k = 0; k < 7; k++) { s = s * 6364136223846793005ull + 1442695040888963407ull; f["text"] += strf(" word%llu", (unsigned long long)((s >> 33) % 900)); } f["text"] += " </s>\n"; } }
  if (v == 2) f["text"] = "<s> a </s> <s> b";
  f["opti"] = "<s> a c a b </s>\n<s> b a </s>\n"; f["voc"] = "<s>\n</s>\na\nc\nb\n"; if (v == 1) { f["opti"] = f["text"].substr(0, 80000); f["voc"] = ""; for (int i = 899; i >= 0; i--) f["voc"] += strf("word%d\n", i); f["voc"] += "</s>\n<s>\n"; }
  f["eval"] = v == 1 ? f["text"] : v == 2 ? "" : "<s> a b q a </s>\n<s> c b a a </s>\n"; f["wb"] = v == 1 ? "</s>\nword1\nword2\n" : "b\n</s>\n"; f["ccs"] = "<s>\n"; f["mb"] = v == 1 ? "^word1\n" : "^a\n^b\n";
  return f;
}
static Files *mats(Ctx &c, int v) { // the generated input files come from the tools themselves, through plain files
  static std::map<int, Files> memo; auto it = memo.find(v); if (it != memo.end()) return &it->second;
  Files f = small_files(v); for (auto &x : f) write_file(path(x.first), x.second);
  auto gen = [&](const std::string &t, Args a) { return run_ok(c, t, a); };
  std::string T = path("text");
  if (!gen("counts2kn", {"-a", "-n", "3", "-W", path("counts"), "-U", path("cvoc"), T, path("m.arpa")})) return nullptr;
  if (!gen("counts2kn", {"-x", "-n", "2", T, path("mi.arpa")})) return nullptr;
  if (!gen("varigram_kn", {"-a", "-n", "3", "-D", "0.02", path("opti"), path("m2.arpa")})) return nullptr;
  if (!gen("arpa2bin", {path("m.arpa"), path("m.bin")})) return nullptr;
  for (auto n : {"counts", "cvoc", "m.arpa", "mi.arpa", "m2.arpa", "m.bin"}) f[n] = read_file(path(n));
  { std::istringstream is(f["cvoc"]); std::map<std::string, int> id; std::string w; int k = 1; while (is >> w) id[w] = k++; std::map<Words, int> n; Words t = split_ws(f["text"]); for (size_t i = 0; i + 3 <= t.size(); i++) n[Words(t.begin() + i, t.begin() + i + 3)]++; for (auto &x : n) { for (auto &y : x.first) f["hcounts"] += strf("%d ", id[y]); f["hcounts"] += strf("%d\n", x.second); } }
  return &(memo[v] = f);
}
// ---------------------------------------------------------------- running a job
static const char *IC[] = {"plain", "gzip", "bzip2", "command|", "|command", "standard input", "single byte pipe", "two-member gzip"};
static const char *OC[] = {"plain", "gzip", "bzip2", "|command", "command|", "standard output"};
static const int NIC = 8, NOC = 6;
static std::string zip(const std::string &data, int ch) {
  static std::map<std::pair<uint64_t, int>, std::string> memo; auto k = std::make_pair(hash64(data), ch); auto it = memo.find(k); if (it != memo.end()) return it->second;
  std::string r; if (ch == 7) { size_t h = data.size() / 2; r = zip(data.substr(0, h), 1) + zip(data.substr(h), 1); }
  else { write_file(path("zip.in"), data); if (system(((ch == 1 ? "gzip -c < '" : "bzip2 -c < '") + path("zip.in") + "' > '" + path("zip.out") + "'").c_str())) abort(); r = read_file(path("zip.out")); }
  return memo[k] = r;
}
static std::string unzip(const std::string &f, int ch, bool &ok) { if (system(((ch == 1 ? "gzip -dc < \"$VKF\" > '" : "bzip2 -dc < \"$VKF\" > '") + path("unzip.out") + "' 2>/dev/null").c_str())) ok = false; return read_file(path("unzip.out")); }
static std::string suffix(int ch) { return ch == 1 || ch == 7 ? ".gz" : ch == 2 ? ".bz2" : ""; }
struct Setup { std::map<std::string, int> ic, oc; std::map<std::string, std::string> arg; /* arguments given literally */ std::function<void()> child; std::string base; /* odd name */ std::string odd; };
static Res go(Ctx &c, const Job &j, const Files &f, const Setup &s, Files &got, bool &decoded) {
  RunOpt o; std::map<std::string, std::string> real, ofile; decoded = true; got.clear();
  for (auto &n : j.in) { int ch = s.ic.count(n) ? s.ic.at(n) : 0; std::string stem = s.odd == n ? s.base : n, p = path("i." + stem) + suffix(ch); if (s.odd == n) p = path(stem) + suffix(ch); const std::string &d = f.at(n);
    if (s.arg.count(n)) { real[n] = s.arg.at(n); continue; }
    write_file(p, ch == 1 || ch == 2 || ch == 7 ? zip(d, ch) : d); std::string q = "'" + p + "'";
    if (ch == 3) p = "cat " + q + " |"; else if (ch == 4) p = "| cat " + q; else if (ch == 5) { p = "-"; o.has_stdin = true; o.stdin_data = d; } else if (ch == 6) p = "dd bs=1 if=" + q + " 2>/dev/null |"; real[n] = p; }
  for (auto &n : j.out) { int ch = s.oc.count(n) ? s.oc.at(n) : 0; std::string p = path("o." + n) + suffix(ch); if (s.odd == n) p = path(s.base) + suffix(ch); ofile[n] = p; remove_file(p); std::string q = "'" + p + "'"; if (ch == 3) p = "| cat > " + q; else if (ch == 4) p = "cat > " + q + " |"; else if (ch == 5) p = "-"; real[n] = p; }
  Args a; for (auto x : j.args) { for (auto &r : real) for (auto k : {"%i:", "%o:"}) { std::string key = k + r.first; size_t p = x.find(key); if (p != std::string::npos && (p + key.size() == x.size() || strchr(",; ", x[p + key.size()]))) x.replace(p, key.size(), r.second); } a.push_back(x); }
  o.in_child = s.child; o.cpu_s = 20; Res r = run(c, j.tool, a, o);
  for (auto &n : j.out) { int ch = s.oc.count(n) ? s.oc.at(n) : 0; if (ch == 5) { got[n] = r.out; r.out.clear(); } else if (ch == 1 || ch == 2) { setenv("VKF", ofile[n].c_str(), 1); bool ok = true; got[n] = unzip(ofile[n], ch, ok); decoded = decoded && ok; } else got[n] = read_file(ofile[n]); remove_file(ofile[n]); }
  got[""] = r.out; return r;
}
static bool base(Ctx &c, const Job &j, int v, const Files *&f, Files &e) {
  static std::map<std::string, Files> memo; f = mats(c, v); if (!f) return false;
  std::string k = j.name + strf("|%d", v); auto it = memo.find(k); if (it != memo.end()) { e = it->second; return true; }
  bool d; Res r = go(c, j, *f, Setup(), e, d); if (!r.ok()) { c.fail("plain", "%s with plain files: %s", j.name.c_str(), r.how().c_str()); return false; }
  for (auto &n : j.out) if (e[n].empty() && v != 2) { c.fail("plain", "%s with plain files: output %s is empty", j.name.c_str(), n.c_str()); return false; }
  memo[k] = e; return true;
}
static bool same(Ctx &c, const Job &j, const Res &r, const Files &got, bool dec, const Files &e, const std::string &what, bool may_fail) {
  c.queries(1);
  if (r.signaled && r.sig != SIGABRT || r.memory) { c.fail("crash", "%s, %s: %s", j.name.c_str(), what.c_str(), r.how().c_str()); return false; }
  if (!r.ok()) { if (may_fail) { c.outcome(hash64(j.name + what + "refused")); return true; } c.fail("refused", "%s, %s: %s", j.name.c_str(), what.c_str(), r.how().c_str()); return false; }
  if (!dec) { c.fail("decode", "%s, %s: the compressed output cannot be decompressed", j.name.c_str(), what.c_str()); return false; }
  for (auto &x : e) { auto it = got.find(x.first); if (it->second != x.second) { size_t k = 0; while (k < x.second.size() && k < it->second.size() && x.second[k] == it->second[k]) k++; c.fail("different", "%s, %s: output %s differs from the one with plain files from byte %zu on (%zu bytes, %zu expected)", j.name.c_str(), what.c_str(), x.first.empty() ? "on standard output" : x.first.c_str(), k, it->second.size(), x.second.size()); return false; } }
  c.outcome(hash64(j.name + what)); c.validated(1); return true;
}
// ---------------------------------------------------------------- families
// every assignment of channels to at most two of the files
static void k_channels(Ctx &c, const Job &j, int v) {
  const Files *f; Files e; if (!base(c, j, v, f, e)) return;
  struct Pt { bool in; std::string n; int ch; }; std::vector<Pt> pts;
  for (auto &n : j.in) for (int ch = 1; ch < NIC; ch++) { if (ch == 6 && v == 1) continue; pts.push_back({true, n, ch}); }
  for (auto &n : j.out) for (int ch = 1; ch < NOC; ch++) pts.push_back({false, n, ch});
  auto one = [&](const std::vector<Pt> &ps) {
    Setup s; std::string what; int ni = 0, no = 0; bool may = false;
    for (auto &p : ps) { (p.in ? s.ic : s.oc)[p.n] = p.ch; ni += p.in && p.ch == 5; no += !p.in && p.ch == 5; what += strf("%s%s %s by %s", what.empty() ? "" : ", ", p.in ? "input" : "output", p.n.c_str(), (p.in ? IC : OC)[p.ch]); may = may || (p.in && p.ch == 5 && j.nostdin.count(p.n)); }
    if (ni > 1 || no > 1) return true; Files got; bool d; Res r = go(c, j, *f, s, got, d); return same(c, j, r, got, d, e, what, may); };
  if (pts.empty()) return;
  for (size_t a = 0; a < pts.size(); a++) { if (!one({pts[a]})) return; if (v == 0) for (size_t b = a + 1; b < pts.size(); b++) if (pts[a].in != pts[b].in || pts[a].n != pts[b].n) if (!one({pts[a], pts[b]})) return; }
  // all files through the same kind of channel
  for (int ch = 1; ch < 5; ch++) { std::vector<Pt> all; for (auto &n : j.in) all.push_back({true, n, ch}); for (auto &n : j.out) all.push_back({false, n, ch}); if (!one(all)) return; }
}
static const char *NAMES[] = {"a b", "a'b", "''", "a\"b", "a$HOME", "a`true`b", "a;b", "a\\b", "*", "a&b", "\xc3\xa4", "a>b", "x|y", "x.gz.txt", "a\tb", "(a)", "#a", "a.GZ", "gz", "~", "-a", "a%sb", "a,b", "a\nb", "!x", "a.bz2x"};
static const int NN = sizeof NAMES / sizeof *NAMES;
static void k_names(Ctx &c, const Job &j, int n) {
  const Files *f; Files e; if (!base(c, j, 0, f, e)) return; std::string nm = NAMES[n]; if (j.merge && nm.find_first_of(",; ") != std::string::npos) return;
  for (int io = 0; io < 2; io++) for (auto &x : io ? j.out : j.in) for (int ch = 0; ch < 3; ch++) { Setup s; s.odd = x; s.base = nm; (io ? s.oc : s.ic)[x] = ch; Files got; bool d; Res r = go(c, j, *f, s, got, d); if (!io) remove_file(path(nm) + suffix(ch)); if (!same(c, j, r, got, d, e, strf("%s %s in a file named [%s%s]", io ? "output" : "input", x.c_str(), show(nm).c_str(), suffix(ch).c_str()), false)) return; }
}
static void k_missing(Ctx &c, const Job &j) {
  const Files *f; Files e; if (!base(c, j, 0, f, e)) return; std::string D = scratch();
  mkdir(path("dir").c_str(), 0700); mkdir(path("dir.gz").c_str(), 0700); mkdir(path("dir.bz2").c_str(), 0700); write_file(path("empty.gz"), ""); write_file(path("empty.bz2"), ""); write_file(path("junk.gz"), "not a compressed file\n"); write_file(path("junk.bz2"), "not a compressed file\n"); write_file(path("plainfile"), "x\n"); symlink("loop", path("loop").c_str()); symlink("loop.gz", path("loop.gz").c_str());
  // a file whose name is the missing name with another suffix must not be taken instead
  write_file(path("none2.gz.gz"), zip(f->begin()->second, 1)); write_file(path("none3.gz"), zip(f->begin()->second, 1));
  for (auto &x : j.in) for (std::string bad : Args{D + "/none", D + "/none.gz", D + "/none.bz2", D + "/none2.gz", D + "/none3", D + "/nodir/f", D + "/nodir/f.gz", D + "/dir", D + "/dir.gz", D + "/dir.bz2", D + "/empty.gz", D + "/empty.bz2", D + "/junk.gz", D + "/junk.bz2", D + "/plainfile/f", D + "/plainfile/f.gz", D + "/loop", D + "/loop.gz", "cat " + D + "/none |", "| cat " + D + "/none", "nosuchcommand_vk |", "false |", "cat " + D + "/i." + x + " && false |"}) {
    if (j.merge && bad.find_first_of(",; ") != std::string::npos) continue;
    // a failing command may have delivered a complete model already, whose reader need not wait for the end of the stream
    bool complete = bad.find("&& false") != std::string::npos;
    Setup s; s.arg[x] = bad; write_file(path("i." + x), f->at(x)); Files got; bool d; Res r = go(c, j, *f, s, got, d); c.queries(1);
    if (r.signaled && r.sig != SIGABRT || r.memory) { c.fail("crash", "%s, input %s given as [%s]: %s", j.name.c_str(), x.c_str(), bad.c_str(), r.how().c_str()); return; }
    bool text = x == "text" || x == "opti" || x == "eval" || x == "voc" || x == "wb" || x == "ccs" || x == "mb" || x == "cvoc" || x == "hcounts";
    if (r.ok() && (!complete || text)) { c.fail("missing", "%s, input %s given as [%s]: exit status 0", j.name.c_str(), x.c_str(), bad.c_str()); return; }
    c.outcome(hash64(j.name + x + bad + strf("%d", r.code))); c.validated(1); }
}
static void k_cutzip(Ctx &c, const Job &j, int in, int ch) { // a compressed input cut at every byte: the results of the whole input or an error
  const Files *f; Files e; if (!base(c, j, 0, f, e)) return; const std::string &x = j.in[in]; std::string z = zip(f->at(x), ch), p = path("cut") + suffix(ch);
  for (size_t n = 0; n < z.size(); n++) { write_file(p, z.substr(0, n)); Setup s; s.arg[x] = p; Files got; bool d; Res r = go(c, j, *f, s, got, d); if (!same(c, j, r, got, d, e, strf("%s input %s cut to %zu of %zu bytes", IC[ch], x.c_str(), n, z.size()), true)) return; }
}
static void k_pieces(Ctx &c, const Job &j, int in, unsigned part, unsigned parts, bool pairs) {
  const Files *f; Files e; if (!base(c, j, 0, f, e)) return; const std::string &x = j.in[in]; size_t n = f->at(x).size();
  auto one = [&](std::vector<size_t> cut, size_t chunk, bool std_in) {
    Setup s; std::string p = path("i." + x); if (std_in) s.ic[x] = 5; s.child = [&]() { pl.on = true; pl.cut = cut; pl.chunk = chunk; if (std_in) stdin = pieces(dup(0)); else pl.path = p; };
    Files got; bool d; Res r = go(c, j, *f, s, got, d); std::string w; for (size_t k : cut) w += strf(" %zu", k); return same(c, j, r, got, d, e, strf("input %s (%s) delivered in pieces%s%s", x.c_str(), std_in ? "standard input" : "file", chunk ? strf(" of %zu bytes", chunk).c_str() : " ending at", w.c_str()), std_in && j.nostdin.count(x)); };
  if (part == 0) for (size_t k : {1, 2, 3, 5, 7, 16}) { if (!one({}, k, false)) return; if (!j.nostdin.count(x) && !one({}, k, true)) return; }
  for (size_t k = 1 + part; k < n; k += parts) { if (!one({k}, 0, false)) return; if (!j.nostdin.count(x) && !one({k}, 0, true)) return; if (pairs && n <= 200) for (size_t m = k + 1; m < n; m++) if (!one({k, m}, 0, false)) return; }
}
static void k_library(Ctx &c, int ch) { // the classes behind the Python wrapper
  const Files *f = mats(c, 0); if (!f) return; Words w = split_ws(f->at("eval"));
  auto in = [&](const std::string &n, int k) { std::string p = path("l." + n) + suffix(k); write_file(p, k == 1 || k == 2 || k == 7 ? zip(f->at(n), k) : f->at(n)); return k == 3 ? "cat '" + p + "' |" : k == 4 ? "| cat '" + p + "'" : p; };
  auto score = [&](Perplexity &p) { std::string s; for (auto &x : w) { float q; s += strf("%.9g ", p.logprob(x.c_str(), q)); } return s; };
  if (ch == 5 || ch == 6) return;
  { std::string a = in("m.bin", 0), b = in("m.bin", ch); Perplexity p(a.c_str()), q(b.c_str()); c.steps(2); c.queries(1); if (score(p) != score(q)) { c.fail("different", "scorer made from a binary model by %s", IC[ch]); return; } }
  for (int t = 0; t < 3; t++) { std::string n = t == 0 ? "m.bin" : "m.arpa"; Perplexity p(in(n, 0), t == 0, "", "", in("mb", 0), "", t == 2, true), q(in(n, ch), t == 0, "", "", in("mb", ch), "", t == 2, true); c.steps(2); c.queries(1); if (score(p) != score(q)) { c.fail("different", "scorer made from %s by %s", n.c_str(), IC[ch]); return; } }
  { Vocabulary a, b; a.read(in("voc", 0)); b.read(in("voc", ch)); c.queries(1); if (a.num_words() != b.num_words()) { c.fail("different", "vocabulary read by %s", IC[ch]); return; } for (int i = 0; i < a.num_words(); i++) if (a.word(i) != b.word(i)) { c.fail("different", "vocabulary read by %s", IC[ch]); return; } }
  for (int s3 = 0; s3 < 2; s3++) { std::string r[2]; for (int k = 0; k < 2; k++) { Varigram_t<int, int> t(s3 != 0, false); t.set_datacost_scale(0.02); t.set_max_order(3); t.initialize(in("text", k ? ch : 0), 0, 0, -1, in("opti", k ? ch : 0), "<s>", false, in("voc", k ? ch : 0)); t.grow(1); int oc = k && ch <= 2 ? ch : 0; std::string o = path("l.out") + suffix(oc); t.write_file(o, true); bool ok = true; if (oc) { setenv("VKF", o.c_str(), 1); r[k] = unzip(o, oc, ok); } else r[k] = read_file(o); c.steps(1); if (!ok) { c.fail("decode", "trainer output by %s", IC[ch]); return; } } c.queries(1); if (r[0] != r[1] || r[0].size() < 50) { c.fail("different", "trainer with files by %s", IC[ch]); return; } }
  c.outcome(strf("library %d", ch)); c.validated(1);
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C16") return false;
  d.chunk = 1; J = jobs(); Args names; for (auto &j : J) names.push_back(j.tool); load_tools(names);
  { Family f; f.name = "channels"; f.timeout_s = 300; f.n = J.size() * 3; f.run = [](uint64_t i, Ctx &c) { Digits g(i); int j = g.next(J.size()); if (g.i == 2 && (J[j].name.find("-Z") != std::string::npos || J[j].tool == "arpa2arpa")) { c.trivial(); return; } k_channels(c, J[j], g.i); }; f.desc = [](uint64_t i) { Digits g(i); int j = g.next(J.size()); return strf("%s: every channel for %s, %s files", J[j].name.c_str(), g.i == 0 ? "every one and two of the files" : "every file", g.i == 0 ? "small" : g.i == 1 ? "100 kB" : "nearly empty"); }; d.families.push_back(f); }
  { Family f; f.name = "missing and unreadable inputs"; f.timeout_s = 120; f.n = J.size(); f.run = [](uint64_t i, Ctx &c) { k_missing(c, J[i]); }; f.desc = [](uint64_t i) { return J[i].name + ": every input missing or unreadable in every way"; }; d.families.push_back(f); }
  { Family f; f.name = "file names"; f.timeout_s = 120; f.n = J.size() * NN; f.run = [](uint64_t i, Ctx &c) { Digits g(i); int n = g.next(NN); k_names(c, J[g.i], n); }; f.desc = [](uint64_t i) { Digits g(i); int n = g.next(NN); return strf("%s: each file named [%s], plain and compressed", J[g.i].name.c_str(), show(NAMES[n]).c_str()); }; d.families.push_back(f); }
  std::vector<std::pair<int, int>> ins; for (size_t j = 0; j < J.size(); j++) for (size_t k = 0; k < J[j].in.size(); k++) ins.push_back({j, k});
  { Family f; f.name = "damaged compressed inputs"; f.timeout_s = 300; f.n = ins.size() * 2; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); auto p = ins[g.next(ins.size())]; k_cutzip(c, J[p.first], p.second, 1 + g.i); }; f.desc = [=](uint64_t i) { Digits g(i); auto p = ins[g.next(ins.size())]; return strf("%s: %s input %s cut at every byte", J[p.first].name.c_str(), IC[1 + g.i], J[p.first].in[p.second].c_str()); }; d.families.push_back(f); }
  { Family f; f.name = "pieces"; f.timeout_s = 600; unsigned parts = thorough ? 64 : 4; f.n = ins.size() * parts; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); unsigned q = g.next(parts); auto p = ins[g.i]; k_pieces(c, J[p.first], p.second, q, parts, thorough); }; f.desc = [=](uint64_t i) { Digits g(i); unsigned q = g.next(parts); auto p = ins[g.i]; return strf("%s: input %s delivered in two pieces split at every offset = %u mod %u", J[p.first].name.c_str(), J[p.first].in[p.second].c_str(), q + 1, parts); }; d.families.push_back(f); }
  { Family f; f.name = "library"; f.timeout_s = 60; f.n = NIC; f.run = [](uint64_t i, Ctx &c) { k_library(c, i); }; f.desc = [](uint64_t i) { return strf("library classes with files by %s", IC[i]); }; d.families.push_back(f); }
  d.rule = "Each tool job is run with plain files and then with every channel (gzip, multi-member gzip, bzip2, command pipes written either way, standard input/output, single-byte pipe) for every one and every two of its files, for three sets of file contents; with unusual file names; with every input missing, unreadable or damaged (compressed files cut at every byte); with inputs delivered in two pieces split at every offset and in pieces of 1-16 bytes. All outputs must decode to the plain run's bytes; unreadable inputs must give a nonzero exit status.";
  d.bounds = strf("%zu tool jobs, %zu inputs, at most two files on other channels at once%s", J.size(), ins.size(), thorough ? "; all pairs of split points of inputs up to 200 bytes" : "");
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
