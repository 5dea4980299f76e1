// C17: every failure point of every output of every tool.
#include "vk.hh"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace mc; using namespace vk;
// ---------------------------------------------------------------- fault injection below stdio
struct Plan { bool on = false; int k = -1; int kind = 0; int k2 = -1; int close = -1; unsigned buf = 64; }; // kind 0: fails from the k-th write on (disk full), 1: only the k-th (and k2-th) fails, 2: the k-th write is cut short and later ones fail, 3: the k-th is cut short once, 4: like 0 but the first failing write takes a few bytes
struct Shm { int writes, closes; };
static Shm *shm; static Plan plan;
struct Out { int fd; };
static ssize_t cwrite(void *c, const char *b, size_t n) {
  int i = shm->writes++; int fd = ((Out *)c)->fd; auto full = [&](const char *p, size_t m) { size_t o = 0; while (o < m) { ssize_t r = write(fd, p + o, m - o); if (r <= 0) return o; o += r; } return o; };
  bool hit = plan.kind == 1 || plan.kind == 3 ? i == plan.k || i == plan.k2 : plan.k >= 0 && i >= plan.k;
  if (!hit) return full(b, n);
  if (plan.kind == 3) return full(b, n > 1 ? n / 2 : n);
  if (plan.kind == 2 && i == plan.k && n > 1) return full(b, n / 2);
  if (plan.kind == 4 && i == plan.k) { full(b, std::min<size_t>(n, 3)); }
  errno = plan.kind == 1 ? EIO : ENOSPC; return 0;
}
static int cclose(void *c) { int fd = ((Out *)c)->fd; close(fd); delete (Out *)c; if (shm->closes++ == plan.close) { errno = EIO; return -1; } return 0; }
extern "C" __attribute__((visibility("default"))) FILE *fopen(const char *path, const char *mode) {
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  if (!plan.on || mode[0] != 'w') return real(path, mode);
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) return nullptr;
  cookie_io_functions_t io = {nullptr, cwrite, nullptr, cclose}; FILE *f = fopencookie(new Out{fd}, "w", io); setvbuf(f, (char *)malloc(plan.buf), _IOFBF, plan.buf); /* (without a buffer of its own the size is ignored) */ return f;
}
extern "C" __attribute__((visibility("default"))) FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
// ---------------------------------------------------------------- producers
struct Job { std::string name, tool; Args args; std::vector<std::string> outs; bool std_out = false; }; // %d scratch directory; outs: names of the output files
static std::vector<Job> jobs() {
  std::vector<Job> v; auto add = [&](std::string n, std::string t, Args a, std::vector<std::string> o) { Job j; j.name = n; j.tool = t; j.args = a; j.outs = o; v.push_back(j); };
  add("counts2kn binary", "counts2kn", {"-n", "3", "%d/text", "%d/out"}, {"out"});
  add("counts2kn -a", "counts2kn", {"-a", "-n", "3", "%d/text", "%d/out"}, {"out"});
  add("counts2kn -x", "counts2kn", {"-x", "-n", "3", "%d/text", "%d/out"}, {"out"});
  add("counts2kn -a -W -U", "counts2kn", {"-a", "-n", "3", "-W", "%d/w1", "-U", "%d/w2", "%d/text", "%d/out"}, {"out", "w1", "w2"});
  add("varigram_kn binary", "varigram_kn", {"-D", "0.02", "-n", "4", "%d/text", "%d/out"}, {"out"});
  add("varigram_kn -a", "varigram_kn", {"-a", "-D", "0.02", "-n", "4", "%d/text", "%d/out"}, {"out"});
  add("varigram_kn -x -W -U", "varigram_kn", {"-x", "-D", "0.02", "-n", "4", "-W", "%d/w1", "-U", "%d/w2", "%d/text", "%d/out"}, {"out", "w1", "w2"});
  add("arpa2bin", "arpa2bin", {"%d/m.arpa", "%d/out"}, {"out"});
  add("bin2arpa", "bin2arpa", {"%d/m.bin", "%d/out"}, {"out"});
  add("arpa2arpa", "arpa2arpa", {"%d/mi.arpa", "%d/out"}, {"out"});
  add("add_zeroprob_grams", "add_zeroprob_grams", {"%d/m.arpa", "%d/out"}, {"out"});
  add("simpleinterpolate2arpa", "simpleinterpolate2arpa", {"%d/m.arpa,0.5;%d/m2.arpa,0.5", "%d/out"}, {"out"});
  add("perplexity -S", "perplexity", {"-a", "%d/m.arpa", "-S", "%d/w1", "%d/text", "%d/out"}, {"out", "w1"});
  add("arpasize", "arpasize", {"-a", "%d/m.arpa", "%d/out"}, {"out"});
  add("arpasize -S", "arpasize", {"-a", "-S", "%d/m.arpa", "%d/out"}, {"out"});
  return v;
}
static std::vector<Job> J; static std::string M1, M2, MI, MB;
// channel of the outputs: 0 plain, 1 gzip, 2 bzip2, 3 pipe, 4 standard output (the main output only)
static const char *CH[] = {"plain files", "gzip", "bzip2", "pipe", "standard output"};
static std::string sub(std::string x, int ch, const Job &j) {
  size_t p; for (auto &o : j.outs) { std::string n = "%d/" + o; if (x != n) continue; if (ch == 1) return path(o + ".gz"); if (ch == 2) return path(o + ".bz2"); if (ch == 3) return "|cat > " + path(o); if (ch == 4 && o == "out") return "-"; }
  while ((p = x.find("%d")) != std::string::npos) x.replace(p, 2, scratch()); return x;
}
static std::string fname(const std::string &o, int ch) { return path(o + (ch == 1 ? ".gz" : ch == 2 ? ".bz2" : "")); }
static void prep() { write_file(path("text"), "<s> a b a c a b </s>\n<s> b a d a </s>\n<s> a a b </s>\n<s> a b a c </s>\n"); write_file(path("m.arpa"), M1); write_file(path("m2.arpa"), M2); write_file(path("mi.arpa"), MI); write_file(path("m.bin"), MB); }
static std::string collect(const Job &j, int ch, const Res &r) { std::string s; for (auto &o : j.outs) s += (ch == 4 && o == "out" ? r.out : read_file(fname(o, ch))) + "\x01"; return s; }
static void own_shm() { static pid_t owner; if (owner == getpid()) return; owner = getpid(); shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } // each worker process has its own counters
static Res go(Ctx &c, const Job &j, int ch, const Plan &p, long limit, std::string &got, std::function<void()> extra = nullptr) {
  own_shm(); for (auto &o : j.outs) remove_file(fname(o, ch)); Args a; for (auto &x : j.args) a.push_back(sub(x, ch, j)); RunOpt o; shm->writes = shm->closes = 0;
  o.in_child = [&]() { plan = p; signal(SIGXFSZ, SIG_IGN); if (limit >= 0) { rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &rl); } if (extra) extra(); };
  Res r = run(c, j.tool, a, o); got = collect(j, ch, r); return r;
}
static std::map<std::string, std::string> memo; static std::map<std::string, Shm> calls;
static bool base(Ctx &c, const Job &j, int ch, std::string &e, Shm *s = nullptr) {
  std::string key = j.name + strf("|%d", ch); auto it = memo.find(key);
  if (it == memo.end()) { prep(); Plan p; p.on = ch == 0; std::string got, again; Res r = go(c, j, ch, p, -1, got); if (!r.ok()) { c.fail("no-fault", "%s to %s without any fault: %s", j.name.c_str(), CH[ch], r.how().c_str()); return false; } calls[key] = *shm; go(c, j, ch, Plan(), -1, again); if (got != again) { c.fail("no-fault", "%s to %s: two runs differ", j.name.c_str(), CH[ch]); return false; } it = memo.insert({key, got}).first; }
  e = it->second; if (s) *s = calls[key]; return true;
}
static void judge(Ctx &c, const Job &j, int ch, const Res &r, const std::string &got, const std::string &e, const std::string &fault) {
  c.queries(1);
  if (r.memory || (r.signaled && r.sig != SIGPIPE && r.sig != SIGABRT)) { c.fail("crash", "%s to %s, %s: %s", j.name.c_str(), CH[ch], fault.c_str(), r.how().c_str()); return; }
  if (r.ok() && got != e) { size_t k = 0; while (k < got.size() && k < e.size() && got[k] == e[k]) k++; c.fail("incomplete-success", "%s to %s, %s: exit status 0, but the output differs from byte %zu on (%zu bytes, %zu expected)", j.name.c_str(), CH[ch], fault.c_str(), k, got.size(), e.size()); return; }
  c.outcome(hash64(j.name + CH[ch] + (r.ok() ? "ok" : "error") + got)); c.validated(1);
}
static size_t maxsize(const std::string &e) { size_t m = 0, b = 0; for (size_t i; (i = e.find('\x01', b)) != std::string::npos; b = i + 1) m = std::max(m, i - b); return m; }
static void k_writes(Ctx &c, const Job &j, int kind, unsigned buf, bool pairs) {
  std::string e, got; Shm n; if (!base(c, j, 0, e)) return; prep(); Plan p; p.on = true; p.buf = buf; go(c, j, 0, p, -1, got); n = *shm;
  for (int k = 0; k < n.writes && !c.failed; k++) { p.k = k; p.kind = kind; for (int k2 = -1; k2 < (pairs ? n.writes : 0) && !c.failed; k2 = k2 < 0 ? k + 1 : k2 + 1) { p.k2 = k2; Res r = go(c, j, 0, p, -1, got); static const char *K[] = {"fails and so do all later ones", "fails once", "is cut short and later ones fail", "is cut short", "is cut after three bytes and later ones fail"}; judge(c, j, 0, r, got, e, strf("write %d of %d (%u byte buffer) %s%s", k + 1, n.writes, buf, K[kind], k2 >= 0 ? strf(", write %d too", k2 + 1).c_str() : "")); if (kind != 1 || k2 + 1 >= n.writes) break; } }
  if (kind == 0) for (int k = 0; k < n.closes && !c.failed; k++) { Plan q; q.on = true; q.close = k; q.buf = buf; Res r = go(c, j, 0, q, -1, got); c.queries(1); if (r.ok()) { c.fail("close", "%s: closing output file %d fails (%u byte buffer), exit status 0", j.name.c_str(), k + 1, buf); return; } }
}
static void k_limit(Ctx &c, const Job &j, int ch, unsigned part, unsigned parts, unsigned step) {
  std::string e, got; if (!base(c, j, ch, e)) return; prep(); size_t m = maxsize(e); for (size_t l = part * step; l <= m + 1 && !c.failed; l += (size_t)parts * step) { Plan p; Res r = go(c, j, ch, p, l, got); judge(c, j, ch, r, got, e, strf("files limited to %zu bytes (of %zu)", l, m)); }
}
static void k_full(Ctx &c, const Job &j) { // a full device in the place of each output
  for (int ch = 0; ch < 5 && !c.failed; ch++) { std::string e, got; if (!base(c, j, ch, e)) return; prep();
    for (auto &o : j.outs) { if (ch == 4 && o != "out") continue; for (auto &x : j.outs) remove_file(fname(x, ch)); Args a; for (auto &x : j.args) { std::string y = sub(x, ch, j); if (x == "%d/" + o) { if (ch == 0) y = "/dev/full"; else if (ch == 3) y = "|cat > /dev/full"; else if (ch != 4) symlink("/dev/full", fname(o, ch).c_str()); } a.push_back(y); }
      RunOpt q; if (ch == 4) q.in_child = []() { int f = open("/dev/full", O_WRONLY); dup2(f, 1); close(f); }; Res r = run(c, j.tool, a, q); c.queries(1); if (ch == 1 || ch == 2) remove_file(fname(o, ch)); c.outcome(hash64(j.name + o + CH[ch] + strf("%d", r.code)));
      if (r.ok()) { c.fail("full", "%s, output %s to %s on a full device: exit status 0", j.name.c_str(), o.c_str(), CH[ch]); return; } if (r.signaled && r.sig != SIGPIPE && r.sig != SIGABRT) { c.fail("crash", "%s, output %s to %s on a full device: %s", j.name.c_str(), o.c_str(), CH[ch], r.how().c_str()); return; } } }
  // output commands that fail, closed standard output, missing directories
  for (auto &o : j.outs) for (auto cmd : {"|false", "|exit 3", "|cat > %o; exit 1", "|head -c 1 > %o; exit 1", "|nosuchcommand_vk", "%d/nodir/f", "%d/nodir/f.gz", "%d/nodir/f.bz2"}) { prep(); Args a; for (auto &x : j.args) { std::string y = sub(x, 0, j); if (x == "%d/" + o) { y = cmd; size_t p; if ((p = y.find("%o")) != std::string::npos) y.replace(p, 2, path(o)); if ((p = y.find("%d")) != std::string::npos) y.replace(p, 2, scratch()); } a.push_back(y); } Res r = run(c, j.tool, a); c.queries(1); if (r.ok()) { c.fail("command", "%s, output %s to [%s]: exit status 0", j.name.c_str(), o.c_str(), cmd); return; } }
  if (j.outs.size() == 1) { /* with several outputs descriptor 1 would be reused by another of them */ std::string got; prep(); Res r = go(c, j, 4, Plan(), -1, got, []() { close(1); }); if (r.ok()) { c.fail("closed", "%s writing to a closed standard output: exit status 0", j.name.c_str()); return; } }
  c.validated(1);
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C17") return false;
  d.level = "fault_enumeration"; d.chunk = 1; d.workers = 0; J = jobs(); Args names; for (auto &j : J) names.push_back(j.tool); load_tools(names);
  M1 = "\\data\\\nngram 1=5\nngram 2=3\nngram 3=2\n\n\\1-grams:\n-0.7 <UNK>\n-0.8 <s> -0.2\n-0.9 </s>\n-0.5 a -0.3\n-0.7 b -0.1\n\n\\2-grams:\n-0.4 <s> a -0.1\n-0.3 a b -0.2\n-0.6 b a\n\n\\3-grams:\n-0.2 <s> a b\n-0.1 a b a\n\n\\end\\\n"; M2 = "\\data\\\nngram 1=3\nngram 2=1\n\n\\1-grams:\n-0.6 <UNK>\n-0.4 a -0.2\n-0.5 q\n\n\\2-grams:\n-0.2 a q\n\n\\end\\\n"; MI = "\\interpolated\n" + M1;
  { std::string b = std::string("cis-binlm2\nbackoff\n2\n<UNK>\na\n1 3\n2\n"); auto put = [&](int w, float lp, float bo, int ch) { char x[16]; memcpy(x, &w, 4); memcpy(x + 4, &lp, 4); memcpy(x + 8, &bo, 4); memcpy(x + 12, &ch, 4); b.append(x, 16); }; put(0, -0.3f, 0, -1); put(1, -0.3f, 0, -1); put(0, -99, 0, -1); MB = b; }
  static const unsigned BUF[] = {64, 4096, 256, 16, 3, 1}; unsigned nb = thorough ? 6 : 4;
  { Family f; f.name = "write calls"; f.timeout_s = 300; f.n = J.size() * 5 * nb; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int j = g.next(J.size()), k = g.next(5); k_writes(c, J[j], k, BUF[g.i], BUF[g.i] >= (thorough ? 16 : 64)); }; f.desc = [=](uint64_t i) { Digits g(i); int j = g.next(J.size()), k = g.next(5); return strf("%s: every write call, fault kind %d, %u byte buffer", J[j].name.c_str(), k, BUF[g.i]); }; d.families.push_back(f); }
  { Family f; f.name = "full devices"; f.timeout_s = 120; f.n = J.size(); f.run = [=](uint64_t i, Ctx &c) { k_full(c, J[i]); }; f.desc = [=](uint64_t i) { return J[i].name + ": full device, failing command, missing directory for each output and channel"; }; d.families.push_back(f); }
  { Family f; f.name = "size limits"; f.timeout_s = 300; unsigned parts = 8; f.n = J.size() * 5 * parts; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int ch = g.next(5), p = g.next(parts); k_limit(c, J[g.i], ch, p, parts, thorough || ch == 0 ? 1 : 5); }; f.desc = [=](uint64_t i) { Digits g(i); int ch = g.next(5), p = g.next(parts); return strf("%s to %s: every file size limit = %d mod %u", J[g.i].name.c_str(), CH[ch], p, parts); }; d.families.push_back(f); }
  d.rule = "For every output-producing tool and output channel (plain, gzip, bzip2, pipe, standard output): every write call below stdio fails (once, from then on, after a short write) with several buffer sizes, every close fails, the files are limited to every size in bytes below the complete one (the kernel then cuts the write short and fails the next), each output is a full device, a failing command, a missing directory. Exit status 0 must mean that all outputs have exactly the bytes of the fault-free run.";
  d.bounds = strf("%zu tool runs with outputs of up to 2 kB; buffers of %s16, 64, 256 and 4096 bytes", J.size(), thorough ? "1, 3, " : "");
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
