#include "vk.hh"
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef VK_ASAN
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
#endif
namespace vk {
typedef int (*main_t)(int, char **, char **);
static std::map<std::string, main_t> mains; static std::map<std::string, std::string> execs;
std::string bin_dir = ".";
void load_tools(const std::vector<std::string> &tools) {
  char buf[4096]; ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
  if (n > 0) { buf[n] = 0; bin_dir = std::string(buf).substr(0, std::string(buf).rfind('/')); }
  for (auto &t : tools) {
    if (mains.count(t)) continue;
    size_t colon = t.find(':'); std::string dir = colon == std::string::npos ? bin_dir : bin_dir + "/../" + t.substr(0, colon), base = colon == std::string::npos ? t : t.substr(colon + 1); // "variant:tool"
    if (dir != bin_dir && t.substr(0, colon) == "asan") { mains[t] = nullptr; execs[t] = dir + "/x_" + base; continue; }
    void *h = dlopen((dir + "/lib" + base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen %s: %s\n", t.c_str(), dlerror()); _exit(3); }
    mains[t] = (main_t)dlsym(h, "main");
    if (!mains[t]) { fprintf(stderr, "no main in %s\n", t.c_str()); _exit(3); }
  }
}
std::string path(const std::string &n) { return mc::scratch() + "/" + n; }
void write_file(const std::string &p, const std::string &d) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) { perror(p.c_str()); abort(); }
  size_t o = 0; while (o < d.size()) { ssize_t k = write(fd, d.data() + o, d.size() - o); if (k <= 0) { perror("write"); abort(); } o += k; }
  close(fd);
}
std::string read_file(const std::string &p, bool *ok) {
  std::string r; int fd = open(p.c_str(), O_RDONLY);
  if (ok) *ok = fd >= 0;
  if (fd < 0) return r;
  char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k);
  close(fd); return r;
}
bool exists(const std::string &p) { struct stat s; return !stat(p.c_str(), &s); }
void remove_file(const std::string &p) { unlink(p.c_str()); }
std::string join(const std::vector<std::string> &v, const std::string &sep) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }
std::vector<std::string> split_ws(const std::string &s) {
  std::vector<std::string> r; std::string c;
  for (char ch : s) { if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\v' || ch == '\f') { if (!c.empty()) { r.push_back(c); c.clear(); } } else c += ch; }
  if (!c.empty()) r.push_back(c);
  return r;
}
std::string show(const std::string &s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; } if (r.size() > 600) r = r.substr(0, 600) + "..."; return r; }

Res run(mc::Ctx &c, const std::string &tool, const Args &args, const RunOpt &o) {
  Res r;
  auto it = mains.find(tool);
  if (it == mains.end()) { fprintf(stderr, "tool %s not loaded\n", tool.c_str()); abort(); }
  std::string of = path("stdout"), ef = path("stderr"), sf;
  if (o.has_stdin) { sf = path("stdin"); write_file(sf, o.stdin_data); }
  fflush(0);
  pid_t p = fork();
  if (p < 0) { perror("fork"); abort(); }
  if (!p) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit rl; rl.rlim_cur = o.cpu_s * (c.confirming ? 4 : 1); rl.rlim_max = rl.rlim_cur + 2; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#ifndef VK_ASAN
    rl.rlim_cur = 6ull << 30; rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_AS, &rl);
#endif
    rl.rlim_cur = rl.rlim_max = 512ull << 20; setrlimit(RLIMIT_FSIZE, &rl);
    signal(SIGPIPE, SIG_DFL);
    int fd = open(o.has_stdin ? sf.c_str() : "/dev/null", O_RDONLY); dup2(fd, 0); if (fd > 2) close(fd);
    fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); if (fd > 2) close(fd);
    fd = open(o.keep_err ? ef.c_str() : "/dev/null", O_WRONLY | (o.keep_err ? O_CREAT | O_TRUNC : 0), 0600); dup2(fd, 2); if (fd > 2) close(fd);
    std::vector<std::string> a; a.push_back(tool.find(':') == std::string::npos ? tool : tool.substr(tool.find(':') + 1)); a.insert(a.end(), args.begin(), args.end());
    std::vector<char *> av; for (auto &x : a) av.push_back(const_cast<char *>(x.c_str())); av.push_back(nullptr);
    if (o.in_child) o.in_child();
    if (!it->second) { setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=1", 1); rl.rlim_cur = rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_AS, &rl); execv(execs[tool].c_str(), av.data()); _exit(126); }
    int rc = it->second((int)a.size(), av.data(), environ);
    exit(rc);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  c.steps(1);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 86) r.memory = true;
  if (WIFSIGNALED(st)) { r.signaled = true; r.sig = WTERMSIG(st); } else r.code = WEXITSTATUS(st);
  r.out = read_file(of);
  if (o.keep_err) r.err = read_file(ef);
  return r;
}
bool run_ok(mc::Ctx &c, const std::string &tool, const Args &args, Res *rp, const RunOpt &o) {
  Res r = run(c, tool, args, o);
  if (rp) *rp = r;
  if (r.ok()) return true;
  std::string why = r.signaled && (r.sig == SIGXCPU || r.sig == SIGKILL) ? " (CPU limit)" : "";
  c.fail("tool-failed", "%s %s: %s%s", tool.c_str(), join(args).c_str(), r.how().c_str(), why.c_str());
  return false;
}

static bool getline_(const std::string &t, size_t &p, std::string &l) {
  if (p >= t.size()) return false;
  size_t e = t.find('\n', p);
  if (e == std::string::npos) { l = t.substr(p); p = t.size(); } else { l = t.substr(p, e - p); p = e + 1; }
  return true;
}
static bool num(const std::string &s, double &d) {
  if (s.empty()) return false;
  char *e; d = strtod(s.c_str(), &e); return *e == 0;
}
Model parse_arpa(const std::string &t) {
  Model m; size_t p = 0; std::string l;
  auto bad = [&](const std::string &w) { m.err = w; return m; };
  m.counts.assign(1, 0);
  // header
  bool data = false;
  while (getline_(t, p, l)) {
    auto w = split_ws(l);
    if (w.empty()) continue;
    if (w[0] == "\\interpolated" && !data) { m.interp = true; continue; }
    if (w[0] == "\\data\\") { data = true; break; }
    return bad("unexpected line before \\data\\: " + l);
  }
  if (!data) return bad("no \\data\\");
  while (getline_(t, p, l)) {
    auto w = split_ws(l);
    if (w.empty()) { if (m.counts.size() > 1) break; else continue; }
    unsigned o; unsigned long long n; char x;
    if (sscanf(l.c_str(), "ngram %u=%llu%c", &o, &n, &x) != 2 && sscanf(l.c_str(), "ngram %u= %llu", &o, &n) != 2) return bad("bad count line: " + l);
    if (o != m.counts.size()) return bad("count lines out of order: " + l);
    m.counts.push_back(n);
  }
  int cur = 0; bool end = false; std::vector<uint64_t> seen(m.counts.size(), 0);
  while (getline_(t, p, l)) {
    auto w = split_ws(l);
    if (w.empty()) continue;
    if (w[0] == "\\end\\") { end = true; break; }
    unsigned o; 
    if (w[0][0] == '\\' && w.size() == 1 && sscanf(w[0].c_str(), "\\%u-grams:", &o) == 1 && w[0] == "\\" + std::to_string(o) + "-grams:") {
      if ((int)o != cur + 1 || o >= m.counts.size()) return bad("section out of order: " + l);
      cur = o; continue;
    }
    if (!cur) return bad("n-gram before a section: " + l);
    if ((int)w.size() != cur + 1 && (int)w.size() != cur + 2) return bad(mc::strf("wrong field count in %d-gram line: ", cur) + l);
    Entry e;
    if (!num(w[0], e.lp) || std::isnan(e.lp)) return bad("bad probability: " + l);
    if ((int)w.size() == cur + 2) { if (!num(w.back(), e.bo) || std::isnan(e.bo)) return bad("bad back-off: " + l); e.has_bo = true; }
    Words k(w.begin() + 1, w.begin() + 1 + cur);
    if (!m.g.insert({k, e}).second) return bad("duplicate n-gram: " + l);
    seen[cur]++;
    if (cur == 1) { m.vocab.push_back(k[0]); m.vset.insert(k[0]); }
    else for (auto &x : k) if (!m.vset.count(x)) return bad("n-gram word missing from unigrams: " + l);
  }
  if (!end) return bad("no \\end\\");
  m.order = 0;
  for (size_t o = 1; o < m.counts.size(); o++) {
    if (seen[o] != m.counts[o]) return bad(mc::strf("order %zu: header says %llu n-grams, file has %llu", o, (unsigned long long)m.counts[o], (unsigned long long)seen[o]));
    if (seen[o]) m.order = o;
  }
  return m;
}
double Model::prob(const Words &w, int *hit) const {
  // context limited to order-1 words
  int n = std::min<int>(w.size(), std::max(order, 1));
  auto P10 = [](double x) { return x <= -59.9 ? 0.0 : pow(10, x); };
  if (!interp) {
    double b = 0;
    for (int k = n; k >= 1; k--) {
      Words key(w.end() - k, w.end());
      auto it = g.find(key);
      if (it != g.end()) { if (hit) *hit = k; return pow(10, b + it->second.lp); }
      if (k > 1) { Words ctx(w.end() - k, w.end() - 1); auto c = g.find(ctx); if (c != g.end()) b += c->second.bo; }
    }
    if (hit) *hit = 0;
    return 0;
  }
  double p = 0; int h = 0;
  for (int k = 1; k <= n; k++) {
    if (k > 1) { Words ctx(w.end() - k, w.end() - 1); auto c = g.find(ctx); if (c != g.end()) p *= P10(c->second.bo); }
    Words key(w.end() - k, w.end());
    auto it = g.find(key);
    if (it != g.end()) { p += P10(it->second.lp); h = k; }
  }
  if (hit) *hit = h;
  return p;
}
static bool rec_ctx(const Words &v, Words &c, int len, const std::function<bool(const Words &)> &f) {
  if ((int)c.size() == len) return f(c);
  for (auto &w : v) { c.push_back(w); if (!rec_ctx(v, c, len, f)) return false; c.pop_back(); }
  return true;
}
void for_contexts(const Words &v, int len, const std::function<bool(const Words &)> &f) {
  for (int l = 0; l <= len; l++) { Words c; if (!rec_ctx(v, c, l, f)) return; }
}
void add_contexts(const Model &m, std::set<Words> &s) {
  s.insert(Words());
  for (auto &e : m.g) {
    const Words &w = e.first;
    if ((int)w.size() < m.order) s.insert(w);
    for (size_t n = 1; n < w.size(); n++) s.insert(Words(w.begin(), w.begin() + n));
  }
}
bool check_normalized(mc::Ctx &c, const Model &m, double eps, const Words &skip, bool allow_zero) {
  bool ok = true; uint64_t q = 0;
  std::set<Words> ctxs; add_contexts(m, ctxs);
  for (auto &ctx : ctxs) {
    double s = 0; Words w = ctx; w.push_back("");
    for (auto &x : m.vocab) {
      w.back() = x; double p = m.prob(w); q++;
      bool sk = std::find(skip.begin(), skip.end(), x) != skip.end();
      if (!(p >= -1e-9) || p > 1 + eps || (!sk && !allow_zero && p <= 0)) { c.fail("prob-range", "P(%s | %s) = %g", x.c_str(), join(ctx).c_str(), p); ok = false; break; }
      s += p;
    }
    if (ok && !(std::fabs(s - 1) <= eps)) { c.fail("sum", "sum over vocabulary after context [%s] is %.7f", join(ctx).c_str(), s); ok = false; }
    if (!ok) break;
  }
  c.queries(q);
  return ok;
}
bool check_same(mc::Ctx &c, const std::string &key, const Model &a, const Model &b, double ae, double re) {
  bool ok = true; uint64_t q = 0;
  if (a.vset != b.vset) { c.fail(key + "-vocab", "vocabularies differ: {%s} and {%s}", join(a.vocab).c_str(), join(b.vocab).c_str()); return false; }
  std::set<Words> ctxs; add_contexts(a, ctxs); add_contexts(b, ctxs);
  for (auto &ctx : ctxs) {
    Words w = ctx; w.push_back("");
    for (auto &x : a.vocab) {
      w.back() = x; double p = a.prob(w), r = b.prob(w); q++;
      if (!(std::fabs(p - r) <= ae + re * std::max(p, r))) { c.fail(key, "P(%s | %s) is %.8g in one model and %.8g in the other", x.c_str(), join(ctx).c_str(), p, r); ok = false; break; }
    }
    if (!ok) break;
  }
  c.queries(q);
  return ok;
}
static void rgs_rec(std::vector<std::vector<unsigned char>> &out, std::vector<unsigned char> &c, unsigned k, unsigned mx, unsigned L) {
  if (c.size() == L) { out.push_back(c); return; }
  for (unsigned x = 0; x <= mx && x < k; x++) { c.push_back(x); rgs_rec(out, c, k, x == mx ? mx + 1 : mx, L); c.pop_back(); }
}
RGS::RGS(unsigned k, unsigned a, unsigned b) { for (unsigned L = a; L <= b; L++) { std::vector<unsigned char> c; rgs_rec(v, c, k, 0, L); } }
uint64_t seq_count(unsigned k, unsigned a, unsigned b) { uint64_t s = 0, p = 1; for (unsigned l = 0; l <= b; l++) { if (l >= a) s += p; p *= k; } return s; }
std::vector<unsigned char> seq_at(uint64_t i, unsigned k, unsigned a, unsigned b) {
  uint64_t p = 1; for (unsigned l = 0; l < a; l++) p *= k;
  for (unsigned l = a; l <= b; l++, p *= k) {
    if (i < p) { std::vector<unsigned char> r(l); for (unsigned j = 0; j < l; j++) { r[l - 1 - j] = i % k; i /= k; } return r; }
    i -= p;
  }
  abort();
}
} // namespace vk
