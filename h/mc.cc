#include "mc.hh"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
namespace mc {
typedef std::atomic<uint64_t> A64;
static const uint64_t NONE = ~0ull;
static const unsigned MAXW = 64, MAXFAIL = 24;
static const uint64_t HS = 1u << 22;
struct Slot { A64 cur, end, pos; A64 t0ms; A64 nhist; uint64_t hist[8192]; };
struct Fail { uint64_t idx; int kind; char key[256]; char msg[1600]; uint64_t nhist; uint64_t hist[8192]; }; // hist: the cases that ran before it in the same worker process
struct Shared {
  A64 next, evals, nontrivial, steps, validated, queries, nfail, distinct, distinct_capped;
  A64 fam_done[256];
  A64 known_hit[64], nhang;
  std::atomic<int> stop;
  Slot slot[MAXW];
  Fail fails[MAXFAIL];
  A64 hs[HS];
};
static Shared *sh;
static std::string g_scratch_root, g_scratch;
static CheckDef *g_def;
static std::vector<uint64_t> g_base;
static uint64_t g_total;

const std::string &scratch() { return g_scratch; }
uint64_t hash64(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}
std::string strf(const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
void Ctx::fail(const std::string &k, const char *fmt, ...) {
  if (failed) return;
  failed = true; key = k;
  char b[1600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); msg = b;
}
void Ctx::outcome(uint64_t h) {
  if (!h) h = 1;
  if (sh->distinct > HS * 3 / 4) { sh->distinct_capped = 1; return; }
  uint64_t i = (h * 0x9E3779B97F4A7C15ull) & (HS - 1);
  for (;;) {
    uint64_t v = sh->hs[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      uint64_t e = 0;
      if (sh->hs[i].compare_exchange_strong(e, h)) { sh->distinct++; return; }
      if (e == h) return;
    }
    i = (i + 1) & (HS - 1);
  }
}
void Ctx::outcome(const std::string &s) { outcome(hash64(s)); }
void Ctx::steps(uint64_t n) { if (!confirming) sh->steps += n; }
void Ctx::validated(uint64_t n) { if (!confirming) sh->validated += n; }
void Ctx::queries(uint64_t n) { if (!confirming) sh->queries += n; }

static uint64_t now_ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }
static int fam_of(uint64_t idx) { return int(std::upper_bound(g_base.begin(), g_base.end(), idx) - g_base.begin()) - 1; }
static void rmtree(const std::string &d) {
  if (d.find("/vkmc.") == std::string::npos) return; // only ever our own scratch
  DIR *dp = opendir(d.c_str());
  if (dp) {
    while (dirent *e = readdir(dp)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string p = d + "/" + n; struct stat st;
      if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
    }
    closedir(dp);
  }
  rmdir(d.c_str());
}
struct Known { std::string key, text; };
static std::vector<Known> g_known;
static bool is_known(const std::string &key) {
  for (size_t i = 0; i < g_known.size() && i < 64; i++) if (g_known[i].key == key) { sh->known_hit[i]++; return true; }
  return false;
}
static void add_fail(unsigned w, uint64_t idx, int kind, const std::string &key, const std::string &msg) {
  if (is_known(key)) return;
  if (kind == 2 && ++sh->nhang >= 3) sh->stop = 1;
  uint64_t n = sh->nfail++;
  if (n >= MAXFAIL) { sh->stop = 1; return; }
  Fail &f = sh->fails[n];
  f.idx = idx; f.kind = kind;
  snprintf(f.key, sizeof f.key, "%s", key.c_str());
  snprintf(f.msg, sizeof f.msg, "%s", msg.c_str());
  Slot &s = sh->slot[w]; f.nhist = std::min<uint64_t>(s.nhist, 8192); memcpy(f.hist, s.hist, f.nhist * sizeof(uint64_t));
}
static void run_one(uint64_t idx, Ctx &c) {
  int f = fam_of(idx);
  g_def->families[f].run(idx - g_base[f], c);
}
static void worker(unsigned w) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  setpgid(0, 0);
  if (!getenv("VK_STDERR")) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); if (fd > 2) close(fd); } }
  g_scratch = g_scratch_root + strf("/w%u", w);
  mkdir(g_scratch.c_str(), 0700);
  Slot &s = sh->slot[w];
  uint64_t done = 0; s.nhist = 0;
  for (;;) {
    if (s.pos >= s.end) {
      if (sh->stop) _exit(0);
      uint64_t c = sh->next.fetch_add(g_def->chunk);
      if (c >= g_total) _exit(0);
      s.pos = c; s.end = std::min(g_total, c + g_def->chunk);
    }
    while (s.pos < s.end) {
      if (sh->stop) _exit(0);
      uint64_t i = s.pos;
      s.t0ms = now_ms(); s.cur = i;
      { Ctx c; run_one(i, c);
        sh->evals++;
        if (!c.is_trivial) sh->nontrivial++;
        sh->fam_done[fam_of(i)]++;
        if (c.failed) add_fail(w, i, 0, c.key, c.msg);
        if (s.nhist < 8192) s.hist[s.nhist++] = i; }
      s.cur = NONE; s.pos = i + 1;
      if (++done >= g_def->respawn_after) _exit(77);
    }
  }
}
static std::vector<Known> load_known(const std::string &path, const std::string &prop) {
  std::vector<Known> r; std::ifstream in(path); std::string l;
  while (std::getline(in, l)) {
    std::istringstream is(l); std::string w, p, k;
    is >> w >> p >> k;
    if (w != "known:" || p != "property=" + prop || k.compare(0, 4, "key=")) continue;
    std::string rest; std::getline(is, rest);
    r.push_back({k.substr(4), rest});
  }
  return r;
}
static std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) o += strf("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
// Re-run one case in a fresh process, alone or after other cases. returns true if it still fails.
static bool confirm(uint64_t idx, const std::vector<uint64_t> &before, double limit, std::string &key, std::string &msg) {
  Fail *r = (Fail *)mmap(0, sizeof(Fail) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  r->kind = -1;
  fflush(0);
  pid_t p = fork();
  if (!p) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0);
    g_scratch = g_scratch_root + "/confirm"; rmtree(g_scratch); mkdir(g_scratch.c_str(), 0700);
    for (auto x : before) { Ctx c; c.confirming = true; run_one(x, c); }
    Ctx c; c.confirming = true; run_one(idx, c);
    if (c.failed) { snprintf(r->key, sizeof r->key, "%s", c.key.c_str()); snprintf(r->msg, sizeof r->msg, "%s", c.msg.c_str()); r->kind = 1; }
    else r->kind = 0;
    _exit(0);
  }
  uint64_t t0 = now_ms(); int st = 0; bool to = false;
  for (;;) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    if (now_ms() - t0 > limit * 1000) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; }
    usleep(2000);
  }
  kill(-p, SIGKILL);
  bool bad = true;
  if (to) { key = "hang"; msg = strf("does not end within %.0f s when run %s", limit, before.empty() ? "alone" : "after others"); }
  else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || r->kind == -1) { key = "crash"; msg = strf("process died (wait status 0x%x) when run %s", st, before.empty() ? "alone" : "after others"); }
  else if (r->kind == 1) { key = r->key; msg = r->msg; }
  else bad = false;
  munmap(r, sizeof(Fail) + 4096);
  return bad;
}
static std::string env(const char *n, const char *d) { const char *v = getenv(n); return v && *v ? v : d; }

int run_main(int argc, char **argv, const Builder &b) {
  if (argc < 2) { fprintf(stderr, "usage: %s PROPERTY [--tier quick|thorough] [--case N] [--family NAME]\n", argv[0]); return 2; }
  std::string prop = argv[1], tier = env("VERIF_TIER", "quick"), onlyfam; long long onecase = -1; std::vector<uint64_t> before;
  bool list = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier" && i + 1 < argc) tier = argv[++i];
    else if (a == "--case" && i + 1 < argc) { std::istringstream is(argv[++i]); std::string t; while (std::getline(is, t, ',')) { if (onecase >= 0) before.push_back(onecase); onecase = atoll(t.c_str()); } }
    else if (a == "--family" && i + 1 < argc) onlyfam = argv[++i];
    else if (a == "--list") list = true;
  }
  if (tier != "thorough") tier = "quick";
  uint64_t t_start = now_ms();
  // Scratch on tmpfs when there is one.
  std::string base = "/dev/shm"; struct stat st0;
  if (stat(base.c_str(), &st0) || access(base.c_str(), W_OK)) base = env("TMPDIR", "/tmp");
  { std::string t = base + "/vkmc.XXXXXX"; std::vector<char> v(t.begin(), t.end()); v.push_back(0);
    if (!mkdtemp(&v[0])) { v.assign({0}); t = "/tmp/vkmc.XXXXXX"; v.assign(t.begin(), t.end()); v.push_back(0);
      if (!mkdtemp(&v[0])) { perror("mkdtemp"); return 2; } }
    g_scratch_root = &v[0]; }
  g_scratch = g_scratch_root;
  struct Cleaner { pid_t p = getpid(); ~Cleaner() { if (getpid() == p) rmtree(g_scratch_root); } } cleaner;
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  CheckDef def;
  if (!b(prop, tier == "thorough", def)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  if (!onlyfam.empty()) { std::vector<Family> f; for (auto &x : def.families) if (x.name == onlyfam) f.push_back(x); def.families = f; }
  std::string root = env("VK_ROOT", ".");
  g_known = load_known(root + "/known_findings.txt", prop);
  g_def = &def; g_total = 0; g_base.clear();
  for (auto &f : def.families) { g_base.push_back(g_total); g_total += f.n; }
  if (list) { for (auto &f : def.families) { printf("%s %llu e.g. %s\n", f.name.c_str(), (unsigned long long)f.n, f.n ? f.desc(f.n / 2).c_str() : ""); } return 0; }
  if (onecase >= 0) {
    std::string key, msg; int f = fam_of(onecase);
    printf("case %lld family %s: %s\n", onecase, def.families[f].name.c_str(), def.families[f].desc(onecase - g_base[f]).c_str());
    bool bad = confirm(onecase, before, def.families[f].timeout_s * 4, key, msg);
    printf("%s %s %s\n", bad ? "FAILS" : "ok", key.c_str(), msg.c_str());
    return bad ? 1 : 0;
  }
  double wall_cap = atof(env("VK_WALL", tier == "quick" ? "600" : "14000").c_str());
  unsigned W = def.workers; if (!W) { cpu_set_t cs; W = sched_getaffinity(0, sizeof cs, &cs) ? 4 : CPU_COUNT(&cs); } if (W > MAXW) W = MAXW; if (W < 1) W = 1;
  std::vector<pid_t> pid(W, 0);
  bool wall_hit = false;
  auto spawn = [&](unsigned w) { fflush(0); pid_t p = fork(); if (!p) { worker(w); _exit(0); } pid[w] = p; };
  for (unsigned w = 0; w < W; w++) { sh->slot[w].cur = NONE; spawn(w); }
  unsigned alive = W;
  while (alive) {
    usleep(1000);
    for (unsigned w = 0; w < W; w++) {
      if (!pid[w]) continue;
      int st; pid_t q = waitpid(pid[w], &st, WNOHANG);
      Slot &s = sh->slot[w];
      if (q == pid[w]) {
        kill(-pid[w], SIGKILL);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; alive--; continue; }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) {
          uint64_t c = s.cur;
          if (c != NONE) { add_fail(w, c, 1, "crash", strf("process died (wait status 0x%x)", st)); s.pos = c + 1; s.cur = NONE; }
          else if (s.pos >= s.end && !sh->stop) { /* died between cases */ add_fail(w, s.pos ? s.pos - 1 : 0, 1, "crash", "process died between cases"); }
        }
        spawn(w);
      } else {
        uint64_t c = s.cur, t0 = s.t0ms;
        if (c != NONE && now_ms() > t0 + uint64_t(def.families[fam_of(c)].timeout_s * 1000) && s.cur == c) {
          kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
          add_fail(w, c, 2, "hang", "time limit of one case exceeded");
          s.pos = c + 1; s.cur = NONE; spawn(w);
        }
      }
    }
    if (!wall_hit && now_ms() - t_start > wall_cap * 1000) { wall_hit = true; sh->stop = 1; }
  }
  // confirm failures
  std::vector<Fail> fails(sh->fails, sh->fails + std::min<uint64_t>(sh->nfail, MAXFAIL));
  std::sort(fails.begin(), fails.end(), [](const Fail &a, const Fail &b) { return a.idx < b.idx; });
  int violations = 0, unreproduced = 0; int confirmed = 0;
  std::string replay_dir = root + "/replays"; mkdir(replay_dir.c_str(), 0755);
  for (auto &f : fails) {
    int fi = fam_of(f.idx);
    if (confirmed >= 3 || (confirmed && now_ms() - t_start > 200000)) continue;
    std::string key, msg;
    std::vector<uint64_t> h; bool bad = confirm(f.idx, h, def.families[fi].timeout_s * 4, key, msg);
    if (!bad && f.kind != 2 && f.nhist && now_ms() - t_start < (tier == "quick" ? 400000 : 14000000)) {
      // not alone: does it fail in the company it had?  State kept by the process is then to blame.  First with the
      // shortest tail of the predecessors (powers of two), then with all of them, then one at a time.
      std::vector<uint64_t> all(f.hist, f.hist + f.nhist); double lim = def.families[fi].timeout_s * 4 + 60;
      for (uint64_t n = 1; !bad; n = std::min<uint64_t>(n * 4, all.size())) { h.assign(all.end() - n, all.end()); bad = confirm(f.idx, h, lim, key, msg) && key != "hang"; if (n == all.size()) break; }
      for (size_t k = 0, tries = 0; bad && k < h.size() && tries < 40; tries++) { std::vector<uint64_t> g; size_t part = std::max<size_t>(1, h.size() / 8); for (size_t x = 0; x < h.size(); x++) if (x < k || x >= k + part) g.push_back(h[x]); std::string k2, m2; if (!g.empty() && confirm(f.idx, g, lim, k2, m2) && k2 != "hang") { h = g; key = k2; msg = m2; } else k += part; }
      if (bad) msg += " (not when run alone: state kept by the process)"; else h.clear();
    }
    if (!bad) { unreproduced++; fprintf(stderr, "note: case %llu failed once (%s: %s) but not when run alone; not reported\n", (unsigned long long)f.idx, f.key, f.msg); continue; }
    if (is_known(key)) continue;
    confirmed++; violations++;
    std::string rp = replay_dir + "/" + prop + strf("-%llu.txt", (unsigned long long)f.idx);
    std::ofstream o(rp);
    std::string d = def.families[fi].desc(f.idx - g_base[fi]);
    std::string cases; for (auto x : h) cases += strf("%llu,", (unsigned long long)x); cases += strf("%llu", (unsigned long long)f.idx);
    o << "property: " << prop << "\ntier: " << tier << "\nfamily: " << def.families[fi].name << "\ncase: " << f.idx
      << "\nwhat: " << d << "\nkey: " << key << "\nmessage: " << msg
      << "\nreplay: run from /verif: ./check.sh " << prop << " --tier " << tier << " --case " << cases << "\n";
    o.close();
    fprintf(stderr, "%s [%s] %s\n   -> %s: %s\n", prop.c_str(), def.families[fi].name.c_str(), d.c_str(), key.c_str(), msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str());
  }
  for (size_t i = 0; i < g_known.size() && i < 64; i++) if (sh->known_hit[i]) printf("KNOWN-FINDING: property=%s %s%s (%llu cases)\n", prop.c_str(), g_known[i].key.c_str(), g_known[i].text.c_str(), (unsigned long long)sh->known_hit[i]);
  bool exhaustive = !sh->stop && sh->evals + fails.size() >= g_total;
  // evidence
  mkdir((root + "/evidence").c_str(), 0755);
  std::ofstream e(root + "/evidence/" + prop + ".json");
  e << "{\n \"property\": " << jesc(prop) << ",\n \"tier\": " << jesc(tier) << ",\n \"seed\": " << atoi(env("VERIF_SEED", "1").c_str())
    << ",\n \"level\": " << jesc(def.level) << ",\n \"coverage\": {\n";
  if (def.level == "model_checking")
    e << "  \"states\": " << sh->distinct << ",\n  \"transitions\": " << sh->steps << ",\n  \"traces_validated_against_impl\": " << sh->validated << ",\n  \"cases\": " << sh->evals << ",\n";
  else
    e << "  \"evaluations\": " << sh->evals << ",\n  \"distinct_nontrivial\": " << sh->nontrivial << ",\n  \"distinct_outcomes\": " << sh->distinct << ",\n  \"operations_executed\": " << sh->steps << ",\n";
  e << "  \"single_comparisons\": " << sh->queries << ",\n  \"rule\": " << jesc(def.rule) << ",\n  \"bounds\": " << jesc(def.bounds)
    << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"wall_cap_hit\": " << (wall_hit ? "true" : "false")
    << ",\n  \"outcome_table_capped\": " << (sh->distinct_capped ? "true" : "false")
    << ",\n  \"unreproduced\": " << unreproduced << ",\n  \"families\": {";
  for (size_t i = 0; i < def.families.size(); i++)
    e << (i ? "," : "") << "\n   " << jesc(def.families[i].name) << ": {\"cases\": " << def.families[i].n << ", \"done\": " << sh->fam_done[i] << "}";
  e << "\n  },\n  \"samples\": [";
  bool first = true;
  for (auto &f : def.families) for (uint64_t k : {f.n / 3, f.n - 1}) if (f.n) { e << (first ? "" : ",") << "\n   " << jesc(f.name + ": " + f.desc(k)); first = false; }
  e << "\n  ]\n },\n \"assumptions\": [";
  for (size_t i = 0; i < def.assumptions.size(); i++) e << (i ? ", " : "") << jesc(def.assumptions[i]);
  double wall = (now_ms() - t_start) / 1000.0;
  e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  e.close();
  printf("%s %s: %llu/%llu cases, %llu distinct outcomes, %llu operations, %llu comparisons, exhaustive=%s, %.1f s, violations=%d%s\n", prop.c_str(), tier.c_str(),
         (unsigned long long)sh->evals, (unsigned long long)g_total, (unsigned long long)sh->distinct, (unsigned long long)sh->steps, (unsigned long long)sh->queries, exhaustive ? "yes" : "no", wall, violations,
         unreproduced ? strf(" unreproduced=%d", unreproduced).c_str() : "");
  fflush(stdout);
  return violations ? 1 : 0;
}
} // namespace mc
