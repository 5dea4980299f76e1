// C18: command lines, configuration text and string helpers.
#include "vk.hh"
#include <climits>
#include <setjmp.h>
#include <unistd.h>
#include "conf.hh"
#include "str.hh"
using namespace mc; using namespace vk;
static thread_local jmp_buf jb; static thread_local bool armed = false; static thread_local int exit_code;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __real_abort(void) __attribute__((noreturn));
extern "C" void __wrap_exit(int c) { if (!armed) __real_exit(c); exit_code = c & 255; longjmp(jb, 1); }
extern "C" void __wrap_abort(void) { if (!armed) __real_abort(); exit_code = 134; longjmp(jb, 2); }
#include <fcntl.h>
struct Quiet { int sv; Quiet() { fflush(stderr); sv = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { fflush(stderr); dup2(sv, 2); close(sv); } };
// ---------------------------------------------------------------- reference grammar (documented in conf.hh)
struct ROpt { char s; std::string l; bool arg, must; std::string def; };
struct RVal { bool spec = false; std::string val; };
struct RRes { bool error = false, help = false; std::vector<std::string> args; std::vector<RVal> v; };
static void ref_feed(const std::vector<ROpt> &O, const std::vector<std::string> &a, bool override, RRes &r) {
  auto give = [&](size_t i, const std::string &x) { if (!r.v[i].spec || override) r.v[i].val = x; r.v[i].spec = true; };
  bool plain = false;
  for (size_t i = 0; i < a.size() && !r.error; i++) {
    const std::string &t = a[i];
    if (plain || t.size() < 2 || t[0] != '-') { r.args.push_back(t); continue; }
    if (t == "--") { plain = true; continue; }
    if (t[1] == '-') { // long
      size_t e = t.find('='); std::string n = t.substr(2, e == std::string::npos ? e : e - 2); size_t k = 0; while (k < O.size() && (O[k].l.empty() || O[k].l != n)) k++;
      if (k == O.size()) { r.error = true; return; }
      if (!O[k].arg) { if (e != std::string::npos) { r.error = true; return; } r.v[k].spec = true; continue; }
      if (e != std::string::npos) give(k, t.substr(e + 1)); else if (i + 1 < a.size()) give(k, a[++i]); else { r.error = true; return; }
    } else { std::vector<size_t> need;
      for (size_t j = 1; j < t.size(); j++) { size_t k = 0; while (k < O.size() && (O[k].s == 0 || O[k].s != t[j])) k++; if (k == O.size()) { r.error = true; return; } if (O[k].arg) need.push_back(k); else r.v[k].spec = true; }
      for (auto k : need) { if (i + 1 < a.size()) give(k, a[++i]); else { r.error = true; return; } }
    }
  }
}
static void ref_finish(const std::vector<ROpt> &O, int nargs, RRes &r) { if (r.error) return; if (r.v[0].spec) { r.help = true; return; } if ((int)r.args.size() != nargs) { r.error = true; return; } for (size_t i = 0; i < O.size(); i++) if (O[i].must && !r.v[i].spec) r.error = true; }
static std::vector<ROpt> table(int kind) {
  std::vector<ROpt> o = {{'h', "help", false, false, ""}, {'a', "alpha", false, false, ""}, {'v', "val", true, kind == 1, "dv"}, {'w', "wal", true, false, ""}, {0, "only", true, false, "7"}, {'z', "", false, kind == 1, ""}, {'5', "al", false, false, "x"}};
  return o;
}
static void declare(conf::Config &c, const std::vector<ROpt> &O) { c("Usage: t\n"); for (size_t i = 1; i < O.size(); i++) c(O[i].s, O[i].l + (O[i].l.size() && O[i].arg ? "=X" : ""), std::string(O[i].arg ? "arg" : "") + (O[i].must ? (O[i].arg ? " must" : "must") : ""), O[i].def, "help text"); }
static void init(RRes &r, const std::vector<ROpt> &O) { r.v.assign(O.size(), RVal()); for (size_t i = 0; i < O.size(); i++) r.v[i].val = O[i].def; }
// returns exit status, or -1 when parsing returned
static int real_parse(conf::Config &c, const std::vector<std::string> &a, int nargs, bool override) {
  std::vector<char *> av; static char t0[] = "t"; av.push_back(t0); for (auto &x : a) av.push_back(const_cast<char *>(x.c_str())); av.push_back(nullptr);
  volatile int rc = -1; armed = true; if (!setjmp(jb)) c.parse(a.size() + 1, av.data(), nargs, override); else rc = exit_code; armed = false; return rc;
}
static bool compare(Ctx &c, const std::string &what, const std::vector<ROpt> &O, const conf::Config &C, int rc, const RRes &r) {
  if (r.error) { if (rc <= 0) { c.fail("accepted", "%s is not a valid command line but %s", what.c_str(), rc < 0 ? "is accepted" : "ends with exit status 0"); return false; } return true; }
  if (r.help) { if (rc != 0) { c.fail("help", "%s asks for help; exit status %d", what.c_str(), rc); return false; } return true; }
  if (rc >= 0) { c.fail("rejected", "%s is valid but ends with exit status %d", what.c_str(), rc); return false; }
  if (C.arguments != r.args) { c.fail("arguments", "%s: arguments are [%s], expected [%s]", what.c_str(), join(C.arguments, "|").c_str(), join(r.args, "|").c_str()); return false; }
  for (size_t i = 0; i < O.size(); i++) { const conf::Option &x = O[i].l.size() ? C[O[i].l] : C[(unsigned char)O[i].s]; if (O[i].l.size() && O[i].s && &C[(unsigned char)O[i].s] != &x) { c.fail("option", "option -%c and --%s differ", O[i].s, O[i].l.c_str()); return false; }
    if (x.specified != r.v[i].spec || x.get_str() != r.v[i].val || std::string(x.get_c_str()) != r.v[i].val) { c.fail("value", "%s: option -%c --%s is %s '%s', expected %s '%s'", what.c_str(), O[i].s ? O[i].s : '?', O[i].l.c_str(), x.specified ? "given" : "not given", x.get_str().c_str(), r.v[i].spec ? "given" : "not given", r.v[i].val.c_str()); return false; } }
  return true;
}
static const std::vector<std::string> AL = {"-a", "-v", "-av", "-vw", "--alpha", "--val", "--val=5", "--wal=", "--alpha=5", "--wal=--val", "--only=a=b", "--only", "--", "-", "x", "", "-q", "-aq", "--nope", "-5", "-z", "-h", "--al"};
static std::vector<std::string> argv_at(uint64_t x, unsigned len) { std::vector<std::string> a; for (unsigned i = 0; i < len; i++) { a.push_back(AL[x % AL.size()]); x /= AL.size(); } return a; }
static std::string qshow(const std::vector<std::string> &a) { std::string r = "["; for (auto &x : a) r += (r.size() > 1 ? " '" : "'") + show(x) + "'"; return r + "]"; }
static void conf_argv(Ctx &c, unsigned len, unsigned first, int kind, int nargs, bool override) {
  Quiet q; auto O = table(kind); uint64_t n = 1, k = 0; for (unsigned i = 1; i < len; i++) n *= AL.size(); if (!len) n = 1;
  for (uint64_t x = 0; x < n; x++) { auto a = argv_at(len ? x * AL.size() + first : 0, len); conf::Config C; declare(C, O); int rc = real_parse(C, a, nargs, override); RRes r; init(r, O); ref_feed(O, a, override, r); ref_finish(O, nargs, r); k++; if (!compare(c, qshow(a), O, C, rc, r)) return; if (k % 16 == 0) c.outcome(hash64(qshow(r.args) + strf("%d%d", r.error, r.help))); }
  c.steps(k); c.queries(k); c.validated(k);
}
// reference tokenizer of configuration files
static std::vector<std::string> ref_fields(const std::string &t, bool skip_leading) {
  std::vector<std::string> f; std::string cur; bool in = !skip_leading; size_t i = 0; auto ws = [](char x) { return x == ' ' || x == '\t' || x == '\n'; };
  if (skip_leading) while (i < t.size() && ws(t[i])) i++;
  in = i < t.size(); 
  while (i < t.size()) { char x = t[i];
    if (ws(x)) { f.push_back(cur); cur.clear(); while (i < t.size() && ws(t[i])) i++; in = i < t.size(); continue; }
    if (x == '\\') { if (i + 1 < t.size()) { cur += t[i + 1]; i++; } i++; continue; }
    if (x == '\'' || x == '"') { i++; while (i < t.size() && t[i] != x) cur += t[i++]; i++; continue; }
    cur += x; i++; }
  if (in) f.push_back(cur); return f;
}
static std::string str_at(uint64_t x, unsigned len, const std::string &al) { std::string s; for (unsigned i = 0; i < len; i++) { s += al[x % al.size()]; x /= al.size(); } return s; }
static void conf_file(Ctx &c, unsigned len, unsigned first, int kind) { // kind 0: tokens by characters; 1: after a command line
  Quiet q; auto O = table(0); static const std::string al = "-av \n\"'\\x"; uint64_t n = 1, k = 0; for (unsigned i = 1; i < len; i++) n *= al.size();
  for (uint64_t x = 0; x < n; x++) { std::string t = len ? str_at(x * al.size() + first, len, al) : ""; conf::Config C; declare(C, O); RRes r; init(r, O); volatile int rc = -1;
    if (kind & 1) { std::vector<std::string> a = {"--val=cmd"}; rc = real_parse(C, a, 0, true); ref_feed(O, a, true, r); }
    FILE *f = t.empty() ? fopen("/dev/null", "r") : fmemopen((void *)t.data(), t.size(), "r"); armed = true; if (!setjmp(jb)) C.read(f, kind & 2); else rc = exit_code; armed = false; fclose(f);
    ref_feed(O, ref_fields(t, true), kind & 2, r); k++; if (!compare(c, "configuration file '" + show(t) + "'", O, C, rc, r)) return; if (k % 16 == 0) c.outcome(hash64(qshow(r.args) + strf("%d", r.error))); }
  c.steps(k); c.queries(k); c.validated(k);
}
// ---------------------------------------------------------------- string helpers
static std::vector<std::string> ref_split(const std::string &s, const std::string &d, bool group, int nf) {
  std::vector<std::string> f; size_t i = 0;
  while (i < s.size()) { if (nf > 0 && (int)f.size() == nf - 1) { f.push_back(s.substr(i)); break; } size_t e = s.find_first_of(d, i); if (e == std::string::npos) { f.push_back(s.substr(i)); break; } f.push_back(s.substr(i, e - i)); i = e + 1; if (group) while (i < s.size() && d.find(s[i]) != std::string::npos) i++; }
  return f;
}
static void str_split(Ctx &c, unsigned len, unsigned first) {
  static const std::string al = "a:- \t"; uint64_t n = 1, k = 0; for (unsigned i = 1; i < len; i++) n *= al.size();
  for (uint64_t x = 0; x < n; x++) { std::string s = len ? str_at(x * al.size() + first, len, al) : "";
    for (auto d : {":", " \t", ":- "}) for (int g = 0; g < 2; g++) for (int nf = 0; nf < 4; nf++) { std::vector<std::string> f(1, "junk"); str::split(&s, d, g, &f, nf); auto e = ref_split(s, d, g, nf); k++; if (f != e) { c.fail("split", "split('%s', '%s', %d, %d) gives %s, expected %s", show(s).c_str(), show(d).c_str(), g, nf, qshow(f).c_str(), qshow(e).c_str()); return; } }
    for (auto d : {":", " \t", ":- "}) { std::string y = s; str::clean(&y, d); size_t b = s.find_first_not_of(d), e = s.find_last_not_of(d); std::string z = b == std::string::npos ? "" : s.substr(b, e - b + 1); k++; if (y != z) { c.fail("clean", "clean('%s', '%s') gives '%s', expected '%s'", show(s).c_str(), show(d).c_str(), show(y).c_str(), show(z).c_str()); return; } }
    c.outcome(hash64(s)); }
  c.steps(k); c.queries(k); c.validated(k);
}
static void str_quotes(Ctx &c, unsigned len, unsigned first) {
  static const std::string al = "ab \n\\'\""; uint64_t n = 1, k = 0; for (unsigned i = 1; i < len; i++) n *= al.size();
  for (uint64_t x = 0; x < n; x++) { std::string s = len ? str_at(x * al.size() + first, len, al) : "", y = s; std::vector<std::string> f(1, "junk"); str::split_with_quotes(&y, " \t\n", true, &f); auto e = ref_fields(s, false); k++; if (f != e) { c.fail("split_with_quotes", "split_with_quotes('%s') gives %s, expected %s", show(s).c_str(), qshow(f).c_str(), qshow(e).c_str()); return; } if (k % 8 == 0) c.outcome(hash64(qshow(e))); }
  c.steps(k); c.queries(k); c.validated(k);
}
static bool ref_int(const std::string &s, long long lo, long long hi, long long *v) { size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++; size_t b = i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t d = i; __int128 x = 0; while (i < s.size() && isdigit(s[i])) { x = std::min<__int128>(x * 10 + (s[i] - '0'), (__int128)1 << 100); i++; } if (i == d || i != s.size()) return false; if (s[b] == '-') x = -x; if (x < lo || x > hi) return false; *v = (long long)x; return true; }
static bool ref_float(const std::string &s) { size_t i = 0; while (i < s.size() && s[i] == ' ') i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; int dg = 0; while (i < s.size() && isdigit(s[i])) { i++; dg++; } if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) { i++; dg++; } } if (!dg) return false; if (i < s.size() && s[i] == 'e') { i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t d = i; while (i < s.size() && isdigit(s[i])) i++; if (d == i) return false; } return i == s.size(); }
static double ref_fval(const std::string &s) { return strtod(s.c_str(), nullptr); }
static void one_num(Ctx &c, const std::string &s, bool flt) {
  conf::Option o; o.value = s; volatile int rc = -1; volatile int iv = 0; volatile double dv = 0; long long e = 0;
  armed = true; if (!setjmp(jb)) iv = o.get_int(); else rc = exit_code; armed = false; bool ok = ref_int(s, INT_MIN, INT_MAX, &e);
  if (ok != (rc < 0) || (!ok && rc == 0) || (ok && iv != e)) { c.fail("get_int", "integer option value '%s': %s %d, expected %s %lld", show(s).c_str(), rc < 0 ? "accepted as" : "rejected", (int)iv, ok ? "" : "an error", e); return; }
  if (flt) { rc = -1; armed = true; if (!setjmp(jb)) dv = o.get_double(); else rc = exit_code; armed = false; ok = ref_float(s); if (ok != (rc < 0) || (!ok && rc == 0) || (ok && dv != ref_fval(s))) { c.fail("get_double", "floating option value '%s': %s %g", show(s).c_str(), rc < 0 ? "accepted as" : "rejected", (double)dv); return; }
    for (int i0 = 0; i0 < 2; i0++) { bool k = i0; volatile double v = 0; armed = true; rc = -1; if (!setjmp(jb)) v = str::str2float(s.c_str(), &k); else rc = exit_code; armed = false; if (std::fabs(ref_fval(s)) > 3.4e38) { if (rc == 0) c.fail("str2float", "str2float('%s') ends with status 0", s.c_str()); continue; } if (rc >= 0 || k != (ok && i0) || (ok && (float)v != (float)ref_fval(s))) { c.fail("str2float", "str2float('%s') gives %g, ok %d -> %d", show(s).c_str(), (double)v, i0, k); return; } } }
  for (int i0 = 0; i0 < 2; i0++) { bool k = i0; volatile long v = 0; ok = ref_int(s, LLONG_MIN + 1, LLONG_MAX - 1, &e); armed = true; rc = -1; if (!setjmp(jb)) v = str::str2long(s.c_str(), &k); else rc = exit_code; armed = false; bool big = s.size() > 18; if (big && rc >= 0) { if (ok) c.fail("str2long", "str2long('%s') ends the program", show(s).c_str()); continue; } if (rc >= 0 || k != (ok && i0) || (ok && v != e)) { c.fail("str2long", "str2long('%s') gives %ld, ok %d -> %d", show(s).c_str(), (long)v, i0, k); return; } }
  c.queries(5);
}
static void str_num(Ctx &c, unsigned len, unsigned first) {
  Quiet q; static const std::string al = "109-+ .eq"; uint64_t n = 1; for (unsigned i = 1; i < len; i++) n *= al.size();
  for (uint64_t x = 0; x < n && !c.failed; x++) { one_num(c, len ? str_at(x * al.size() + first, len, al) : "", true); if (x % 16 == 0) c.outcome(x * 31 + len * 7 + first); }
  c.steps(n); c.validated(n);
}
static void str_limits(Ctx &c, int w) { Quiet q; std::vector<std::string> v; for (long long b : {(long long)INT_MAX, (long long)INT_MIN, 1ll << 32, -(1ll << 32), 1ll << 62, 0ll, 99999999ll}) for (int d = -3; d <= 3; d++) v.push_back(std::to_string(b + d)); for (auto s : {"9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "18446744073709551617", "000000000000000000000000000000001"}) v.push_back(s); for (auto &s : v) { one_num(c, (w ? " " : "") + s, false); if (c.failed) return; c.outcome(s); } c.steps(v.size()); c.validated(v.size()); }
// line and block readers
static FILE *pieces(const std::string &t, unsigned piece) { // a stream that delivers at most `piece` bytes per read
  struct P { std::string t; size_t o, n; }; auto *p = new P{t, 0, piece};
  cookie_io_functions_t io = {[](void *c, char *b, size_t n) -> ssize_t { auto *p = (P *)c; size_t k = std::min({n, p->n, p->t.size() - p->o}); memcpy(b, p->t.data() + p->o, k); p->o += k; return k; }, nullptr, nullptr, [](void *c) { delete (P *)c; return 0; }};
  return fopencookie(p, "r", io);
}
static bool lines(Ctx &c, const std::string &t, unsigned piece) {
  for (int chomp = 0; chomp < 2; chomp++) { FILE *f = pieces(t, piece); size_t o = 0; std::string s = "junk";
    while (true) { bool r = str::read_line(&s, f, chomp); if (o >= t.size()) { if (r) { c.fail("read_line", "read_line returns another line '%s' at the end of %zu bytes", show(s).c_str(), t.size()); fclose(f); return false; } break; }
      size_t e = t.find('\n', o); std::string l = t.substr(o, e == std::string::npos ? e : e - o + !chomp); o = e == std::string::npos ? t.size() : e + 1; if (!r || s != l) { c.fail("read_line", "read_line of %s returns %d with %zu bytes, expected %zu bytes", t.size() < 100 ? show(t).c_str() : strf("%zu bytes in pieces of %u", t.size(), piece).c_str(), r, s.size(), l.size()); fclose(f); return false; } }
    fclose(f); }
  return true;
}
static bool blocks(Ctx &c, const std::string &t, unsigned piece, size_t len) {
  FILE *f = pieces(t, piece); std::string s = "junk"; bool r = str::read_string(&s, len, f); fclose(f); if (r != (len <= t.size()) || (r && s != t.substr(0, len))) { c.fail("read_string", "read_string(%zu) of %zu bytes in pieces of %u returns %d with %zu bytes", len, t.size(), piece, r, s.size()); return false; }
  f = pieces(t, piece); r = str::read_file(&s, f, len); fclose(f); std::string e = len ? t.substr(0, len) : t; if (!r || s != e) { c.fail("read_file", "read_file(%zu) of %zu bytes in pieces of %u returns %d with %zu bytes", len, t.size(), piece, r, s.size()); return false; }
  return true;
}
static void readers_small(Ctx &c, unsigned len) { static const std::string al = "ab\n"; uint64_t n = 1, k = 0; for (unsigned i = 0; i < len; i++) n *= 3; for (uint64_t x = 0; x < n; x++) { std::string t = str_at(x, len, al); for (unsigned p : {1u, 2u, 100u}) { if (!lines(c, t, p)) return; k++; for (size_t l = 0; l <= len + 1; l++) { if (!blocks(c, t, p, l)) return; k++; } } c.outcome(hash64(t)); } c.steps(k); c.queries(k); c.validated(k); }
static void readers_long(Ctx &c, unsigned base, unsigned piece) { uint64_t k = 0; for (int d = -3; d <= 3; d++) for (int e = -3; e <= 3; e++) { std::string t = std::string(base + d, 'a') + "\n" + std::string(4095 + e, 'b') + (e & 1 ? "\n" : ""); if (d == 0) t += "\n\nz"; if (!lines(c, t, piece)) return; k++; c.outcome(hash64(t)); for (int g = -2; g <= 2; g++) for (size_t l : {(size_t)(base + g), (size_t)(4096 + g), (size_t)(8192 + g), t.size() + g}) { if (!blocks(c, t, piece, l)) return; k++; } if (!blocks(c, t, piece, 0)) return; } c.steps(k); c.queries(k); c.validated(k); }
static void long_vec(Ctx &c, unsigned len, unsigned first) { static const std::string al = "12 \tx-"; uint64_t n = 1, k = 0; for (unsigned i = 1; i < len; i++) n *= al.size(); for (uint64_t x = 0; x < n; x++) { std::string s = len ? str_at(x * al.size() + first, len, al) : ""; bool ok = true, eok = true; auto v = str::long_vec<int>(s, &ok); auto f = ref_split(s, " \t\n", true, 0); std::vector<int> e; for (auto &y : f) { long long z = 0; if (!ref_int(y, INT_MIN, INT_MAX, &z)) eok = false; e.push_back(z); } k++; if (ok != eok || (ok && v != e)) { c.fail("long_vec", "long_vec('%s') gives %zu numbers, ok %d; expected %zu, ok %d", show(s).c_str(), v.size(), ok, e.size(), eok); return; } c.outcome(hash64(s)); } c.steps(k); c.queries(k); c.validated(k); }
static void fmt_all(Ctx &c) { for (size_t sz = 1; sz < 40; sz++) for (int n = 0; n < 40; n++) { std::string x(n, 'y'); std::string r = str::fmt(sz, "<%s>%d", x.c_str(), 42), e = ("<" + x + ">42").substr(0, sz - 1); if (r != e) { c.fail("fmt", "fmt(%zu) gives '%s', expected '%s'", sz, r.c_str(), e.c_str()); return; } c.outcome(r); c.queries(1); } c.steps(1600); c.validated(1); }
// ---------------------------------------------------------------- command lines of the tools
struct TOpt { char s; const char *l; char kind; const char *val; }; // kind: f flag, i int, d double, t text (any string), r file that is read, w file that is written, c cutoffs
struct Tool { std::string name; Args pos; std::vector<TOpt> o; Args base; std::string out; };
static std::vector<Tool> tools() {
  std::vector<Tool> v;
  v.push_back({"counts2kn", {"%d/text", "%d/out"}, {{'o', "opti", 'r', "%d/dev"}, {'n', "norder", 'i', "2"}, {'a', "arpa", 'f', ""}, {'x', "narpa", 'f', ""}, {'3', "3nzer", 'f', ""}, {'B', "vocabin", 'r', "%d/vocab"}, {'H', "hashsize", 'i', "100"}, {'f', "nfirst", 'i', "2"}, {'d', "ndrop", 'i', "1"}, {'s', "smallvocab", 'f', ""}, {'p', "prunetreshold", 'd', "0.1"}, {'A', "absolute", 'f', ""}, {'C', "clear_history", 'f', ""}, {'r', "prune_with_real_counts", 'f', ""}, {'W', "write_counts", 'w', "%d/w1"}, {'U', "write_vocab", 'w', "%d/w2"}, {'O', "cutoffs", 'c', "0 1"}, {'D', "discard_cutoffs", 'f', ""}, {'N', "discard_unks", 'f', ""}, {'L', "longint", 'f', ""}}, {"-n", "3"}, "out"});
  v.push_back({"varigram_kn", {"%d/text", "%d/out"}, {{'o', "opti", 'r', "%d/dev"}, {'n', "norder", 'i', "2"}, {'D', "dscale", 'd', "0.01"}, {'E', "dscale2", 'd', "0.1"}, {'a', "arpa", 'f', ""}, {'x', "narpa", 'f', ""}, {'3', "3nzer", 'f', ""}, {'f', "nfirst", 'i', "2"}, {'d', "ndrop", 'i', "1"}, {'B', "vocabin", 'r', "%d/vocab"}, {'H', "hashsize", 'i', "100"}, {'s', "smallvocab", 'f', ""}, {'S', "smallmem", 'f', ""}, {'C', "clear_history", 'f', ""}, {'Z', "dontaddzpg", 'f', ""}, {'A', "absolute", 'f', ""}, {'W', "write_counts", 'w', "%d/w1"}, {'U', "write_vocab", 'w', "%d/w2"}, {'O', "cutoffs", 'c', "0 1"}, {'N', "discard_unks", 'f', ""}, {'L', "longint", 'f', ""}, {'V', "numngramstarget", 'i', "5"}, {'F', "forcedisc", 'd', "0.4"}}, {"-D", "0.02"}, "out"});
  v.push_back({"perplexity", {"%d/text", "%d/out"}, {{'a', "arpa", 'r', "%d/m.arpa"}, {'W', "wb", 'r', "%d/wb"}, {'X', "mb", 'r', "%d/mb"}, {'C', "ccs", 'r', "%d/wb"}, {'u', "unk", 't', "<UNK>"}, {'U', "unkwarn", 'f', ""}, {'o', "includeunks", 'f', ""}, {'i', "interpolate", 'r', "%d/m2.arpa"}, {'I', "inter_coeff", 'd', "0.25"}, {'t', "init_hist", 'i', "1"}, {'f', "freegram", 'f', ""}, {'s', "smallvocab", 'f', ""}, {'S', "probstream", 'w', "%d/w1"}}, {"-a", "%d/m.arpa", "-i", "%d/m2.arpa"}, "out"});
  v.push_back({"perplexity", {"%d/text", "%d/out"}, {{'A', "bin", 'r', "%d/m.bin"}, {'o', "includeunks", 'f', ""}}, {"-A", "%d/m.bin"}, "out"});
  v.push_back({"arpa2arpa", {"%d/mi.arpa", "%d/out"}, {{'t', "tabs", 'f', ""}}, {}, "out"});
  v.push_back({"arpa2bin", {"%d/m.arpa", "%d/out"}, {}, {}, "out"});
  v.push_back({"bin2arpa", {"%d/m.bin", "%d/out"}, {}, {}, "out"});
  v.push_back({"arpasize", {"%d/m.arpa", "%d/out"}, {{'S', "simple", 'f', ""}, {'a', "arpa", 'f', ""}}, {"-a"}, "out"});
  v.push_back({"check_model", {"%d/m.arpa", "%d/text"}, {{'a', "arpa", 'f', ""}, {'d', "datafile", 'f', ""}, {'f', "freegram", 'f', ""}}, {"-a"}, ""});
  v.push_back({"add_zeroprob_grams", {"%d/m.arpa", "%d/out"}, {{'s', "smallvocab", 'f', ""}}, {}, "out"});
  v.push_back({"simpleinterpolate2arpa", {"%d/m.arpa,0.5;%d/m2.arpa,0.5", "%d/out"}, {}, {}, "out"});
  return v;
}
static std::vector<Tool> T; static std::string M1, M2, MI, MB;
static std::string sub(std::string x) { size_t p; while ((p = x.find("%d")) != std::string::npos) x.replace(p, 2, scratch()); return x; }
static void prep() { write_file(path("text"), "<s> a b a c a b </s>\n<s> b a zz a </s>\n<s> a a b </s>\n"); write_file(path("dev"), "<s> a b </s> <s> a c a </s>\n"); write_file(path("vocab"), "a\nb\n<s>\n</s>\n"); write_file(path("wb"), "b\n"); write_file(path("mb"), "^b\n"); write_file(path("m.arpa"), M1); write_file(path("m2.arpa"), M2); write_file(path("mi.arpa"), MI); write_file(path("m.bin"), MB); }
static Res trun(Ctx &c, const Tool &t, const Args &a, std::string &state, std::string &err) { remove_file(path("out")); remove_file(path("w1")); remove_file(path("w2")); Args b; for (auto &x : a) b.push_back(sub(x)); RunOpt o; o.keep_err = true; Res r = run(c, t.name, b, o); err = r.err; state = strf("exit %d%s\n", r.code, r.signaled ? " signal" : "") + r.out + "\x01" + read_file(path("out")) + "\x01" + read_file(path("w1")) + "\x01" + read_file(path("w2")); return r; }
static Args cat(std::initializer_list<Args> l) { Args r; for (auto &x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
// every spelling and position of one option (or none) gives the same run
static bool isarg(const TOpt &o) { return o.kind != 'f'; }
static void tool_spell(Ctx &c, const Tool &t, const TOpt &o) {
  prep(); std::string s0, s, e; Args canon = {std::string("-") + o.s}; if (isarg(o)) canon.push_back(o.val); Res r0 = trun(c, t, cat({t.base, canon, t.pos}), s0, e); std::vector<Args> v; std::string L = std::string("--") + o.l;
  if (isarg(o)) v = {{L, o.val}, {L + "=" + o.val}}; else v = {{L}}; v.push_back(canon);
  for (auto &sp : v) for (int p = 0; p < 5; p++) { Args a, p0 = {t.pos[0]}, p1 = {t.pos[1]}; a = p == 0 ? cat({t.base, sp, t.pos}) : p == 1 ? cat({t.base, p0, sp, p1}) : p == 2 ? cat({t.base, p0, p1, sp}) : p == 3 ? cat({t.base, sp, {"--"}, p0, p1}) : cat({p0, t.base, sp, p1}); trun(c, t, a, s, e); c.queries(1); if (s != s0) { c.fail("spelling", "%s: [%s] does not give the result of [%s]: %s / %s", t.name.c_str(), join(a).c_str(), join(cat({t.base, canon, t.pos})).c_str(), show(s.substr(0, 80)).c_str(), show(s0.substr(0, 80)).c_str()); return; } }
  c.outcome(t.name + o.l + s0); c.validated(1);
}
static void tool_bundle(Ctx &c, const Tool &t, const TOpt &a, const TOpt &b) { // -ab [values] = -a [value] -b [value]
  prep(); std::string s0, s, e; Args A = {std::string("-") + a.s}, B = {std::string("-") + b.s}, G = {std::string("-") + a.s + b.s}; if (isarg(a)) { A.push_back(a.val); G.push_back(a.val); } if (isarg(b)) { B.push_back(b.val); G.push_back(b.val); }
  trun(c, t, cat({t.base, A, B, t.pos}), s0, e); trun(c, t, cat({t.base, G, t.pos}), s, e); c.queries(1); if (s != s0) { c.fail("bundle", "%s: [%s] does not give the result of [%s]", t.name.c_str(), join(G).c_str(), join(cat({A, B})).c_str()); return; } c.outcome(t.name + a.l + b.l + s0); c.validated(1);
}
static void tool_bad(Ctx &c, const Tool &t, const TOpt *o) { // wrong uses end in an error and write no model
  prep(); std::vector<Args> v;
  if (!o) { v = {cat({t.base, {t.pos[0]}}), t.base, cat({t.base, t.pos, {"extra"}}), cat({t.base, {"-"}, t.pos}), cat({t.base, {"-%"}, t.pos}), cat({t.base, {"--nosuchoption"}, t.pos}), cat({t.base, {"--nosuchoption=3"}, t.pos}), cat({t.base, t.pos, {"-%"}}), cat({t.base, {"--"}, {"-a"}, t.pos}), cat({t.base, {"--help=1"}, t.pos}), cat({t.base, {""}, t.pos}), cat({t.base, {"---"}, t.pos}), cat({t.base, {"--="}, t.pos})}; }
  else { std::string L = std::string("--") + o->l, S = std::string("-") + o->s;
    if (!isarg(*o)) { v = {cat({t.base, {L + "=1"}, t.pos}), cat({t.base, {L + "="}, t.pos}), cat({t.base, {L + "="}, {t.pos[0]}}), cat({t.base, {L + "x"}, t.pos}), cat({t.base, {L.substr(0, L.size() - 1)}, t.pos}), cat({t.base, {S + "%"}, t.pos})}; std::string ab = L.substr(0, L.size() - 1); }
    else { v = {cat({t.base, t.pos, {S}}), cat({t.base, t.pos, {L}}), cat({t.base, {S}, t.pos}), cat({t.base, {L + "x=" + o->val}, t.pos}), cat({t.base, {S + "%" + o->val}, t.pos})};
      if (o->kind == 'i') for (auto x : {"", "x", "1x", "99999999999", "1 2", "1.5"}) v.push_back(cat({t.base, {S, x}, t.pos}));
      if (o->kind == 'd') for (auto x : {"", "x", "1x", "1 2", "0.5,"}) v.push_back(cat({t.base, {L + "=" + x}, t.pos}));
      if (o->kind == 'c') for (auto x : {"x", "1x", "1 2 y", "0,1"}) v.push_back(cat({t.base, {S, x}, t.pos}));
      if (o->kind == 'r') v.push_back(cat({t.base, {S, "%d/nosuchfile"}, t.pos}));
      if (o->kind == 'w') v.push_back(cat({t.base, {S, "%d/nosuchdir/f"}, t.pos})); } }
  for (auto &a : v) { std::string s, e; Res r = trun(c, t, a, s, e); c.queries(1); if (r.signaled && r.sig != 6) { c.fail("bad-crash", "%s [%s]: %s", t.name.c_str(), join(a, "|").c_str(), r.how().c_str()); return; } if (r.ok()) { c.fail("bad-accepted", "%s [%s] ends with status 0", t.name.c_str(), join(a, "|").c_str()); return; } c.outcome(t.name + join(a, "|")); }
  c.validated(1);
}
static void tool_help(Ctx &c, const Tool &t) { prep(); for (auto h : {"-h", "--help"}) for (int p = 0; p < 3; p++) { std::string s, e; Args a = p == 0 ? Args{h} : p == 1 ? cat({t.base, t.pos, {h}}) : cat({{h}, t.pos, {"x"}}); Res r = trun(c, t, a, s, e); c.queries(1); if (!r.ok()) { c.fail("help", "%s [%s]: %s", t.name.c_str(), join(a).c_str(), r.how().c_str()); return; } if (p != 2 && exists(path("out"))) { c.fail("help", "%s %s runs the tool", t.name.c_str(), h); return; } for (auto &o : t.o) { std::string n = strf("-%c, --%s", o.s, o.l); if ((e + r.out).find(n) == std::string::npos) { c.fail("help", "%s: the help text does not list option %s", t.name.c_str(), n.c_str()); return; } } } c.outcome(t.name); c.validated(1); }
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C18") return false;
  d.level = "exploration"; d.chunk = 1; unsigned LA = thorough ? 6 : 5, LS = thorough ? 9 : 8, n = AL.size();
  for (unsigned kind = 0; kind < 2; kind++) { Family f; f.name = kind ? "required options" : "argument vectors"; unsigned L = kind ? LA - 1 : LA; f.n = 3 * 2 * (1 + (L)*n); f.timeout_s = 600; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int na = g.next(3), ov = g.next(2); unsigned k = g.i; if (!k) conf_argv(c, 0, 0, kind, na, ov); else { if (ov == 0 && (k - 1) / n + 1 == L) { c.trivial(); return; } conf_argv(c, (k - 1) / n + 1, (k - 1) % n, kind, na, ov); } }; f.desc = [=](uint64_t i) { Digits g(i); int na = g.next(3), ov = g.next(2); unsigned k = g.i; return strf("all argument vectors of length %u starting with '%s', %d positional arguments, %s wins", k ? (k - 1) / n + 1 : 0, k ? AL[(k - 1) % n].c_str() : "", na, ov ? "last" : "first"); }; d.families.push_back(f); }
  auto fam = [&](const char *nm, unsigned L, unsigned al, unsigned kinds, std::function<void(Ctx &, unsigned, unsigned, int)> run) { Family f; f.name = nm; f.timeout_s = 600; f.n = kinds * (1 + L * al); std::string name = nm; f.run = [=](uint64_t i, Ctx &c) { Digits g(i); int k = g.next(kinds); if (!g.i) run(c, 0, 0, k); else run(c, (g.i - 1) / al + 1, (g.i - 1) % al, k); }; f.desc = [=](uint64_t i) { Digits g(i); int k = g.next(kinds); return strf("%s: all strings of length %d with first symbol %d (variant %d)", name.c_str(), g.i ? (int)((g.i - 1) / al + 1) : 0, g.i ? (int)((g.i - 1) % al) : 0, k); }; d.families.push_back(f); };
  fam("configuration files", LS - 2, 9, 4, [](Ctx &c, unsigned l, unsigned f, int k) { conf_file(c, l, f, k); });
  fam("split and clean", LS, 5, 1, [](Ctx &c, unsigned l, unsigned f, int) { str_split(c, l, f); });
  fam("quoted fields", LS, 7, 1, [](Ctx &c, unsigned l, unsigned f, int) { str_quotes(c, l, f); });
  fam("numbers", LS - 2, 9, 1, [](Ctx &c, unsigned l, unsigned f, int) { str_num(c, l, f); });
  fam("number lists", LS - 1, 6, 1, [](Ctx &c, unsigned l, unsigned f, int) { long_vec(c, l, f); });
  { Family f; f.name = "number limits"; f.n = 2; f.run = [](uint64_t i, Ctx &c) { str_limits(c, i); }; f.desc = [](uint64_t i) { return strf("numbers around the integer limits, leading blank %d", (int)i); }; d.families.push_back(f); }
  { Family f; f.name = "readers"; f.n = thorough ? 9 : 8; f.run = [](uint64_t i, Ctx &c) { readers_small(c, i); }; f.desc = [](uint64_t i) { return strf("all texts of %d bytes over {a, b, newline}, in pieces of 1, 2 and 100 bytes", (int)i); }; d.families.push_back(f); }
  { static const unsigned B[] = {4, 4095, 4096, 8190, 8191, 12285}, P[] = {7, 1000, 4095, 4096, 4097, 100000}; Family f; f.name = "long lines"; f.n = 36; f.run = [](uint64_t i, Ctx &c) { readers_long(c, B[i % 6], P[i / 6]); }; f.desc = [](uint64_t i) { return strf("lines of about %u and 4095 bytes in pieces of %u", B[i % 6], P[i / 6]); }; d.families.push_back(f); }
  { Family f; f.name = "fmt"; f.n = 1; f.run = [](uint64_t, Ctx &c) { fmt_all(c); }; f.desc = [](uint64_t) { return std::string("fmt with every buffer size"); }; d.families.push_back(f); }
  T = tools(); Args names; for (auto &t : T) names.push_back(t.name); load_tools(names);
  M1 = "\\data\\\nngram 1=5\nngram 2=3\n\n\\1-grams:\n-0.7 <UNK>\n-0.8 <s> -0.2\n-0.9 </s>\n-0.5 a -0.3\n-0.7 b -0.1\n\n\\2-grams:\n-0.4 <s> a\n-0.3 a b\n-0.6 b a\n\n\\end\\\n"; M2 = "\\data\\\nngram 1=3\nngram 2=1\n\n\\1-grams:\n-0.6 <UNK>\n-0.4 a -0.2\n-0.5 q\n\n\\2-grams:\n-0.2 a q\n\n\\end\\\n"; MI = "\\interpolated\n" + M1;
  { std::string b = std::string("cis-binlm2\nbackoff\n2\n<UNK>\na\n1 3\n2\n"); auto put = [&](int w, float lp, float bo, int ch) { char x[16]; memcpy(x, &w, 4); memcpy(x + 4, &lp, 4); memcpy(x + 8, &bo, 4); memcpy(x + 12, &ch, 4); b.append(x, 16); }; put(0, -0.3f, 0, -1); put(1, -0.3f, 0, -1); put(0, -99, 0, -1); MB = b; }
  { Family f; f.name = "tool option spellings"; std::vector<std::pair<int, int>> v; for (size_t t = 0; t < T.size(); t++) for (size_t o = 0; o < T[t].o.size(); o++) v.push_back({t, o}); f.n = v.size(); f.timeout_s = 120; f.run = [=](uint64_t i, Ctx &c) { tool_spell(c, T[v[i].first], T[v[i].first].o[v[i].second]); }; f.desc = [=](uint64_t i) { return strf("%s --%s: every spelling and position", T[v[i].first].name.c_str(), T[v[i].first].o[v[i].second].l); }; d.families.push_back(f); }
  { Family f; f.name = "tool option bundles"; struct X { int t, a, b; }; std::vector<X> v; for (size_t t = 0; t < T.size(); t++) for (size_t a = 0; a < T[t].o.size(); a++) for (size_t b = 0; b < T[t].o.size(); b++) if (a != b) v.push_back({(int)t, (int)a, (int)b}); f.n = v.size(); f.run = [=](uint64_t i, Ctx &c) { auto &t = T[v[i].t]; tool_bundle(c, t, t.o[v[i].a], t.o[v[i].b]); }; f.desc = [=](uint64_t i) { auto &t = T[v[i].t]; return strf("%s -%c%c", t.name.c_str(), t.o[v[i].a].s, t.o[v[i].b].s); }; d.families.push_back(f); }
  { Family f; f.name = "tool errors"; std::vector<std::pair<int, int>> v; for (size_t t = 0; t < T.size(); t++) for (int o = -1; o < (int)T[t].o.size(); o++) v.push_back({t, o}); f.n = v.size(); f.timeout_s = 120; f.run = [=](uint64_t i, Ctx &c) { auto &t = T[v[i].first]; tool_bad(c, t, v[i].second < 0 ? nullptr : &t.o[v[i].second]); }; f.desc = [=](uint64_t i) { auto &t = T[v[i].first]; return strf("%s: wrong uses of %s", t.name.c_str(), v[i].second < 0 ? "the command line" : t.o[v[i].second].l); }; d.families.push_back(f); }
  { Family f; f.name = "tool help"; f.n = T.size(); f.run = [=](uint64_t i, Ctx &c) { tool_help(c, T[i]); }; f.desc = [=](uint64_t i) { return T[i].name + " --help"; }; d.families.push_back(f); }
  d.rule = "Every argument vector up to the length over an alphabet of option spellings (short, long, bundled, attached and missing values, unknown options, --, -, empty and negative-number arguments) is parsed by the real parser and by an independent implementation of the documented grammar; all configuration texts, all strings for the string helpers; for every tool every documented option in every spelling and position, all bundles of two options, and every wrong use.";
  d.bounds = strf("argument vectors up to %u of %u spellings; strings up to %u symbols; all options of all tools", LA, n, LS);
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
