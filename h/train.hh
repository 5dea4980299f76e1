#pragma once
// Shared by the trainer checks: text spaces, configurations, running a trainer.
#include "ref.hh"
#include "vk.hh"
#include <algorithm>
#include <memory>
using namespace mc;
using namespace vk;

// ---------------------------------------------------------------- texts
struct TextSpace {
  std::string name;
  uint64_t n;
  std::function<Words(uint64_t)> at;
  bool has_s = false; // contains <s> as a letter
};
static const char *L26 = "abcdefghijklmnopqrstuvwxyz";
static TextSpace rgs_space(const std::string &name, unsigned k, unsigned a, unsigned b) {
  auto r = std::make_shared<RGS>(k, a, b);
  return {name, r->v.size(), [r](uint64_t i) { Words w; for (auto x : r->v[i]) w.push_back(std::string(1, L26[x])); return w; }, false};
}
// all sequences over explicit letters
static TextSpace seq_space(const std::string &name, Words letters, unsigned a, unsigned b) {
  unsigned k = letters.size(); bool s = std::find(letters.begin(), letters.end(), "<s>") != letters.end();
  return {name, seq_count(k, a, b), [=](uint64_t i) { Words w; for (auto x : seq_at(i, k, a, b)) w.push_back(letters[x]); return w; }, s};
}
// arithmetic texts over p words: w_{(i*s+off) mod p}, length len; reaches nodes with many children
static TextSpace arith_space(const std::string &name, unsigned p, std::vector<unsigned> lens) {
  unsigned nl = lens.size();
  return {name, uint64_t(p - 1) * 4 * nl, [=](uint64_t i) {
            Digits d(i); unsigned s = 1 + d.next(p - 1), q = d.next(4), len = lens[d.next(nl)];
            Words w; unsigned x = 0;
            for (unsigned j = 0; j < len; j++) { // every q-th position returns to word 0 so that it gets many successors
              if (q && j % 2 == 0 && j % (q + 1) != q) w.push_back("w0"); else { x = (x + s) % p; w.push_back("w" + std::to_string(x)); }
            }
            return w; }, false};
}
// long quadratic texts over p words: tables grow several times, counts of all classes at all orders
static TextSpace quad_space(const std::string &name, unsigned p, std::vector<unsigned> lens) {
  unsigned nl = lens.size();
  return {name, uint64_t(6) * nl, [=](uint64_t i) {
            Digits d(i); unsigned s = 1 + d.next(6), len = lens[d.next(nl)]; Words w;
            for (unsigned j = 0; j < len; j++) { uint64_t x = s < 4 ? (uint64_t)j * j * s / (2 + s) + j / 5 : s == 4 ? (j % 3 ? j / 3 % 2 : (uint64_t)j * j / 9) : s == 5 ? (uint64_t)j * (j % 64) / 3 : (j % 97) * (j / 97 % 3 + 1); w.push_back("w" + std::to_string(x % p)); }
            return w; }, false};
}
static std::string text_of(const Words &w) { return join(w) + "\n"; }

struct Conf { // trainer configuration
  std::string tool; Args opts; std::string fmt; // fmt: a, x, b
  ref::TrainOpt ref;
  std::string str() const { return tool + " " + join(opts) + " fmt=" + fmt; }
};
// Train and return the model parsed from its ARPA form.
static bool train(Ctx &c, const Conf &k, const std::string &in, Model &m, const std::string &outname = "lm") {
  std::string out = path(outname);
  remove_file(out);
  Args a = k.opts;
  if (k.fmt == "a") a.push_back("-a");
  if (k.fmt == "x") a.push_back("-x");
  a.push_back(in); a.push_back(out);
  if (!run_ok(c, k.tool, a)) return false;
  if (k.fmt == "b") {
    std::string o2 = path(outname + ".arpa"); remove_file(o2);
    if (!run_ok(c, "bin2arpa", {out, o2})) return false;
    out = o2;
  }
  m = parse_arpa(read_file(out));
  if (!m.err.empty()) { c.fail("bad-arpa", "output is not well formed: %s", m.err.c_str()); return false; }
  return true;
}

static Family fam(const std::string &name, const TextSpace &t, const std::vector<Conf> &confs,
                  std::function<void(Ctx &, const Words &, const Conf &)> f) {
  Family x; x.name = name; unsigned nc = confs.size();
  x.n = t.n * nc;
  auto at = t.at;
  x.run = [=](uint64_t i, Ctx &c) { f(c, at(i / nc), confs[i % nc]); };
  x.desc = [=](uint64_t i) { return confs[i % nc].str() + " text=[" + join(at(i / nc)) + "]"; };
  return x;
}

// ---------------------------------------------------------------- configurations of the fixed-order trainer
static std::vector<Conf> kn_confs(std::vector<int> orders, bool clear, const std::string &fmt, std::vector<int> smooth = {0, 1, 2, 3}, const Args &extra = {"-H", "40"}) {
  std::vector<Conf> r;
  for (int n : orders) for (int s : smooth) {
    Conf k; k.tool = "counts2kn"; k.fmt = fmt; k.opts = extra; k.opts.push_back("-n"); k.opts.push_back(std::to_string(n));
    k.ref.order = n; k.ref.three = s & 1; k.ref.absolute = s & 2; k.ref.clear = clear;
    if (s & 1) k.opts.push_back("-3");
    if (s & 2) k.opts.push_back("-A");
    if (clear) k.opts.push_back("-C");
    r.push_back(k);
  }
  return r;
}
static bool has_opt(const Conf &k, const char *o) { return std::find(k.opts.begin(), k.opts.end(), o) != k.opts.end(); }
static Conf mk(const std::string &tool, const Args &o, const std::string &fmt) { Conf k; k.tool = tool; k.opts = o; k.fmt = fmt; return k; }
static bool all_s(const Words &t) { for (auto &w : t) if (w != "<s>") return false; return true; }
