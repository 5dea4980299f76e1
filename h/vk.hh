// Helpers shared by the checks: running the tools, reading ARPA files with an independent parser,
// evaluating models with an independent back-off / interpolation evaluator, small text spaces.
#pragma once
#include "mc.hh"
#include <cmath>
#include <sstream>

namespace vk {
typedef std::vector<std::string> Args;
typedef std::vector<std::string> Words;

struct RunOpt {
  std::string stdin_data; bool has_stdin = false;
  bool keep_err = false;
  std::function<void()> in_child; // last thing before main()
  unsigned cpu_s = 10;
};
struct Res {
  bool signaled = false, memory = false; int code = -1, sig = 0;
  std::string out, err;
  bool ok() const { return !signaled && code == 0; }
  std::string how() const { return memory ? std::string("memory error (address sanitizer)") : signaled ? mc::strf("killed by signal %d", sig) : mc::strf("exit status %d", code); }
};
// Load lib<tool>.so from the build directory of this harness (once, before workers fork).
void load_tools(const std::vector<std::string> &tools);
// Run a tool's main() in a forked child with output captured.  args exclude argv[0].
Res run(mc::Ctx &c, const std::string &tool, const Args &args, const RunOpt &o = RunOpt());
extern std::string bin_dir;
// Run and fail the case unless exit status 0.
bool run_ok(mc::Ctx &c, const std::string &tool, const Args &args, Res *r = nullptr, const RunOpt &o = RunOpt());

std::string path(const std::string &name); // inside the worker's scratch directory
void write_file(const std::string &p, const std::string &data);
std::string read_file(const std::string &p, bool *ok = nullptr);
bool exists(const std::string &p);
void remove_file(const std::string &p);
std::string join(const std::vector<std::string> &v, const std::string &sep = " ");
std::vector<std::string> split_ws(const std::string &s);
std::string show(const std::string &s); // printable, newlines as \n

// ---------------------------------------------------------------- models
struct Entry { double lp = -99; double bo = 0; bool has_bo = false; };
struct Model {
  bool interp = false;
  int order = 0;
  std::vector<std::string> vocab;  // in unigram order
  std::set<std::string> vset;
  std::map<Words, Entry> g;        // all n-grams
  std::vector<uint64_t> counts;    // per order from the header
  std::string err;                 // non-empty: not well formed
  // conditional probability of the last word of w given the previous (all of w given, any length).
  double prob(const Words &w, int *hit = nullptr) const;
};
// Independent strict ARPA parser.  Accepts \interpolated.
Model parse_arpa(const std::string &text);
// All contexts up to length len over vocabulary v (shortest first).
void for_contexts(const Words &v, int len, const std::function<bool(const Words &)> &f);
// Contexts that matter: the stored n-grams shorter than the order and every prefix of a stored n-gram.
// After any other context a model behaves, by the definition of prob(), as after its longest suffix in this set.
void add_contexts(const Model &m, std::set<Words> &s);
// Check that the model sums to one after every context.
bool check_normalized(mc::Ctx &c, const Model &m, double eps, const Words &skip = Words(), bool allow_zero = false);
// Compare two models with the same vocabulary over all words and contexts.
bool check_same(mc::Ctx &c, const std::string &key, const Model &a, const Model &b, double abs_eps, double rel_eps);

// ---------------------------------------------------------------- text spaces
// All restricted growth strings of length 0..L over k letters: every sequence up to renaming of letters.
struct RGS {
  std::vector<std::vector<unsigned char>> v;
  RGS(unsigned k, unsigned Lmin, unsigned Lmax);
};
// Number of sequences of length 0..L over k letters and decoding of the i-th.
uint64_t seq_count(unsigned k, unsigned Lmin, unsigned Lmax);
std::vector<unsigned char> seq_at(uint64_t i, unsigned k, unsigned Lmin, unsigned Lmax);
// mixed-radix decode
struct Digits { uint64_t i; explicit Digits(uint64_t x) : i(x) {} unsigned next(unsigned n) { unsigned r = i % n; i /= n; return r; } };
} // namespace vk
