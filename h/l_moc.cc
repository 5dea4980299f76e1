// C12: journalled count and back-off updates, over all operation sequences to a depth.
#include "seq.hh"
#include "vk.hh"
#include "InterKn.hh"
using namespace mc;

struct RB { long den = 0, prune = 0, nz[3] = {0, 0, 0}; bool zero() const { return !den && !prune && !nz[0] && !nz[1] && !nz[2]; } bool operator==(const RB &o) const { return den == o.den && prune == o.prune && nz[0] == o.nz[0] && nz[1] == o.nz[1] && nz[2] == o.nz[2]; } };
template <class CT> static RB rb(const MultiOrderCounts_counter_types::bo_c<CT> &b) { RB r; r.den = b.den; r.prune = b.prune_den; r.nz[0] = b.nzer; return r; }
template <class CT> static RB rb(const MultiOrderCounts_counter_types::bo_3c<CT> &b) { RB r; r.den = b.den; r.prune = b.prune_den; for (int i = 0; i < 3; i++) r.nz[i] = b.nzer[i]; return r; }
template <class CT> static void fill(MultiOrderCounts_counter_types::bo_c<CT> &b, long den, long pr, int, long nz) { b.den = den; b.prune_den = pr; b.nzer = nz; }
template <class CT> static void fill(MultiOrderCounts_counter_types::bo_3c<CT> &b, long den, long pr, int pos, long nz) { b.den = den; b.prune_den = pr; for (int i = 0; i < 3; i++) b.nzer[i] = i == pos ? nz : 0; }

template <class KT, class CT, class M, class BO, bool THREE> struct Moc : Sys {
  typedef std::vector<KT> Key; typedef CT Count;
  static void inc_types(Moc &s, const std::pair<int, Key> &x) { s.inc_nz(x, std::integral_constant<bool, THREE>()); }
  static void full(Moc &s, const std::pair<int, Key> &x) { BO bo; RB &r = s.b[x]; fill(bo, -1, 3, 2, -1); s.m.IncrementBackoffCache(x.first, s.kp(x.second), &bo); r.den--; r.prune += 3; r.nz[THREE ? 2 : 0]--; }
  M m; std::map<Key, long> c; std::map<std::pair<int, Key>, RB> b; // reference: current values (missing = 0)
  // observed contents when the journal was last reset
  std::map<Key, long> oc; std::map<std::pair<int, Key>, RB> ob; std::map<Key, long> snapc; std::map<std::pair<int, Key>, RB> snapb;
  bool dirty = false; int norders;
  std::vector<Key> grams; std::vector<std::pair<int, Key>> ctxs;
  Moc(int n) : norders(n) {
    m.vocabsize = 5; m.hashsize = 5;
    grams = {{0}, {1}, {0, 0}, {0, 1}}; ctxs = {{1, {}}, {2, {0}}, {2, {1}}};
    if (n > 2) { grams.push_back({1, 0, 0}); ctxs.push_back({3, {0, 0}}); }
    reset();
  }
  void observe(std::map<Key, long> &xc, std::map<std::pair<int, Key>, RB> &xb) {
    xc.clear(); xb.clear();
    for (int o = 1; o <= m.order(); o++) { Key k(o); CT v; m.StepCountsOrder(true, o, &k[0], &v); while (m.StepCountsOrder(false, o, &k[0], &v)) { if (xc.count(k)) err = "an n-gram is stored twice"; xc[k] = v; }
      if ((int)m.order_size(o) != (int)m.m_counts[o]->num_entries()) err = "order size"; }
    for (int o = 2; o < (int)m.m_backoffs.size(); o++) { Key k(o - 1); BO v; m.m_backoffs[o]->stepthrough(true, &k[0], &v); while (m.m_backoffs[o]->stepthrough(false, &k[0], &v)) { if (xb.count({o, k})) err = "a context is stored twice"; xb[{o, k}] = rb(v); } }
    BO u; m.GetBackoff(1, (KT *)NULL, &u); xb[{1, Key()}] = rb(u);
  }
  void reset() { m.ResetCaches(); observe(oc, ob); snapc = c; snapb = b; dirty = false; }
  void cinc(const Key &g, long v, bool cached) {
    long want = (c[g] += v), got = cached ? (long)m.IncrementCountCache(g.size(), &g[0], v) : (long)m.IncrementCount(g.size(), &g[0], v);
    if (got != want) err = strf("increment of an order-%zu count returned %ld, expected %ld", g.size(), got, want);
  }
  const KT *kp(const Key &k) { static KT d[4]; return k.empty() ? d : &k[0]; }
  static unsigned nops(int n) { unsigned g = n > 2 ? 5 : 4, k = n > 2 ? 4 : 3; return g * 3 + k * 4 + 6; }
  bool apply(unsigned op) override {
    unsigned ng = grams.size(), nc = ctxs.size();
    if (op < ng * 3) { // journalled counts: two increments, one decrement
      static const long dv[] = {1, 2, -1}; cinc(grams[op / 3], dv[op % 3], true); dirty = true; return true;
    }
    op -= ng * 3;
    if (op < nc * 4) {
      auto &x = ctxs[op / 4]; RB &r = b[x]; BO bo; dirty = true;
      switch (op % 4) {
      case 0: m.IncrementBackoffCacheDen(x.first, kp(x.second), 2); r.den += 2; break;
      case 1: inc_nz(x, std::integral_constant<bool, THREE>()); break;
      case 2: fill(bo, -1, 3, 2, -1); m.IncrementBackoffCache(x.first, kp(x.second), &bo); r.den--; r.prune += 3; r.nz[THREE ? 2 : 0]--; break;
      case 3: inc_nz3(x, std::integral_constant<bool, THREE>()); break;
      }
      return true;
    }
    op -= nc * 4;
    switch (op) {
    case 0: reset(); return true; // commit
    case 1: { // undo
      m.UndoCached(); c = snapc; b = snapb;
      std::map<Key, long> xc; std::map<std::pair<int, Key>, RB> xb; observe(xc, xb);
      if (xc != oc) err = strf("undo left %zu stored counts, %zu before, or changed a value", xc.size(), oc.size());
      else if (!(xb == ob)) err = strf("undo left %zu stored back-off records, %zu before, or changed a value", xb.size(), ob.size());
      reset(); return true; }
    case 2: if (dirty) return false; // direct updates: only between transactions
      cinc(grams[0], 1, false); cinc(grams[2], 3, false); m.IncrementBackoffDen(1, kp(Key()), 1); b[{1, Key()}].den += 1; m.IncrementBackoffDen(2, &ctxs[1].second[0], 3); b[ctxs[1]].den += 3; reset(); return true;
    case 3: if (dirty) return false;
      cinc(grams[3], 2, false); cinc(grams[1], 1, false); { BO bo; fill(bo, 2, 1, 1, 1); m.IncrementBackoff(2, &ctxs[2].second[0], &bo); RB &r = b[ctxs[2]]; r.den += 2; r.prune += 1; r.nz[THREE ? 1 : 0]++; } reset(); return true;
    case 4: { if (dirty) return false; // drop entries without a count
      for (int o = 1; o <= m.order(); o++) { Key k(o); CT v; m.StepCountsOrder(true, o, &k[0], &v); while (m.StepCountsOrder(false, o, &k[0], &v)) if (v == 0) m.DeleteCurrentST(o); }
      if ((int)m.m_backoffs.size() - 1 != m.order()) { reset(); return true; } // only defined when both tables have the same orders
      m.RemoveDefaultBackoffs(); reset();
      for (auto &x : oc) if (x.second == 0) err = "an entry without a count survived its removal";
      for (auto &x : ob) if (x.first.first > 1 && x.second.zero()) err = "an empty back-off record survived its removal";
      return true; }
    case 5: { if (dirty) return false; // overwrite
      const Key &g = grams.back(); m.SetCount(g, 4); c[g] = 4; BO bo; fill(bo, 5, 0, 0, 2); auto &x = ctxs.back(); m.SetBackoff(x.first, &x.second[0], &bo); RB r; r.den = 5; r.nz[0] = 2; b[x] = r; reset(); return true; }
    }
    return false;
  }
  void inc_nz(const std::pair<int, Key> &x, std::false_type) { m.IncrementBackoffCacheNzer(x.first, kp(x.second), (CT)1); b[x].nz[0]++; }
  void inc_nz(const std::pair<int, Key> &x, std::true_type) { m.IncrementBackoffCacheNzer(x.first, kp(x.second), 1, (CT)1); b[x].nz[1]++; }
  void inc_nz3(const std::pair<int, Key> &x, std::false_type) { m.IncrementBackoffCacheDen(x.first, kp(x.second), -2); b[x].den -= 2; }
  void inc_nz3(const std::pair<int, Key> &x, std::true_type) { CT v[3] = {1, -1, 2}; m.IncrementBackoffCacheNzer(x.first, kp(x.second), v); RB &r = b[x]; r.nz[0]++; r.nz[1]--; r.nz[2] += 2; }
  std::string check() override {
    for (auto &g : grams) { long got = m.GetCount(g), want = c[g]; if (got != want) return strf("count of an order-%zu n-gram is %ld, expected %ld", g.size(), got, want); }
    for (auto &x : ctxs) { BO bo; m.GetBackoff(x.first, kp(x.second), &bo); if (!(rb(bo) == b[x])) return strf("back-off record of order %d: den %ld prune %ld types %ld,%ld,%ld, expected %ld %ld %ld,%ld,%ld", x.first, rb(bo).den, rb(bo).prune, rb(bo).nz[0], rb(bo).nz[1], rb(bo).nz[2], b[x].den, b[x].prune, b[x].nz[0], b[x].nz[1], b[x].nz[2]);
      if ((long)m.GetBackoffDen(x.first, kp(x.second)) != b[x].den) return "GetBackoffDen differs from GetBackoff"; }
    std::map<Key, long> xc; std::map<std::pair<int, Key>, RB> xb; observe(xc, xb); if (!err.empty()) return err;
    for (auto &x : xc) { auto i = c.find(x.first); if ((i == c.end() ? 0 : i->second) != x.second) return "a stored count is wrong"; }
    for (auto &x : xb) if (!(b[x.first] == x.second)) return "a stored back-off record is wrong";
    return err;
  }
  uint64_t state() override { std::map<Key, long> xc; std::map<std::pair<int, Key>, RB> xb; observe(xc, xb); std::string s = dirty ? "d" : "c"; for (auto &x : xc) { for (auto k : x.first) s += strf("%d,", (int)k); s += strf("=%ld;", x.second); } for (auto &x : xb) { s += strf("B%d:", x.first.first); for (auto k : x.first.second) s += strf("%d,", (int)k); s += strf("=%ld,%ld,%ld,%ld,%ld;", x.second.den, x.second.prune, x.second.nz[0], x.second.nz[1], x.second.nz[2]); } return hash64(s); }
};
// the same with hundreds of n-grams and contexts per operation: the tables and the journal grow while they are in use
template <class T> struct MocBurst : T {
  typedef typename T::Key Key; int N;
  MocBurst(int n) : T(3), N(n) { this->m.vocabsize = 1000; this->grams.clear(); this->ctxs.clear(); for (int i = 0; i < N; i++) { this->grams.push_back(g1(i)); this->grams.push_back(g2(i)); this->grams.push_back(g3(i)); this->ctxs.push_back({2, g1(i)}); this->ctxs.push_back({3, g2(i)}); } }
  static Key key(std::initializer_list<int> l) { Key k; for (int x : l) k.push_back(x); return k; }
  static Key g1(int i) { return key({i}); }
  static Key g2(int i) { return key({i % 20, i / 20}); }
  static Key g3(int i) { return key({i % 20, i / 20, i % 7}); }
  void bo(int o, const Key &k, int how) { auto x = std::make_pair(o, k); RB &r = this->b[x]; if (how == 0) { this->m.IncrementBackoffCacheDen(o, this->kp(k), 2); r.den += 2; } else if (how == 1) T::inc_types(*this, x); else { T::full(*this, x); } }
  bool apply(unsigned op) override {
    bool d = this->dirty; if (op < 7) this->dirty = true;
    switch (op) {
    case 0: for (int i = 0; i < N; i++) this->cinc(g2(i), 1, true); return true;
    case 1: for (int i = N / 2; i--;) this->cinc(g3(i), 2, true); return true;
    case 2: for (int i = 0; i < N; i += 2) { this->cinc(g2(i), -1, true); this->cinc(g3(i), -1, true); } return true;
    case 3: for (int i = 0; i < N; i++) { bo(2, g1(i), 0); if (i % 3 == 0) bo(2, g1(i), 1); } return true;
    case 4: for (int i = N; i--;) { bo(3, g2(i), 2); if (i % 2) bo(3, g2(i), 0); } return true;
    case 5: for (int i = 0; i < N; i++) { this->cinc(g1(i % 11), 1 + i % 2, true); bo(2, g1(i % 5), i % 3); } return true;
    case 6: for (int i = 0; i < N; i++) this->cinc(g1(i), 1, true); return true;
    case 7: return T::apply(T::nops(3) - 6); // commit
    case 8: return T::apply(T::nops(3) - 5); // undo
    case 9: if (d) return false; for (int i = 0; i < N; i += 3) { this->cinc(g2(i), 1, false); this->cinc(g1(i), 2, false); Key k = g1(i); this->m.IncrementBackoffDen(2, this->kp(k), 1); this->b[{2, k}].den++; k = g2(i); this->m.IncrementBackoffDen(3, this->kp(k), 1); this->b[{3, k}].den++; } this->reset(); return true;
    case 10: { if (d) return false; for (int o = 1; o <= this->m.order(); o++) { Key k(o); typename T::Count v; this->m.StepCountsOrder(true, o, &k[0], &v); while (this->m.StepCountsOrder(false, o, &k[0], &v)) if (v == 0) this->m.DeleteCurrentST(o); } this->reset(); for (auto &x : this->oc) if (x.second == 0) this->err = "an entry without a count survived its removal"; return true; }
    }
    return false;
  }
};
template <class T> static Family burst_fam(const std::string &name, int n, unsigned depth) {
  SeqSpec s; s.name = name; s.nops = 11; s.depth = depth; s.pre = 2; s.mk = [=]() { return std::unique_ptr<Sys>(new MocBurst<T>(n)); };
  static const char *nm[] = {"journal +1 on all bigrams", "journal +2 on half of the trigrams", "journal -1 on every other bigram and trigram", "journal back-off den and types of all words", "journal back-off records of all bigrams", "journal few entries many times", "journal +1 on all words", "commit", "undo", "direct updates", "drop entries without a count"};
  s.opname = [](unsigned o) -> std::string { return nm[o]; };
  return seq_family(s);
}
template <class T> static Family moc_fam(const std::string &name, int n, unsigned depth) {
  SeqSpec s; s.name = name; s.nops = T::nops(n); s.depth = depth; s.pre = 2; unsigned g = (n > 2 ? 5 : 4) * 3, k = (n > 2 ? 4 : 3) * 4;
  s.mk = [=]() { return std::unique_ptr<Sys>(new T(n)); };
  s.opname = [=](unsigned o) -> std::string { static const char *cv[] = {"+1", "+2", "-1"}, *bv[] = {"den+2", "types+1", "den-1 prune+3 types-1", "types vector / den-2"}, *rest[] = {"commit", "undo", "direct update A", "direct update B", "drop empty entries", "overwrite"};
    if (o < g) return strf("journal count of gram %u ", o / 3) + cv[o % 3]; if (o < g + k) return strf("journal back-off of context %u ", (o - g) / 4) + bv[(o - g) % 4]; return rest[o - g - k]; };
  return seq_family(s);
}
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C12") return false;
  unsigned x = thorough ? 1 : 0; using namespace MultiOrderCounts_counter_types;
  d.level = "model_checking"; d.chunk = 1;
  typedef Moc<int, int, MultiOrderCounts_1nzer<int, int>, bo_c<int>, false> A; typedef Moc<unsigned short, long, MultiOrderCounts_3nzer<unsigned short, long>, bo_3c<long>, true> B;
  typedef Moc<int, long, MultiOrderCounts_1nzer<int, long>, bo_c<long>, false> C; typedef Moc<unsigned short, int, MultiOrderCounts_3nzer<unsigned short, int>, bo_3c<int>, true> D;
  d.families.push_back(moc_fam<A>("one-2", 2, 4 + x)); d.families.push_back(moc_fam<B>("three-2", 2, 4 + x));
  d.families.push_back(moc_fam<C>("one-3", 3, 4 + x)); d.families.push_back(moc_fam<D>("three-3", 3, 4 + x));
  d.families.push_back(burst_fam<A>("one-many", 200, 3 + x)); d.families.push_back(burst_fam<B>("three-many", 200, 3 + x));
  if (thorough) { d.families.push_back(burst_fam<C>("one-thousands", 2000, 3)); d.families.push_back(burst_fam<D>("three-thousands", 2000, 3)); }
  d.rule = "Every sequence of journalled updates, commits, undos and direct updates between transactions, up to the depth, is executed on the real count store from its initial state; after an undo the complete stored contents (all orders, counts and back-off records, entry counts) must equal those at the last commit, and every value equals the reference at every step.";
  d.bounds = "4-5 n-grams of orders 1-3, 3-4 contexts, 30-37 operations, depth 4 (thorough 5), one- and three-class records; 600 n-grams and 400 contexts updated together, 11 operations, depth 3 (thorough 4; also 6000 and 4000, depth 3); four key/count type pairs";
  d.assumptions = {"direct (unjournalled) updates happen only between transactions, an undo ends a transaction, as everywhere in the code"};
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
