// C11: the sparse count table against std::map, over all operation sequences to a depth.
#include "seq.hh"
#include "vk.hh"
#include "sikMatrix.hh"
using namespace mc;

template <class V> struct Val; // arithmetic over the value types used in the code
template <> struct Val<int> { static int mk(int x) { return x; } static long id(int v) { return v; } };
template <> struct Val<long> { static long mk(int x) { return x * 5000000000l; } static long id(long v) { return v; } };
template <> struct Val<float> { static float mk(int x) { return 0.25f * x; } static long id(float v) { return lrintf(v * 1000); } };
struct Rec { int a, b[3]; Rec &operator+=(const Rec &o) { a += o.a; for (int i = 0; i < 3; i++) b[i] += o.b[i]; return *this; } };
template <> struct Val<Rec> { static Rec mk(int x) { return {x, {2 * x, 0, x}}; } static long id(const Rec &r) { return r.a + 1000l * r.b[0] + 1000000l * r.b[1] + 1000000000l * r.b[2]; } };

template <class K, class V> struct Table : Sys {
  typedef std::vector<K> Key;
  sikMatrix<K, V> t; V def; int dims; std::vector<Key> keys; // all keys operations can use
  std::map<Key, V> m; bool stepping = false;
  Table(int dims, int hashsize, int d, std::vector<Key> k) : t(dims, hashsize, Val<V>::mk(d)), def(Val<V>::mk(d)), dims(dims), keys(std::move(k)) {}
  bool same(const V &a, const V &b) { return Val<V>::id(a) == Val<V>::id(b); }
  std::string kn(const Key &k) { std::string s; for (auto x : k) s += strf("%g,", (double)x); return s; }
  void rset(const Key &k, V v) { if (same(v, def)) m.erase(k); else m[k] = v; }
  V rget(const Key &k) { auto i = m.find(k); return i == m.end() ? def : i->second; }
  void set(const Key &k, V v, bool ptr = false) { if (ptr) t.setvalue(&k[0], &v); else t.setvalue(&k[0], v); rset(k, v); }
  void inc(const Key &k, V v, int how) {
    V old = rget(k), want = old; want += v; V got;
    if (how == 0) got = t.increment(&k[0], v); else if (how == 1) got = t.increment(&k[0], &v); else got = t.increment_wo_del(&k[0], v);
    if (!same(got, want)) err = "increment of " + kn(k) + strf(" returned %ld, expected %ld", Val<V>::id(got), Val<V>::id(want));
    if (how == 2) m[k] = want; else rset(k, want);
  }
  void clear() { t.clear(); m.clear(); }
  void remove(const Key &k) { FindEntry(t.m, (byte *)&k[0], -1); m.erase(k); }
  void touch(const Key &k) { if (!m.count(k)) m[k] = def; FindEntry(t.m, (byte *)&k[0], 1); }
  void remove_default() { RemoveDefaultValues(t.m); for (auto i = m.begin(); i != m.end();) if (same(i->second, def)) i = m.erase(i); else ++i; }
  // a traversal: del(key, nth) tells whether to delete the visited entry; every entry must be visited once
  void walk(const std::function<int(const Key &, int)> &act) {
    std::map<Key, V> want = m; Key k(dims); V v; int n = 0; size_t bound = m.size() + 3;
    t.stepthrough(true, &k[0], &v);
    while (void *p = t.stepthrough(false, &k[0], &v)) {
      auto i = want.find(k);
      if (i == want.end()) { err = "traversal visited " + kn(k) + " which is not (or no longer) in the table or was visited before"; return; }
      if (!same(i->second, v)) { err = "traversal gave value " + std::to_string(Val<V>::id(v)) + " for " + kn(k); return; }
      if (!same(*(V *)p, v)) { err = "traversal pointer does not point at the value of " + kn(k); return; }
      want.erase(i); int a = act(k, n++);
      if (a == 1) { t.delete_current_st(); m.erase(k); }
      if (a == 2) { *(V *)p += Val<V>::mk(1); V x = m[k]; x += Val<V>::mk(1); m[k] = x; }
      if (a == 3) { Key o = k; o[0] = o[0] + 1; if (m.count(o)) { if (want.count(o)) { want[o] += Val<V>::mk(2); } V x = m[o]; x += Val<V>::mk(2); m[o] = x; t.increment_wo_del(&o[0], Val<V>::mk(2)); } }
      if (a == 4) return; // leave the traversal unfinished
      if ((size_t)n > bound) { err = "traversal does not end"; return; }
    }
    if (!want.empty()) err = "traversal missed " + kn(want.begin()->first);
  }
  void owalk(int stop) {
    std::map<Key, V> want = m; Key k(dims), last; V v; int n = 0;
    t.ordered_stepthrough(true, &k[0], &v);
    while (true) {
      if (n == stop) return;
      if (!t.ordered_stepthrough(false, &k[0], &v)) break;
      auto i = want.find(k);
      if (i == want.end()) { err = "sorted traversal visited " + kn(k) + " which is not in the table or was visited before"; return; }
      if (!same(i->second, v)) { err = "sorted traversal gave a wrong value for " + kn(k); return; }
      if (n && memcmp(&last[0], &k[0], sizeof(K) * dims) >= 0) { err = "sorted traversal is not sorted at " + kn(k); return; }
      want.erase(i); last = k; n++;
      if (n > 1000 + 2 * (int)m.size()) { err = "sorted traversal does not end"; return; }
    }
    if (!want.empty()) err = "sorted traversal missed " + kn(want.begin()->first);
  }
  std::string check() override {
    if ((size_t)t.num_entries() != m.size()) return strf("%d entries reported, expected %zu", t.num_entries(), m.size());
    for (auto &k : keys) { V v = t.getvalue(&k[0]); if (!same(v, rget(k))) return strf("value of %s is %ld, expected %ld", kn(k).c_str(), Val<V>::id(v), Val<V>::id(rget(k))); V w; t.getvalue(&k[0], &w); if (!same(v, w)) return "the two forms of getvalue differ for " + kn(k); }
    walk([](const Key &, int) { return 0; }); if (!err.empty()) return err;
    owalk(-1); return err;
  }
  uint64_t state() override { // contents and storage order
    std::string s = strf("%zu/%d;", m.size(), dims); Key k(dims); V v; t.stepthrough(true, &k[0], &v);
    while (t.stepthrough(false, &k[0], &v)) { s.append((char *)&k[0], sizeof(K) * dims); s += strf("=%ld;", Val<V>::id(v)); }
    return hash64(s);
  }
};
// single-key operations on few keys
template <class K, class V> struct Small : Table<K, V> {
  typedef Table<K, V> T; typedef typename T::Key Key; unsigned nk;
  Small(int dims, int hs, int def, std::vector<Key> keys) : T(dims, hs, def, keys), nk(keys.size()) {}
  static unsigned nops(unsigned nk) { return nk * 6 + 8; }
  bool apply(unsigned op) override {
    if (op < nk * 6) {
      const Key &k = T::keys[op / 6];
      switch (op % 6) {
      case 0: T::set(k, Val<V>::mk(2)); break;
      case 1: T::set(k, T::def, true); break;
      case 2: T::inc(k, Val<V>::mk(1), 0); break;
      case 3: T::inc(k, Val<V>::mk(-1), 1); break;
      case 4: T::inc(k, Val<V>::mk(-1), 2); break;
      case 5: T::remove(k); break;
      }
      return true;
    }
    op -= nk * 6;
    switch (op) {
    case 0: T::clear(); break;
    case 1: T::walk([](const Key &, int n) { return n % 2 == 0 ? 1 : 0; }); break; // delete every other visited entry, first included
    case 2: T::walk([](const Key &, int n) { return n == 1 ? 1 : n == 2 ? 2 : 0; }); break;
    case 3: T::walk([&](const Key &k, int) { return k == T::keys[0] || k == T::keys[1] ? 1 : 0; }); break;
    case 4: T::walk([](const Key &, int n) { return n == 1 ? 4 : 0; }); break; // abandoned
    case 5: T::walk([](const Key &, int) { return 3; }); break;
    case 6: T::owalk(1); break;
    case 7: T::remove_default(); break;
    }
    return true;
  }
};
static const char *small_ops[] = {"set 2", "set default", "inc +1", "inc -1", "inc -1 (keep)", "remove"};
static const char *walk_ops[] = {"clear", "walk deleting 1st,3rd,..", "walk deleting 2nd, changing 3rd", "walk deleting keys 0,1", "abandoned walk", "walk changing others", "abandoned sorted walk", "drop default values"};
template <class K, class V> static Family small_fam(const std::string &name, int dims, int hs, int def, std::vector<std::vector<K>> keys, unsigned depth) {
  unsigned nk = keys.size(); SeqSpec s; s.name = name; s.nops = Small<K, V>::nops(nk); s.depth = depth; s.pre = 2;
  s.mk = [=]() { return std::unique_ptr<Sys>(new Small<K, V>(dims, hs, def, keys)); };
  s.opname = [=](unsigned o) -> std::string { if (o < nk * 6) return std::string(small_ops[o % 6]) + strf(" key%u", o / 6); return walk_ops[o - nk * 6]; };
  return seq_family(s);
}
// bursts over many keys: growth and shrinking of the storage
struct Burst : Table<int, int> {
  typedef Table<int, int> T; int N;
  Burst(int hs, int N) : T(1, hs, 0, mk(N)), N(N) {}
  static std::vector<Key> mk(int n) { std::vector<Key> r; for (int i = 0; i < n; i++) r.push_back({i}); return r; }
  bool apply(unsigned op) override {
    int n = 0;
    switch (op) {
    case 0: for (int i = 0; i < N; i++) inc({i}, 1, 0); break;
    case 1: for (int i = 0; i < N / 2; i++) inc({i}, 1, 0); break;
    case 2: for (int i = N; i-- > N / 3;) inc({i}, 1, 2); break;
    case 3: for (int i = 0; i < N - 7; i++) set({i}, 0); break;   // delete all but seven
    case 4: for (int i = N; i-- > 9;) remove({i}); break;         // delete down to nine
    case 5: for (int i = 0; i < N; i += 2) inc({i}, -1, 1); break;
    case 6: walk([&](const Key &, int) { return ++n % 3 == 0 ? 0 : 1; }); break;
    case 7: walk([&](const Key &k, int) { return k[0] >= 8 ? 1 : 0; }); break;
    case 8: clear(); break;
    case 9: set({N - 1}, 4); break;
    case 10: set({0}, 0); break;
    case 11: inc({5}, 3, 0); break;
    case 12: remove_default(); break;
    case 13: walk([&](const Key &, int) { return 1; }); break;
    case 14: for (int i = 0; i < N; i++) if (i % 4 == 1) set({i}, 7, true); break;
    default: return false;
    }
    return true;
  }
};
static Family burst_fam(const std::string &name, int hs, int N, unsigned depth) {
  SeqSpec s; s.name = name; s.nops = 15; s.depth = depth; s.pre = 2;
  s.mk = [=]() { return std::unique_ptr<Sys>(new Burst(hs, N)); };
  static const char *nm[] = {"inc all", "inc first half", "inc last 2/3 descending (keep)", "unset all but 7", "remove down to 9", "dec even", "walk deleting 2 of 3", "walk deleting >=8", "clear", "set last", "unset 0", "inc 5", "drop default values", "walk deleting all", "set every 4th"};
  s.opname = [](unsigned o) -> std::string { return nm[o]; };
  return seq_family(s);
}
// the typed C interface
struct CApi : Sys {
  struct matrix *I, *F, *D; std::map<int, int> mi; std::map<int, float> mf; std::map<int, double> md;
  CApi() { I = CreateMatrixI(1, 1, 0); F = CreateMatrixF(1, 2, 1.0f); D = CreateMatrixD(1, 3, -1.0); }
  ~CApi() { DeleteMatrix(I); DeleteMatrix(F); DeleteMatrix(D); }
  template <class M, class V> static void rset(M &m, int k, V v, V d) { if (v == d) m.erase(k); else m[k] = v; }
  template <class M, class V> static V rget(M &m, int k, V d) { auto i = m.find(k); return i == m.end() ? d : (V)i->second; }
  bool apply(unsigned op) override {
    int k[1] = {int(op / 9) * 5}; // collide for small tables
    switch (op % 9) {
    case 0: SetValueI(I, k, 3); rset(mi, k[0], 3, 0); break;
    case 1: { int r = IncrementI(I, k, -3), w = rget(mi, k[0], 0) - 3; if (r != w) err = strf("IncrementI returned %d, expected %d", r, w); rset(mi, k[0], w, 0); break; }
    case 2: SetValueI(I, k, 0); mi.erase(k[0]); break;
    case 3: SetValueF(F, k, 1.5f); rset(mf, k[0], 1.5f, 1.f); break;
    case 4: { float r = IncrementF(F, k, -0.5f), w = rget(mf, k[0], 1.f) - 0.5f; if (r != w) err = strf("IncrementF returned %g, expected %g", r, w); rset(mf, k[0], w, 1.f); break; }
    case 5: ClearMatrix(F); mf.clear(); break;
    case 6: SetValueD(D, k, 2.5); rset(md, k[0], 2.5, -1.0); break;
    case 7: SetValueD(D, k, -1.0); md.erase(k[0]); break;
    case 8: FindEntry(I, (byte *)k, -1); mi.erase(k[0]); break;
    }
    return true;
  }
  std::string check() override {
    for (int k0 = 0; k0 < 20; k0++) { int k[1] = {k0};
      if (GetValueI(I, k) != rget(mi, k0, 0)) return strf("int value of %d is %d, expected %d", k0, GetValueI(I, k), rget(mi, k0, 0));
      if (GetValueF(F, k) != rget(mf, k0, 1.f)) return strf("float value of %d is %g, expected %g", k0, GetValueF(F, k), rget(mf, k0, 1.f));
      if (GetValueD(D, k) != rget(md, k0, -1.0)) return strf("double value of %d is %g, expected %g", k0, GetValueD(D, k), rget(md, k0, -1.0)); }
    if (I->num_entries != (int)mi.size() || F->num_entries != (int)mf.size() || D->num_entries != (int)md.size()) return "wrong number of entries";
    int k; int vi; float vf; double vd; size_t n = 0;
    StepThroughI(I, &k, &vi); while (StepThroughI(NULL, &k, &vi)) { n++; if (!mi.count(k) || mi[k] != vi) return "int traversal wrong"; } if (n != mi.size()) return "int traversal incomplete"; n = 0;
    OrderedStepThroughF(F, &k, &vf); while (OrderedStepThroughF(NULL, &k, &vf)) { n++; if (!mf.count(k) || mf[k] != vf) return "float traversal wrong"; } if (n != mf.size()) return "float traversal incomplete"; n = 0;
    StepThroughD(D, &k, &vd); while (StepThroughD(NULL, &k, &vd)) { n++; if (!md.count(k) || md[k] != vd) return "double traversal wrong"; } if (n != md.size()) return "double traversal incomplete";
    return "";
  }
  uint64_t state() override { std::string s; for (auto &x : mi) s += strf("%d=%d;", x.first, x.second); for (auto &x : mf) s += strf("%d=%g;", x.first, x.second); for (auto &x : md) s += strf("%d=%g;", x.first, x.second); return hash64(s); }
};
static bool build(const std::string &prop, bool thorough, CheckDef &d) {
  if (prop != "C11") return false;
  unsigned x = thorough ? 1 : 0;
  d.level = "model_checking"; d.chunk = 1;
  d.families.push_back(small_fam<int, int>("int3", 1, 0, 0, {{0}, {5}, {10}}, 4 + x));
  d.families.push_back(small_fam<int, int>("int2-deep", 1, 1, 0, {{0}, {5}}, 5 + x));
  d.families.push_back(small_fam<int, int>("pair3", 2, 3, 0, {{0, 1}, {1, 0}, {5, 6}}, 4 + x));
  d.families.push_back(small_fam<unsigned short, int>("short4", 3, 2, 0, {{0, 0, 0}, {1, 2, 3}, {65535, 0, 5}, {5, 0, 0}}, 3 + x));
  d.families.push_back(small_fam<unsigned short, long>("long3", 1, 1, 0, {{0}, {5}, {65530}}, 4 + x));
  d.families.push_back(small_fam<float, float>("float3", 2, 2, 4, {{0.5f, 1}, {1, 0.5f}, {2.f, 2.f}}, 4 + x));
  d.families.push_back(small_fam<int, Rec>("record3", 1, 2, 0, {{0}, {5}, {7}}, 4 + x));
  d.families.push_back(burst_fam("burst24", 1, 24, 5 + x));
  d.families.push_back(burst_fam("burst40", 3, 40, 4 + x));
  d.families.push_back(burst_fam("burst70", 70, 70, 4 + x));
  d.families.push_back(burst_fam("burst2500", 1, 2500, 3 + x));
  d.families.push_back(burst_fam("burst20000", 100, 20000, 2));
  { SeqSpec s; s.name = "c-interface"; s.nops = 27; s.depth = 4 + x; s.pre = 2; s.mk = []() { return std::unique_ptr<Sys>(new CApi); };
    s.opname = [](unsigned o) { static const char *n[] = {"SetValueI 3", "IncrementI -3", "SetValueI 0", "SetValueF 1.5", "IncrementF -0.5", "ClearMatrix F", "SetValueD 2.5", "SetValueD default", "FindEntry delete"}; return strf("%s key %u", n[o % 9], o / 9 * 5); };
    d.families.push_back(seq_family(s)); }
  d.rule = "Every sequence of table operations up to the depth of its family is executed on a fresh table and compared with std::map after its last operation (all keys, size, plain and sorted traversal); operations that return values or traverse are compared while they run.  A state is the content plus storage order of the table.";
  d.bounds = "2-4 keys that collide in a 5-bucket table x 20-32 operations, depth 4-5 (thorough one more); bursts over 24, 40 and 70 keys (15 operations, depth 4-5), 2500 keys (depth 3) and 20000 keys (depth 2), crossing the growth and shrink thresholds; four value types, three key types";
  d.assumptions = {"a traversal is not continued after operations that insert or delete other entries"};
  return true;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
