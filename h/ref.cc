#include "ref.hh"
namespace ref {
void KN::read(const Words &text, const TrainOpt &opt, const Words *rv) {
  o = opt; vocab.clear(); vset.clear(); c.assign(1, {}); b.clear(); D.clear();
  auto add = [&](const std::string &w) { if (vset.insert(w).second) vocab.push_back(w); };
  add(o.unk);
  if (rv) for (auto &w : *rv) add(w);
  else { if (o.clear) add("<s>"); for (auto &w : text) add(w); }
  order = 0;
  Words win;
  for (auto &t0 : text) {
    std::string t = vset.count(t0) ? t0 : o.unk;
    if (o.clear && t == "<s>") win.clear();
    if ((int)win.size() == o.order) win.erase(win.begin());
    win.push_back(t);
    order = std::max<int>(order, win.size());
    if ((int)c.size() <= order) c.resize(order + 1);
    c[win.size()][win]++;
  }
}
void KN::type_counts() {
  for (int n = order; n >= 2; n--)
    for (auto &g : c[n]) {
      Words low(g.first.begin() + 1, g.first.end());
      c[n - 1][low] += o.absolute ? g.second : 1;
    }
}
void KN::recount_bo() {
  b.assign(order + 1, {});
  for (int n = 1; n <= order; n++)
    for (auto &g : c[n]) if (g.second > 0) {
      Words ctx(g.first.begin(), g.first.end() - 1);
      Bo &x = b[n][ctx]; x.den += g.second; x.nz[cls(g.second)]++;
    }
}
void KN::init_disc(float x) { std::array<float, 3> a = {x, o.three ? std::min(x, 2.f) : x, x}; D.assign(order + 1, a); }
void KN::loo(int n) {
  int k = o.three ? 3 : 1;
  std::vector<long> cc(k + 1, 0);
  for (auto &g : c[n]) if (g.second >= 1 && g.second <= k + 1) cc[g.second - 1]++;
  if (!cc[0] || !cc[1]) return;
  float Y = cc[0] / (cc[0] + 2.0f * cc[1]);
  for (int i = 0; i < k; i++) if (cc[i] > 0) {
    float d = i + 1 - float((i + 2) * Y * cc[i + 1]) / cc[i];
    D[n][i] = std::max(0.1f, std::min(i + 0.8f, d));
  }
}
double KN::coeff(const Words &ctx) const {
  int n = ctx.size() + 1;
  if (n > order) return 1;
  auto i = b[n].find(ctx);
  if (i == b[n].end() || i->second.den == 0) return 1;
  const Bo &x = i->second; double s = x.prune_den;
  for (int k = 0; k < 3; k++) s += x.nz[k] * (double)D[n][k];
  return s / x.den;
}
double KN::prob(const Words &w0) const {
  Words w = w0; if ((int)w.size() > order) w.erase(w.begin(), w.end() - order);
  double p = 1.0 / vocab.size();
  for (int n = 1; n <= (int)w.size(); n++) {
    Words g(w.end() - n, w.end()), ctx(g.begin(), g.end() - 1);
    auto i = b[n].find(ctx);
    if (i == b[n].end() || i->second.den == 0) continue;
    double co = coeff(ctx);
    long k = cnt(g);
    p = p * co + (k > 0 ? (k - (double)D[n][cls(k)]) / i->second.den : 0);
  }
  return p;
}
uint64_t KN::hash() const {
  std::string s;
  for (int n = 1; n <= order; n++) for (auto &g : c[n]) s += vk::join(g.first) + mc::strf("=%ld;", g.second);
  for (int n = 1; n < (int)D.size(); n++) s += mc::strf("D%g,%g,%g", D[n][0], D[n][1], D[n][2]);
  return mc::hash64(s);
}
} // namespace ref
