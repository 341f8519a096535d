// Set-valued reference for greedy decision trees: every tie between splits and
// every threshold between two neighbouring training values is allowed.
#pragma once
#include "core.hpp"
namespace treeref {
typedef std::uint64_t Mask;
struct Params { std::string crit; long min_split, min_leaf, max_depth; double min_dec, min_stdev; };
struct Tree {
  const Mat& X; const Vec& y; Params p; bool reg; double scale; std::map<std::pair<Mask, long>, std::vector<std::pair<std::pair<long, long>, std::pair<Mask, Mask>>>> memo; std::map<std::pair<Mask, long>, int> leafy; long work = 0;
  Tree(const Mat& X_, const Vec& y_, const Params& p_, bool r) : X(X_), y(y_), p(p_), reg(r) { scale = r ? std::max(1e-300, (p.crit == "squared_error" ? std::pow((y.array() - y.mean()).abs().maxCoeff(), 2) : (y.array() - y.mean()).abs().maxCoeff())) : 1; if (r) scale += 1e-13 * std::pow(y.cwiseAbs().maxCoeff(), p.crit == "squared_error" ? 2 : 1); }
  double impurity(Mask m) const { std::vector<double> v; for (long i = 0; i < y.size(); ++i) if (m >> i & 1) v.push_back(y(i)); double n = v.size(); std::sort(v.begin(), v.end()); if (!reg) { std::map<double, double> c; for (double z : v) c[z] += 1; double g = p.crit == "gini" ? 1 : 0; for (auto& k : c) { double q = k.second / n; g -= p.crit == "gini" ? q * q : q * std::log2(q); } return g; } double s = 0; if (p.crit == "squared_error") { double a = std::accumulate(v.begin(), v.end(), 0.0) / n; for (double z : v) s += (z - a) * (z - a); return s / n; } size_t h = v.size() / 2; double med = v.size() % 2 ? v[h] : (v[h] + v[h - 1]) / 2; for (double z : v) s += std::fabs(z - med); return s / n; }
  double stdev(Mask m) const { double s = 0, n = 0, q = 0; for (long i = 0; i < y.size(); ++i) if (m >> i & 1) { s += y(i); n += 1; } s /= n; for (long i = 0; i < y.size(); ++i) if (m >> i & 1) q += (y(i) - s) * (y(i) - s); return std::sqrt(q / n); }
  // fills the splits node (m, depth) may take: ((feature, rank of left end), (left, right)); returns 1 if it may stay a leaf as well, 2 if it must
  int options(Mask m, long depth) {
    auto key = std::make_pair(m, depth); auto it = leafy.find(key); if (it != leafy.end()) return it->second; auto& out = memo[key]; int leaf = 0; long n = __builtin_popcountll(m); bool stop = n < p.min_split || depth > p.max_depth; work += X.cols() * n * n * 4 + 50; if (work > 15000000) mc::prune();
    if (reg) { double sd = stdev(m), e = 1e-11 * std::sqrt(scale) + 1e-12 * p.min_stdev; if (p.crit != "squared_error") e = 1e-11 * scale + 1e-12 * p.min_stdev; if (sd <= p.min_stdev - e) stop = true; else if (sd <= p.min_stdev + e) leaf = 1; }
    if (stop) return leafy[key] = 2; double eps = 1e-12 * scale * 10, im = impurity(m), best = -1e300; struct C { double g; long f, r; Mask l, h; }; std::vector<C> cs;
    for (long f = 0; f < X.cols(); ++f) { std::set<double> v; for (long i = 0; i < y.size(); ++i) if (m >> i & 1) v.insert(X(i, f)); long r = 0; for (double t : v) { if (++r == (long)v.size()) break; Mask l = 0; for (long i = 0; i < y.size(); ++i) if ((m >> i & 1) && X(i, f) <= t) l |= Mask(1) << i; Mask h = m & ~l; double g = im - (impurity(l) * __builtin_popcountll(l) + impurity(h) * __builtin_popcountll(h)) / n; cs.push_back({g, f, r, l, h}); best = std::max(best, g); } }
    if (cs.empty() || best < p.min_dec - eps) return leafy[key] = 2; if (best <= p.min_dec + eps) leaf = 1; bool split = false; for (auto& c : cs) if (c.g >= best - eps) { if (__builtin_popcountll(c.l) < p.min_leaf || __builtin_popcountll(c.h) < p.min_leaf) { leaf = 1; continue; } out.push_back({{c.f, c.r}, {c.l, c.h}}); split = true; }
    return leafy[key] = split ? leaf : 2; }
  // all sample sets the leaf reached by q may hold
  void reach(Mask m, long depth, const Vec& q, std::set<Mask>& out, std::set<std::pair<Mask, long>>& seen) { if (!seen.insert({m, depth}).second) return; int o = options(m, depth); if (o) out.insert(m); if (o == 2) return; for (auto& s : memo[{m, depth}]) { long f = s.first.first; double lo = -INFINITY, hi = INFINITY; for (long i = 0; i < y.size(); ++i) { if (s.second.first >> i & 1) lo = std::max(lo, X(i, f)); if (s.second.second >> i & 1) hi = std::min(hi, X(i, f)); } if (q(f) < hi) reach(s.second.first, depth + 1, q, out, seen); if (q(f) > lo) reach(s.second.second, depth + 1, q, out, seen); } }
  std::set<Mask> leaves(const Vec& q) { std::set<Mask> o; std::set<std::pair<Mask, long>> s; reach(y.size() == 64 ? ~Mask(0) : (Mask(1) << y.size()) - 1, 0, q, o, s); return o; }
  // must the unlimited tree isolate every group of identical rows?
};
inline Mat queries(const Mat& X) { long f = X.cols(), n = X.rows(); Mat Q(4, f); for (long j = 0; j < f; ++j) Q.col(j) << X.col(j).minCoeff() - 1, X.col(j).maxCoeff() + 1, (X(0, j) + X(n - 1, j)) / 2, X(n / 2, j) + 0.25; return Q; }
inline std::string show(const Params& p) { std::ostringstream o; o << "(" << p.crit << ", min split " << p.min_split << ", min leaf " << p.min_leaf << ", depth " << p.max_depth << ", min decrease " << p.min_dec << ", min stdev " << p.min_stdev << ")"; return o.str(); }
inline Mat pattern(int n, int f, int k) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = k == 2 ? (i * 7 + j * 5 + i * j) % 5 : std::sin(1.0 + 3.7 * i * (j + 1) + 1.3 * j + k * 0.9) * 5; return X; }
}
