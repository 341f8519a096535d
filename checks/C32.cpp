// flags: -O1
// debug: off
//# k-d tree radius queries: every set of 1-5 points in 1-D and 1-3 in 2-D over {0,1,3}, 4 in 2-D and 3 in 3-D over {0,1} x leaf sizes 1-3 x 3 metrics x query grid x radii 0, every distance that occurs, between and beyond; patterned integer sets of 5-40 points x 1-4 columns x leaf 1/2/3/10/50; query histories and two trees
//# 70, 130, 300 points and 6, 10, 17 columns; sets scaled by 2^-20, 2^20, 1/4 and moved 2^20 spacings from the origin; copies and assigned trees used before and after their originals are destroyed, trees in a growing vector
//! integer coordinates, so distances at the boundary are exact; the order within an answer is free
//# 65537 and 70000 points; one- and two-column sets at the scales 2^-1000, 2^-700, 2^-520, 2^-300, 2^300, 2^700, 2^1000 (metrics without squares, or 1-D)
#include "core.hpp"
#include "kdref.hpp"
using namespace openml; using namespace kdref;
namespace {
typedef tree::KDTree<double> KD;
void one(const std::vector<std::pair<double, std::size_t>>& r, const Mat& X, const Mat& Q, long q, double rad, const std::string& m, const std::string& h) { std::map<long, double> want, got; for (long i = 0; i < X.rows(); ++i) { double d = dist(X, i, Q, q, m); if (d <= rad) want[i] = d; } for (auto& p : r) MC_CHECK(got.emplace(p.second, p.first).second, h << ": point " << p.second << " reported twice"); std::string gs, ws; for (auto& p : got) gs += std::to_string(p.first) + "@" + mc::num(p.second) + " "; for (auto& p : want) ws += std::to_string(p.first) + "@" + mc::num(p.second) + " "; bool ok = got.size() == want.size(); for (auto& p : want) ok = ok && got.count(p.first) && mc::near(got[p.first], p.second, 1e-12); MC_CHECK(ok, h << " radius " << rad << " around " << mc::str(Q.row(q)) << ": got " << gs << ", brute force " << ws); }
void judge(const KD& t, const Mat& X, const Mat& Q, double rad, const std::string& m, const std::string& h) { MC_LOG(h << " radius " << rad); const Mat Q0 = Q; auto r = t.query_radius(Q, rad); mc::step(); MC_CHECK(Q == Q0, h << ": the query was modified"); MC_CHECK((long)r.size() == Q.rows(), h << " radius " << rad << ": " << r.size() << " answers for " << Q.rows() << " query points"); for (long q = 0; q < Q.rows(); ++q) one(r[q], X, Q, q, rad, m, h); mc::validated(Q.rows()); }
std::set<double> radii(const Mat& X, const Mat& Q, const std::string& m, std::size_t cap) { std::set<double> a; for (long q = 0; q < Q.rows(); ++q) for (long i = 0; i < X.rows(); ++i) a.insert(dist(X, i, Q, q, m)); std::vector<double> v(a.begin(), a.end()); std::set<double> r = {0, 0.25, v.back() + 1}; std::size_t st = std::max<std::size_t>(1, v.size() / cap); for (std::size_t i = 0; i < v.size(); i += st) { r.insert(v[i]); if (i + 1 < v.size()) r.insert((v[i] + v[i + 1]) / 2); } return r; }
std::string show(const Mat& X, const char* m, int leaf) { return "k-d tree over " + mc::str(X) + " " + m + " leaf_size=" + std::to_string(leaf); }
}
MC_SCENARIO(small, 4) { static const int N[] = {1, 2, 3, 4, 5, 1, 2, 3, 4, 3}, F[] = {1, 1, 1, 1, 1, 2, 2, 2, 2, 3}; int s = mc::choose(10, "shape"), n = N[s], f = F[s], leaf = 1 + mc::choose(3, "leaf"); const char* m = mc::pick(METRIC, "metric"); static const double U[] = {0, 1, 3}; Mat X(n, f); for (int i = 0; i < n * f; ++i) X.data()[i] = s >= 8 ? mc::choose(2, "x") : mc::pick(U, "x"); mc::state(X, leaf, m); KD t(X, leaf, m); mc::step(); std::string h = show(X, m, leaf); static const double G[] = {-1, 0, 1, 2, 3, 5}; Mat Q; if (f == 1) { Q.resize(6, 1); for (int i = 0; i < 6; ++i) Q(i, 0) = G[i]; } else if (f == 2) { Q.resize(36, 2); for (int i = 0; i < 36; ++i) { Q(i, 0) = G[i / 6]; Q(i, 1) = G[i % 6]; } } else { Q.resize(27, 3); for (int i = 0; i < 27; ++i) { Q(i, 0) = i % 3 - 1; Q(i, 1) = i / 3 % 3; Q(i, 2) = i / 9 - 1; } } for (double r : radii(X, Q, m, 8)) judge(t, X, Q, r, m, h); judge(t, X, Q.row(Q.rows() / 2), 1, m, h); }
MC_SCENARIO(shapes, 4) { int n = mc::size(5, mc::thorough() ? 80 : 40, {70, 130, 300}, "n"), f = mc::size(1, 4, {6, 10, 17}, "f"), d = mc::choose(4, "data"), l = mc::choose(6, "leaf"); static const int LS[] = {1, 2, 3, 5, 10, 50}; const char* m = METRIC[(n + f + d + l) % 3]; Mat X = pattern(n, f, d); mc::state(X, l, m); KD t(X, LS[l], m); mc::step(); Mat Q = queries(X); std::string h = show(X, m, LS[l]); for (double r : radii(X, Q, m, n > 40 ? 2 : 6)) judge(t, X, Q, r, m, h); for (long q : {0L, (long)n / 2, (long)n + 1}) for (double r : radii(X, Q.row(q), m, 4)) judge(t, X, Q.row(q), r, m, h); }
MC_SCENARIO(scaled, 4) { // scaled by powers of two and moved far from the origin: distances stay exact
  static const double SC[] = {9.5367431640625e-07, 1048576, 0.25}; double sc = mc::pick(SC, "scale"), of = mc::choose(2, "offset") ? 1048576.0 * (sc > 1 ? 1 : 0.5) * sc : 0; int n = mc::size(2, 12, {30}, "n"), f = 1 + mc::choose(3, "f"), d = mc::choose(4, "data"), l = 1 + mc::choose(3, "leaf"); const char* m = METRIC[(n + f + l) % 2 ? 1 : 2]; if (f == 1) m = METRIC[0]; Mat X = pattern(n, f, d) * sc; X.array() += of; mc::state(X, l, m); Mat Q = queries(pattern(n, f, d)) * sc; Q.array() += of; KD t(X, l, m); mc::step(); std::string h = show(X, m, l); for (double r : {0.0, sc * 0.5, sc, sc * 2, sc * 3, sc * 50}) { judge(t, X, Q, r, m, h); judge(t, X, Q.row(n / 2), r, m, h); } }
MC_SCENARIO(history, 3) { int n = 4 + mc::choose(9, "n"), d = mc::choose(4, "data"), f = 1 + mc::choose(3, "f"); Mat X = pattern(n, f, d), Y = pattern(n + 3, f, (d + 1) % 4); mc::state(X, d); mc::Dirty<KD> a(0xA5, X); KD b(Y, 2, "manhattan"); Mat keep = X; X.setConstant(1e9); std::string ha = show(keep, "euclidean", 10), hb = show(Y, "manhattan", 2); static const double R[] = {1, 0, 5}; for (int t = 0; t < 3; ++t) { int c = mc::choose(3, "call"); if (c == 0) judge(*a, keep, queries(keep), R[t], "euclidean", ha); else if (c == 1) judge(b, Y, queries(Y), R[t], "manhattan", hb); else { a->query(queries(keep), 2); b.query_radius(queries(Y), 1000); mc::step(2); } } judge(*a, keep, queries(keep), 2, "euclidean", ha); }
MC_SCENARIO(copies, 2) { int k = mc::choose(4, "data"), o = mc::choose(4, "other"), f = 1 + mc::choose(3, "f"), how = mc::choose(4, "how"), l = 1 + mc::choose(3, "leaf"); Mat X = pattern(9, f, k), Y = pattern(14, f, o); mc::state(k, o, f, how, l); std::string hx = "copied " + show(X, "manhattan", l), hy = show(Y, "euclidean", 2); MC_LOG(hx); std::unique_ptr<KD> a(new KD(X, l, "manhattan")), b(new KD(Y, 2, "euclidean")), c(new KD(*a)); mc::step(3);
  if (how == 0) { a.reset(); for (double r : {0.0, 2.0, 5.0}) judge(*c, X, queries(X), r, "manhattan", hx); for (double r : {0.0, 2.0, 5.0}) judge(*b, Y, queries(Y), r, "euclidean", hy); }
  else if (how == 1) { c.reset(); for (double r : {0.0, 2.0, 5.0}) judge(*a, X, queries(X), r, "manhattan", hx); }
  else if (how == 2) { *c = *b; b.reset(); for (double r : {0.0, 2.0, 5.0}) judge(*c, Y, queries(Y), r, "euclidean", hy); for (double r : {0.0, 2.0, 5.0}) judge(*a, X, queries(X), r, "manhattan", hx); *a = *c; c.reset(); for (double r : {0.0, 2.0, 5.0}) judge(*a, Y, queries(Y), r, "euclidean", hy); }
  else { std::vector<KD> v; for (int i = 0; i < 5; ++i) { if (i % 2) v.push_back(*b); else v.emplace_back(X, l, "manhattan"); } a.reset(); for (int i = 0; i < 5; ++i) if (i % 2) for (double r : {0.0, 2.0, 5.0}) judge(v[i], Y, queries(Y), r, "euclidean", hy); else for (double r : {0.0, 2.0, 5.0}) judge(v[i], X, queries(X), r, "manhattan", hx); } }
MC_SCENARIO(very_large, 2) { int n = mc::choose(2, "n") ? 70000 : 65537, f = 1 + mc::choose(2, "f"), l = mc::choose(3, "leaf"), o = mc::choose(2, "order"); static const int LS[] = {16, 64, 1000}; const char* m = METRIC[(f + l) % 3]; Mat X(n, f); for (int i = 0; i < n; ++i) { X(i, 0) = o ? (i * 37L) % n : i; if (f > 1) X(i, 1) = i % 5; } mc::state(n, f, l, o); std::string h = "k-d tree over " + std::to_string(n) + " points " + m + " leaf_size=" + std::to_string(LS[l]); MC_LOG(h); KD t(X, LS[l], m); mc::step(); static const int Q0[] = {0, 255, 32768, 65535, 65536}; Mat Q(6, f); for (int i = 0; i < 5; ++i) Q.row(i) = X.row(Q0[i]); Q.row(5) = X.row(n - 1); for (double r : {0.0, 3.0, 300.0}) judge(t, X, Q, r, m, h); judge(t, X, Q.row(0), 1e6, m, h); }
MC_SCENARIO(extreme_scales, 3) { static const int E[] = {-1000, -700, -520, -300, 300, 700, 1000}; int e = E[mc::choose(7, "scale")], n = mc::size(1, 9, {30}, "n"), f = 1 + mc::choose(2, "f"), d = mc::choose(4, "data"), l = mc::choose(3, "leaf"); static const int LS[] = {1, 4, 50}; double s = std::ldexp(1.0, e); const char* m = METRIC[1 + (n + l) % 2]; Mat X = pattern(n, f, d) * s, Q = queries(pattern(n, f, d)) * s; mc::state(X, l, m); KD t(X, LS[l], m); mc::step(); std::string h = show(X, m, LS[l]); for (double r : {0.0, s * 0.5, s, s * 1.5, s * 2, s * 50}) judge(t, X, Q, r, m, h); judge(t, X, Q.row(n / 2), s, m, h); }
