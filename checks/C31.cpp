// flags: -O1
// debug: off
//# k-d tree kNN: every set of 1-5 points in 1-D over {0,1,3}, 1-3 in 2-D over {0,1,3}, 4 in 2-D and 3 in 3-D over {0,1} (and {0,2,5} corners) x leaf sizes 1-3 x 3 metrics x every k x a query grid inside, on and outside; patterned integer sets of 5-40 points x 1-4 columns (duplicates, constant columns, dominating columns, far clusters) x leaf 1/2/3/10/50; query histories and two trees
//# 70, 130, 300 points and 6, 10, 17 columns; sets scaled by 2^-20, 2^20, 1/4 and moved 2^20 spacings from the origin; copies and assigned trees used before and after their originals are destroyed, trees in a growing vector
//! ties may be resolved to any of the tied points
//# 65537 and 70000 points x 1, 2 columns with leaf 16, 64, 1000: nearest 1, 3 around both ends, the middle and beyond index 65535
#include "core.hpp"
#include "kdref.hpp"
using namespace openml; using namespace kdref;
namespace {
typedef tree::KDTree<double> KD;
void judge(const KD& t, const Mat& X, const Mat& Q, long k, const std::string& m, const std::string& h0) {
  std::string h = h0 + " k=" + std::to_string(k); MC_LOG(h); const Mat Q0 = Q; auto r = t.query(Q, k); mc::step(); const Mat& D = r.first; const IMat& I = r.second; MC_CHECK(Q == Q0, h << ": the query was modified"); MC_CHECK(D.rows() == Q.rows() && D.cols() == k && I.rows() == Q.rows() && I.cols() == k, h << ": shapes " << mc::str(D) << mc::str(I));
  for (long q = 0; q < Q.rows(); ++q) { std::vector<double> d; for (long i = 0; i < X.rows(); ++i) d.push_back(dist(X, i, Q, q, m)); std::vector<double> s = d; std::sort(s.begin(), s.end()); std::set<long> seen; for (long j = 0; j < k; ++j) { long i = I(q, j); MC_CHECK(i >= 0 && i < X.rows() && seen.insert(i).second, h << ": neighbours of " << mc::str(Q.row(q)) << " are " << mc::str(I.row(q))); MC_CHECK(mc::near(D(q, j), s[j], 1e-12) && mc::near(d[i], s[j], 1e-12), h << ": neighbour " << j << " of " << mc::str(Q.row(q)) << " reported as point " << i << " at " << D(q, j) << " (that point is at " << d[i] << "), brute force has distance " << s[j]); } } mc::validated(Q.rows());
}
void whole(const KD& t, const Mat& X, const std::string& m, const std::string& h) { Mat Q = queries(X); long n = X.rows(); std::set<long> ks = {1, 2, 3, n / 2, n - 1, n}; for (long k : ks) if (k >= 1 && k <= n) { judge(t, X, Q, k, m, h); auto a = t.query(Q, k); long q = (n * 3 + k) % Q.rows(); auto b = t.query(Q.row(q), k); mc::step(2); MC_CHECK(b.first == Mat(a.first.row(q)), h << ": alone, query " << mc::str(Q.row(q)) << " k=" << k << " gives " << mc::str(b.first) << mc::str(b.second) << ", in a batch " << mc::str(a.first.row(q))); } }
std::string show(const Mat& X, const char* m, int leaf) { return "k-d tree over " + mc::str(X) + " " + m + " leaf_size=" + std::to_string(leaf); }
}
MC_SCENARIO(small, 4) { static const int N[] = {1, 2, 3, 4, 5, 1, 2, 3, 4, 3, 4, 2}, F[] = {1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 2, 3}; int s = mc::choose(12, "shape"), n = N[s], f = F[s], leaf = 1 + mc::choose(3, "leaf"); const char* m = mc::pick(METRIC, "metric"); static const double U[] = {0, 1, 3}, W[] = {0, 2, 5}; bool bin = s == 8 || s == 9 || s == 10; Mat X(n, f); for (int i = 0; i < n * f; ++i) X.data()[i] = bin ? (s == 10 ? 3.0 * mc::choose(2, "x") + (i >= n) * 2 * i : mc::choose(2, "x")) : s == 11 ? mc::pick(W, "x") : mc::pick(U, "x"); mc::state(X, leaf, m);
  const Mat X0 = X; KD t(X, leaf, m); mc::step(); MC_CHECK(X == X0, "building modified the data"); std::string h = show(X, m, leaf); static const double G[] = {-1, 0, 0.5, 1, 2, 3, 4.5}; Mat Q; if (f == 1) { Q.resize(7, 1); for (int i = 0; i < 7; ++i) Q(i, 0) = G[i]; } else if (f == 2) { Q.resize(49, 2); for (int i = 0; i < 49; ++i) { Q(i, 0) = G[i / 7]; Q(i, 1) = G[i % 7]; } } else { Q.resize(64, 3); for (int i = 0; i < 64; ++i) { Q(i, 0) = (i & 3) - 0.75; Q(i, 1) = (i >> 2 & 3) * 1.5 - 1; Q(i, 2) = (i >> 4) * 0.5; } }
  for (long k = 1; k <= n; ++k) judge(t, X, Q, k, m, h); judge(t, X, Q.row(Q.rows() / 2), n, m, h); }
MC_SCENARIO(shapes, 4) { int n = mc::size(5, mc::thorough() ? 80 : 40, {70, 130, 300}, "n"), f = mc::size(1, 4, {6, 10, 17}, "f"), d = mc::choose(4, "data"), l = mc::choose(6, "leaf"); static const int LS[] = {1, 2, 3, 5, 10, 50}; const char* m = METRIC[(n + f + d + l) % 3]; Mat X = pattern(n, f, d); mc::state(X, l, m); KD t(X, LS[l], m); mc::step(); whole(t, X, m, show(X, m, LS[l])); }
MC_SCENARIO(scaled, 4) { // the same integer sets scaled by powers of two and moved far from the origin: distances stay exact
  static const double SC[] = {9.5367431640625e-07, 1048576, 0.25}; double sc = mc::pick(SC, "scale"), of = mc::choose(2, "offset") ? 1048576.0 * (sc > 1 ? 1 : 0.5) * sc : 0; int n = mc::size(2, 12, {30}, "n"), f = 1 + mc::choose(3, "f"), d = mc::choose(4, "data"), l = 1 + mc::choose(3, "leaf"); const char* m = METRIC[(n + f + l) % 3]; Mat X = pattern(n, f, d) * sc; X.array() += of; mc::state(X, l, m); Mat Q = queries(pattern(n, f, d)) * sc; Q.array() += of; KD t(X, l, m); mc::step(); std::string h = show(X, m, l); for (long k : {1L, 2L, (long)n}) judge(t, X, Q, k, m, h); judge(t, X, Q.row(n / 2), 1, m, h); }
MC_SCENARIO(history, 3) { int n = 4 + mc::choose(9, "n"), d = mc::choose(4, "data"), f = 1 + mc::choose(3, "f"); Mat X = pattern(n, f, d), Y = pattern(n + 3, f, (d + 1) % 4); mc::state(X, d); mc::Dirty<KD> a(0xA5, X); KD b(Y, 2, "manhattan"); Mat keep = X; X.setConstant(1e9); const char* m = "euclidean"; for (int t = 0; t < 3; ++t) { int c = mc::choose(3, "call"); if (c == 0) whole(*a, keep, m, show(keep, m, 10)); else if (c == 1) { whole(b, Y, "manhattan", show(Y, "manhattan", 2)); } else { a->query_radius(queries(keep), 2.0); b.query(queries(Y), 1); mc::step(2); } } whole(*a, keep, m, show(keep, m, 10)); }
MC_SCENARIO(floats, 2) { int n = 3 + mc::choose(20, "n"), d = mc::choose(4, "data"), f = 1 + mc::choose(3, "f"), l = 1 + mc::choose(3, "leaf"); Mat X = pattern(n, f, d) * 0.37; for (int i = 0; i < X.size(); ++i) X.data()[i] += 1e-3 * ((i * i) % 5); mc::state(X, l); KD t(X, l, METRIC[(n + l) % 3]); whole(t, X, METRIC[(n + l) % 3], show(X, METRIC[(n + l) % 3], l));
  Eigen::MatrixXf Xf = pattern(n, f, d).cast<float>(); Mat Q = queries(pattern(n, f, d)); tree::KDTree<float> tf(Xf, l, "euclidean"); auto r = tf.query(Q.cast<float>(), 2); mc::step(2); Mat P = pattern(n, f, d); for (long q = 0; q < Q.rows(); ++q) { std::vector<double> s; for (long i = 0; i < n; ++i) s.push_back(dist(P, i, Q, q, "euclidean")); std::vector<double> o = s; std::sort(o.begin(), o.end()); for (int j = 0; j < 2; ++j) MC_CHECK(mc::near(r.first(q, j), o[j], 1e-5) && mc::near(s[r.second(q, j)], o[j], 1e-5), "float k-d tree over " << mc::str(P) << ": neighbour " << j << " of " << mc::str(Q.row(q)) << " at " << r.first(q, j) << " instead of " << o[j]); } mc::validated(Q.rows()); }
MC_SCENARIO(copies, 2) { int k = mc::choose(4, "data"), o = mc::choose(4, "other"), f = 1 + mc::choose(3, "f"), how = mc::choose(4, "how"), l = 1 + mc::choose(3, "leaf"); Mat X = pattern(9, f, k), Y = pattern(14, f, o); mc::state(k, o, f, how, l); std::string hx = "copied " + show(X, "manhattan", l), hy = show(Y, "euclidean", 2); MC_LOG(hx); std::unique_ptr<KD> a(new KD(X, l, "manhattan")), b(new KD(Y, 2, "euclidean")), c(new KD(*a)); mc::step(3);
  if (how == 0) { a.reset(); whole(*c, X, "manhattan", hx); whole(*b, Y, "euclidean", hy); }
  else if (how == 1) { c.reset(); whole(*a, X, "manhattan", hx); }
  else if (how == 2) { *c = *b; b.reset(); whole(*c, Y, "euclidean", hy); whole(*a, X, "manhattan", hx); *a = *c; c.reset(); whole(*a, Y, "euclidean", hy); }
  else { std::vector<KD> v; for (int i = 0; i < 5; ++i) { if (i % 2) v.push_back(*b); else v.emplace_back(X, l, "manhattan"); } a.reset(); for (int i = 0; i < 5; ++i) if (i % 2) whole(v[i], Y, "euclidean", hy); else whole(v[i], X, "manhattan", hx); } }
MC_SCENARIO(very_large, 2) { int n = mc::choose(2, "n") ? 70000 : 65537, f = 1 + mc::choose(2, "f"), l = mc::choose(3, "leaf"), o = mc::choose(2, "order"); static const int LS[] = {16, 64, 1000}; const char* m = METRIC[(f + l) % 3]; Mat X(n, f); for (int i = 0; i < n; ++i) { X(i, 0) = o ? (i * 37L) % n : i; if (f > 1) X(i, 1) = i % 5; } mc::state(n, f, l, o); std::string h = "k-d tree over " + std::to_string(n) + " points " + m + " leaf_size=" + std::to_string(LS[l]); MC_LOG(h); KD t(X, LS[l], m); mc::step(); static const int Q0[] = {0, 1, 255, 32768, 65534, 65535, 65536}; Mat Q(9, f); for (int i = 0; i < 7; ++i) Q.row(i) = X.row(Q0[i]); Q.row(7) = X.row(n - 1); Q.row(8) = X.row(n / 2); Q(8, 0) += 0.25; Q(3, 0) += 1e9; judge(t, X, Q, 1, m, h); judge(t, X, Q, 3, m, h); judge(t, X, Q.row(7), 2, m, h); }
