// flags: -O1
// debug: off
//# nearest-neighbour classifier: every labelled set of 2-4 points in 1-D over {0,1,3} and 3 in 2-D over {0,1,3}, every label vector over 2-3 arbitrary label values x every k x both solvers x euclidean/manhattan (and chebyshev with the tree) x leaf sizes 1-3; patterned sets of 5-40 points x 1-4 columns, 2-4 classes; the default object; refit histories on data of other sizes
//# sizes 70, 130, 300 and 6, 10, 17 columns; every labelled set of 2-4 points with label values differing by fractions, in the ninth digit and beyond float precision; sets scaled by 2^-200..2^200; moved classifiers, classifiers in a growing vector; float data
//! any resolution of ties in distance and in the vote is accepted
//# refits on data with the same number of rows: every pair of 2-3 labelled points in 1-D over {0,1,3}
//# 300, 600 and 66000 points of which 256..65800 share a label, k up to the whole set: the majority wins on both solvers
#include "core.hpp"
#include "kdref.hpp"
#include "methods/neighbors/k_nearest_neighbors.hpp"
using namespace openml; using namespace kdref;
namespace {
typedef neighbors::KNearestNeighbors<double> KNN;
const double LB[4][4] = {{0, 1, 2, 3}, {-3, 7, 2.5, 11}, {10, 4, 1e6, -1}, {-2, -5, -7, -1}};
// can label c win the vote for some choice of the tied neighbours?
bool can_win(const std::vector<double>& d, const Vec& y, long k, double c) {
  std::vector<double> s = d; std::sort(s.begin(), s.end()); double b = s[k - 1], eps = 1e-12 * std::max(1.0, b); std::map<double, long> in, tie; long r = k; for (std::size_t i = 0; i < d.size(); ++i) if (d[i] < b - eps) { ++in[y(i)]; --r; } else if (d[i] <= b + eps) ++tie[y(i)];
  long a = std::min(r, tie.count(c) ? tie[c] : 0L), w = (in.count(c) ? in[c] : 0) + a, room = 0; for (auto& p : in) if (p.first != c && p.second > w) return false; for (auto& p : tie) if (p.first != c) room += std::min(p.second, w - (in.count(p.first) ? in[p.first] : 0L)); return w > 0 && room >= r - a; }
void judge(KNN& m, const Mat& X, const Vec& y, long k, const std::string& me, const std::string& who) {
  std::string h = who + " k=" + std::to_string(k) + " " + me + " on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); Mat X1 = X; Vec y1 = y; m.fit(X1, y1); mc::step(); MC_CHECK(X1 == X && y1 == y, h << " modified its data"); X1.setConstant(77); y1.setConstant(-77); Mat Q = queries(X);
  std::map<std::string, double> same; for (const Mat& B : {Mat(X), Q, Mat(X.bottomRows(1)), Mat(Q.row(Q.rows() - 2))}) { const Mat B0 = B; Vec l = m.predict(B); mc::step(); MC_CHECK(B == B0, h << ": prediction modified its data"); MC_CHECK(l.size() == B.rows(), h << ": " << l.size() << " predictions for " << B.rows() << " samples"); for (long i = 0; i < B.rows(); ++i) { std::vector<double> d; for (long r = 0; r < X.rows(); ++r) d.push_back(dist(X, r, B, i, me)); MC_CHECK(can_win(d, y, k, l(i)), h << ": predicts " << l(i) << " for " << mc::str(B.row(i)) << " at distances " << mc::str(d)); auto in = same.emplace(mc::str(B.row(i)), l(i)); MC_CHECK(in.first->second == l(i), h << ": two answers for " << mc::str(B.row(i))); } mc::validated(B.rows()); } }
std::string nm(bool brute, int leaf) { return brute ? "brute kNN" : "k-d tree kNN leaf_size=" + std::to_string(leaf); }
}
MC_SCENARIO(small, 4) { static const int N[] = {1, 2, 3, 4, 3}, F[] = {1, 1, 1, 1, 2}; int s = mc::choose(5, "shape"), n = N[s], f = F[s], K = n == 3 && f == 1 ? 3 : 2, v = mc::choose(3, "variant"), c = 1; for (int i = 0; i < n; ++i) c *= K; c = mc::choose(c, "labels"); static const double U[] = {0, 1, 3}; Mat X(n, f); Vec y(n); for (int i = 0; i < n * f; ++i) X.data()[i] = mc::pick(U, "x"); for (int i = 0, cc = c; i < n; ++i) { y(i) = LB[(c + v) % 4][cc % K]; cc /= K; } mc::state(X, y, v);
  for (long k = 1; k <= n; ++k) for (int b = 0; b < 2; ++b) { const char* me = b ? METRIC[v & 1] : METRIC[v]; int leaf = 1 + v; KNN m(leaf, k, b ? "brute" : "kdtree", me); judge(m, X, y, k, me, nm(b, leaf)); } }
MC_SCENARIO(shapes, 4) { int n = mc::size(5, 40, {70, 130, 300}, "n"), f = mc::size(1, 4, {6, 10, 17}, "f"), d = mc::choose(4, "data"), K = 2 + mc::choose(3, "classes"), b = mc::choose(2, "solver"); Mat X = pattern(n, f, d); Vec y(n); for (int i = 0; i < n; ++i) y(i) = LB[d][n % 2 ? (i * 5 + i / 3) % K : (int)(std::fabs(X(i, 0)) + X(i, f - 1) * X(i, f - 1)) % K]; mc::state(X, y, b); static const int LS[] = {1, 2, 4, 10, 50}; int leaf = LS[(n + d + K) % 5]; const char* me = METRIC[(n + K) % (b ? 2 : 3)]; for (long k : {1, 2, 3, 4, 5, n / 2, n}) if (k >= 1 && k <= n) { KNN m(leaf, k, b ? "brute" : "kdtree", me); judge(m, X, y, k, me, nm(b, leaf)); } }
MC_SCENARIO(history, 3) { int b = mc::choose(3, "object"); static const int N[] = {15, 22, 17, 30}, F[] = {2, 1, 3, 2}; mc::Dirty<KNN> d(0xA5); mc::Dirty<KNN> e(0xA5, (std::size_t)2, (std::size_t)4, std::string(b == 1 ? "brute" : "kdtree"), std::string("manhattan")); KNN o(1, 3, b ? "kdtree" : "brute", "euclidean"); for (int t = 0; t < 3; ++t) { int k = mc::choose(4, "data"); mc::state(b, t, k); Mat X = pattern(N[k], F[k], k); Vec y(N[k]); for (int i = 0; i < N[k]; ++i) y(i) = LB[k][(i * (k + 2)) % (2 + k % 3)]; if (b == 0) judge(*d, X, y, 15, "euclidean", "default kNN"); else judge(*e, X, y, 4, "manhattan", "refitted " + nm(b == 1, 2)); Vec l = b ? e->predict(X) : d->predict(X); o.fit(X * 3, y); o.predict(X); mc::step(4); MC_CHECK(l == (b ? e->predict(X) : d->predict(X)), "another classifier changed the predictions"); } }
MC_SCENARIO(reject, 0) { KNN m(2, 1, "brute", "chebyshev"); Mat X = pattern(6, 2, 0); Vec y = Vec::LinSpaced(6, 0, 5); MC_CHECK(mc::throws([&] { m.fit(X, y); m.predict(X); }), "the brute solver accepts the unsupported chebyshev metric"); mc::step(); mc::validated(); }
MC_SCENARIO(fine, 3) { static const double A[4][4] = {{0.5, 0.25, -0.5, 0.75}, {16777217, 16777216, 16777218, 16777219}, {1, 1 + 1e-9, 1 - 1e-9, 1 + 2e-9}, {0, 0.1, -0.1, 0.2}}; int n = 2 + mc::choose(4, "n"), a = mc::choose(4, "alphabet"), b = mc::choose(2, "solver"), K = n <= 4 ? 3 : 2, c = 1; for (int i = 0; i < n; ++i) c *= K; c = mc::choose(c, "labels"); Mat X = pattern(n, 2, (n + c) % 4); Vec y(n); for (int i = 0, cc = c; i < n; ++i) { y(i) = A[a][cc % K + (K == 2 ? c % 3 : 0)]; cc /= K; } mc::state(X, y, b); for (long k = 1; k <= n; ++k) { KNN m(1 + c % 3, k, b ? "brute" : "kdtree", METRIC[c & 1]); judge(m, X, y, k, METRIC[c & 1], nm(b, 1 + c % 3)); } }
MC_SCENARIO(scaled, 3) { static const int E[] = {-200, -30, 30, 200}; int n = mc::size(2, 9, {20}, "n"), d = mc::choose(4, "data"), b = mc::choose(2, "solver"); double s = std::ldexp(1.0, E[mc::choose(4, "scale")]); int f = 1 + mc::choose(3, "f"); Mat X0 = pattern(n, f, d), X = s * X0, Q = s * queries(X0); Vec y(n); for (int i = 0; i < n; ++i) y(i) = LB[d][(i * 5 + i / 3) % 3]; mc::state(X, b); for (long k : {1, 3, n}) if (k <= n) { const char* me = METRIC[(n + d) & 1]; KNN p(2, k, b ? "brute" : "kdtree", me), q(2, k, b ? "brute" : "kdtree", me); p.fit(X0, y); q.fit(X, y); Vec u = p.predict(queries(X0)), v = q.predict(Q); mc::step(4); for (long i = 0; i < u.size(); ++i) { std::vector<double> ds; for (int r = 0; r < n; ++r) ds.push_back(dist(X0, r, queries(X0), i, me)); MC_CHECK(can_win(ds, y, k, v(i)), nm(b, 2) << " k=" << k << " " << me << " on X=" << mc::str(X) << " y=" << mc::str(y) << ": predicts " << v(i) << " for " << mc::str(Q.row(i)) << " at distances " << mc::str(ds) << " (times the scale)"); } mc::validated(u.size()); } }
MC_SCENARIO(moved, 2) { int k = mc::choose(4, "data"), o = mc::choose(4, "other"), b = mc::choose(2, "solver"), how = mc::choose(3, "how"); Mat X = pattern(11, 2, k), Y = pattern(8, 3, o); Vec y(11), z(8); for (int i = 0; i < 11; ++i) y(i) = LB[k][i * 5 % 3]; for (int i = 0; i < 8; ++i) z(i) = LB[o][i % 2]; mc::state(k, o, b, how); const char* so = b ? "brute" : "kdtree"; MC_LOG(k << o << b << how); KNN m(2, 3, so, "manhattan"), w(3, 2, so, "euclidean"); m.fit(X, y); w.fit(Y, z); Mat Q = queries(X), R = queries(Y); Vec u = m.predict(Q), v = w.predict(R); mc::step(4); if (how == 0) { KNN c(std::move(m)); MC_CHECK(c.predict(Q) == u, "a moved classifier predicts differently"); judge(c, Y, z, 3, "manhattan", "moved " + nm(b, 2)); } else if (how == 1) { m = std::move(w); MC_CHECK(m.predict(R) == v, "a move-assigned classifier predicts differently"); judge(m, X, y, 2, "euclidean", "assigned " + nm(b, 3)); } else { std::vector<KNN> all; for (int i = 0; i < 5; ++i) { all.emplace_back(2, 3, so, "manhattan"); all.back().fit(i % 2 ? Y : X, i % 2 ? z : y); } for (int i = 0; i < 5; i += 2) MC_CHECK(all[i].predict(Q) == u, "classifier " << i << " of a vector predicts differently"); } mc::validated(); }
MC_SCENARIO(floats, 2) { int n = mc::size(3, 12, {40}, "n"), d = mc::choose(4, "data"), b = mc::choose(2, "solver"), f = 1 + mc::choose(3, "f"); Mat X = pattern(n, f, d), Q = queries(X); Vec y(n); for (int i = 0; i < n; ++i) y(i) = LB[d][i * 5 % 3]; mc::state(X, b); for (long k : {1, 2, 3}) { neighbors::KNearestNeighbors<float> m(2, k, b ? "brute" : "kdtree", METRIC[n & 1]); m.fit(X.cast<float>(), y.cast<float>()); Eigen::VectorXf l = m.predict(Q.cast<float>()); mc::step(2); for (long i = 0; i < Q.rows(); ++i) { std::vector<double> ds; for (int r = 0; r < n; ++r) ds.push_back(dist(X, r, Q, i, METRIC[n & 1])); MC_CHECK(can_win(ds, y, k, l(i)), "float " << nm(b, 2) << " k=" << k << " on X=" << mc::str(X) << " y=" << mc::str(y) << ": predicts " << l(i) << " for " << mc::str(Q.row(i)) << " at distances " << mc::str(ds)); } mc::validated(Q.rows()); } }
MC_SCENARIO(refit_same_shape, 3) { int n = 2 + mc::choose(2, "n"), b = mc::choose(2, "solver"), K = n == 2 ? 2 : 1, c = mc::choose(1 << n, "labels"); static const double U[] = {0, 1, 3}; Mat X(n, 1), Z(n, 1); Vec y(n), z(n); for (int i = 0; i < n; ++i) { X(i, 0) = mc::pick(U, "first"); y(i) = LB[0][c >> i & 1]; z(i) = LB[c % 4][i % 2]; } for (int i = 0; i < n; ++i) Z(i, 0) = mc::pick(U, "second"); (void)K; mc::state(X, Z, y, b); for (long k = 1; k <= n; ++k) for (int l = 0; l < 2; ++l) { KNN m(1 + n % 2, k, b ? "brute" : "kdtree", METRIC[c & 1]); judge(m, X, y, k, METRIC[c & 1], nm(b, 1)); judge(m, Z, l ? y : z, k, METRIC[c & 1], "refitted " + nm(b, 1)); } }
MC_SCENARIO(many_votes, 2) { static const int N[] = {257, 300, 600, 66000}; int n = mc::pick(N, "n"), b = mc::choose(2, "solver"), K = 2 + mc::choose(2, "classes"), q = mc::choose(3, "majority"); int minor = q == 0 ? 1 : q == 1 ? std::min(40, n / 6) : n / 3; if (n == 66000 && (q || K == 3)) mc::prune(); Mat X(n, 1); Vec y(n); for (int i = 0; i < n; ++i) { X(i, 0) = i * 0.5; y(i) = i % (n / minor) == 1 && i / (n / minor) < minor ? LB[2][1 + i / (n / minor) % (K - 1)] : LB[2][0]; } if (K == 2 && q == 0) y(1) = LB[2][1]; mc::state(n, b, K, q); std::map<double, long> c; for (int i = 0; i < n; ++i) ++c[y(i)]; std::string h = nm(b, 50) + " with all " + std::to_string(n) + " points voting"; MC_LOG(h); KNN m(50, n, b ? "brute" : "kdtree", METRIC[K & 1]); m.fit(X, y); Mat Q(2, 1); Q << 3, n * 0.5 + 7; Vec l = m.predict(Q); mc::step(2); for (int i = 0; i < 2; ++i) { long best = 0; for (auto& p : c) best = std::max(best, p.second); MC_CHECK(c.count(l(i)) && c[l(i)] == best, h << ": predicts " << l(i) << " with " << c[l(i)] << " of the votes, the majority has " << best); }
  if (n < 1000) { KNN s(4, n - 20, b ? "brute" : "kdtree", "euclidean"); s.fit(X, y); Vec v = s.predict(Q); mc::step(2); for (int i = 0; i < 2; ++i) { std::vector<double> d; for (int r = 0; r < n; ++r) d.push_back(std::fabs(X(r, 0) - Q(i, 0))); MC_CHECK(can_win(d, y, n - 20, v(i)), h << " but 20: predicts " << v(i)); } } mc::validated(4); }
