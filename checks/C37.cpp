// flags: -O1
//# k-means: every data set of 2-4 samples in 1-D over {0,1,3,10}, 2-3 in 2-D over {0,2,5} and 4 in 2-D over {0,3}; k 1-3; both initialisations with every permutation / every enumerated draw; iteration limits 0/1/2/300 and tolerances 0/1e-4/0.7; queries inside and outside; long batches; patterned sets of 6-40, 80, 200 x 1-3, 7, 12 with k 1-5 and 9 over 4 draw streams; separated clusters over 40 streams; refit histories
//! centroids are observed through predictions on a query grid; ties may go to any of the tied clusters; any ordered choice of samples is accepted as a k-means++ start (distinct samples for random)
//# 300 and 600 samples in 20, 70, 256, 257, 300 clusters; 66000 samples in 2
#include "core.hpp"
#include "methods/cluster/kmeans.hpp"
using namespace openml;
namespace {
typedef cluster::KMeans<double> KM;
struct P { std::string init; long k, it; double tol; };
std::string show(const P& p) { return "k-means " + p.init + " k=" + std::to_string(p.k) + " max_iter=" + std::to_string(p.it) + " tol=" + mc::num(p.tol); }
std::vector<long> nearest(const Mat& C, const Mat& X, long i) { std::vector<double> d; for (long j = 0; j < C.rows(); ++j) d.push_back((X.row(i) - C.row(j)).norm()); double m = *std::min_element(d.begin(), d.end()); std::vector<long> r; for (long j = 0; j < C.rows(); ++j) if (d[j] <= m + 1e-9 * (1 + m)) r.push_back(j); return r; }
// every final set of centroids Lloyd's iteration may reach from C (ties branch)
void lloyd(const Mat& X, Mat C, long it, const P& p, std::map<std::string, Mat>& fin, std::set<std::string>& seen) {
  if (!seen.insert(std::to_string(p.tol > 0 && p.it == 300 ? 0 : it) + mc::str(C)).second) return; if (it == p.it) { fin.emplace(mc::str(C), C); return; }
  std::vector<std::vector<long>> al; long n = X.rows(); for (long i = 0; i < n; ++i) al.push_back(nearest(C, X, i)); std::vector<long> c(n, 0); for (;;) { Mat N = C; double eps = 0; for (long j = 0; j < C.rows(); ++j) { Eigen::RowVectorXd s = Eigen::RowVectorXd::Zero(X.cols()); long m = 0; for (long i = 0; i < n; ++i) if (al[i][c[i]] == j) { s += X.row(i); ++m; } if (m) { N.row(j) = s / m; eps += (N.row(j) - C.row(j)).norm(); } } if (std::fabs(eps - p.tol) < 1e-12 && eps > 1e-12) { fin.emplace(mc::str(N), N); lloyd(X, N, it + 1, p, fin, seen); } else if (eps < p.tol || (eps == 0)) fin.emplace(mc::str(N), N); else lloyd(X, N, it + 1, p, fin, seen); long i = 0; while (i < n && ++c[i] == (long)al[i].size()) c[i++] = 0; if (i == n) break; } }
const std::map<std::string, Mat>& finals(const Mat& X, const P& p) { static std::map<std::string, std::map<std::string, Mat>> cache; std::string key = show(p) + mc::str(X); if (cache.size() > 400) cache.clear(); auto in = cache.emplace(key, std::map<std::string, Mat>()); auto& f = in.first->second; if (!in.second) return f; std::set<std::string> seen; long n = X.rows(), N = 1; for (long j = 0; j < p.k; ++j) N *= n; for (long s = 0; s < N; ++s) { Mat C(p.k, X.cols()); std::set<long> u; long t = s; for (long j = 0; j < p.k; ++j, t /= n) { C.row(j) = X.row(t % n); u.insert(t % n); } if (p.init == "random" && (long)u.size() < p.k) continue; lloyd(X, C, 0, p, f, seen); } return f; }
Mat queries(const Mat& X) { long n = X.rows(), f = X.cols(); Mat Q(n + 6, f); Q.topRows(n) = X; Q.row(n) = X.colwise().minCoeff().array() - 3.25; Q.row(n + 1) = X.colwise().maxCoeff().array() + 7.5; Q.row(n + 2) = X.colwise().mean().array() + 0.1; Q.row(n + 3) = (X.row(0) * 0.8 + X.row(n - 1) * 0.2); Q.row(n + 4) = X.row(n / 2); Q(n + 4, 0) += 1.3; Q.row(n + 5) = X.row(n / 2); Q(n + 5, f - 1) -= 0.9; return Q; }
Vec predict(KM& m, const Mat& X, const Mat& Q, const P& p, const std::string& h) { const Mat X0 = X; Mat XX = X; m.fit(XX); mc::step(); MC_CHECK(XX == X0, h << ": fitting modified its data"); XX.setConstant(1e9); const Mat Q0 = Q; Vec l = m.predict(Q); mc::step(); MC_CHECK(Q == Q0, h << ": predicting modified its data"); MC_CHECK(l.size() == Q.rows(), h << ": " << l.size() << " labels for " << Q.rows() << " samples"); for (long i = 0; i < l.size(); ++i) MC_CHECK(l(i) >= 0 && l(i) < p.k && l(i) == std::floor(l(i)), h << ": label " << l(i)); for (long i = 0; i < Q.rows(); i += 3) { Vec o = m.predict(Q.row(i)); MC_CHECK(o.size() == 1 && o(0) == l(i), h << ": " << mc::str(Q.row(i)) << " alone gets " << mc::str(o) << ", in a batch " << l(i)); } Mat B = mc::tall(X, Q, 12); if (B.rows() > 1) { Vec bl = m.predict(B); mc::step(); MC_CHECK(bl.size() == B.rows(), h << ": " << bl.size() << " labels for " << B.rows() << " samples"); for (long i = 0; i < B.rows(); ++i) { long q = 0; while (q < Q.rows() && Q.row(q) != B.row(i)) ++q; double w = q < Q.rows() ? l(q) : m.predict(B.row(i))(0); MC_CHECK(bl(i) == w, h << ": row " << i << " of a batch of " << B.rows() << " gets label " << bl(i) << ", otherwise " << w); } } return l; }
bool admits(const Mat& C, const Mat& Q, const Vec& l) { for (long i = 0; i < Q.rows(); ++i) { auto a = nearest(C, Q, i); if (std::find(a.begin(), a.end(), (long)l(i)) == a.end()) return false; } return true; }
void judge(KM& m, const Mat& X, const P& p, const std::string& who) { std::string h = who + show(p) + " on " + mc::str(X); MC_LOG(h); Mat Q = queries(X); Vec l = predict(m, X, Q, p, h); bool ok = false; for (auto& f : finals(X, p)) if (admits(f.second, Q, l)) { ok = true; break; } MC_CHECK(ok, h << ": the labels " << mc::str(l.transpose()) << " of " << mc::str(Q) << " are not those of any run of Lloyd's iteration from samples"); mc::validated(Q.rows()); }
// larger data: the converged clustering is a fixed point of Lloyd's iteration
void fixed_point(KM& m, const Mat& X, const P& p, const std::string& who) { std::string h = who + show(p) + " on " + mc::str(X); MC_LOG(h); Mat Q = queries(X); Vec l = predict(m, X, Q, p, h); long n = X.rows(); Mat C = Mat::Zero(p.k, X.cols()); std::vector<long> c(p.k); for (long i = 0; i < n; ++i) { C.row((long)l(i)) += X.row(i); ++c[(long)l(i)]; } for (long j = 0; j < p.k; ++j) if (c[j]) C.row(j) /= c[j]; for (long i = 0; i < Q.rows(); ++i) { long j = l(i); if (!c[j]) continue; double d = (Q.row(i) - C.row(j)).norm(); for (long o = 0; o < p.k; ++o) if (c[o]) MC_CHECK(d <= (Q.row(i) - C.row(o)).norm() + 1e-9 * (1 + d), h << ": sample " << mc::str(Q.row(i)) << " gets cluster " << j << " with mean " << mc::str(C.row(j)) << " of its members, cluster " << o << " with mean " << mc::str(C.row(o)) << " is nearer"); } mc::validated(Q.rows()); }
Mat pattern(int n, int f, int d) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = d == 0 ? (i * (7 + 4 * j) + j * j) % 17 + 0.01 * i : d == 1 ? (i % 3) * 20.0 * (j + 1) + (i * i + j) % 5 : d == 2 ? std::sqrt(1.0 + i * (j + 2)) : (i % 2 ? 50 : -50) + ((i * (j + 3)) % 7) * 1.7; return X; }
const double TOL[] = {1e-4, 0, 0.7};
}
MC_SCENARIO(small, 4) { static const int N[] = {2, 3, 4, 2, 3, 4}, F[] = {1, 1, 1, 2, 2, 2}; int s = mc::choose(6, "shape"), n = N[s], f = F[s]; P p; p.k = 1 + mc::choose(std::min(n, 3), "k"); int lim = mc::choose(5, "limit"); p.it = lim == 0 ? 300 : lim == 1 ? 0 : lim == 2 ? 1 : lim == 3 ? 2 : 300; p.tol = lim == 4 ? 0.7 : lim == 3 ? 0 : 1e-4; p.init = mc::choose(2, "init") ? "kmeans++" : "random"; static const double U[] = {0, 1, 3, 10}, V[] = {0, 2, 5}; Mat X(n, f); for (int i = 0; i < n * f; ++i) X.data()[i] = s < 3 ? mc::pick(U, "x") : s < 5 ? mc::pick(V, "x") : 3.0 * mc::choose(2, "x"); if (s == 2 || s == 5) { X(3, f - 1) += 0.25; }
  bool pp = p.init == "kmeans++"; if (pp && !mc::thorough()) { double h = X.sum() * 4 + X(0, 0) + 3 * X(n - 1, 0) + p.k; if (n > 2 && (long)h % 3) mc::prune(); } mc::state(X, p.init, p.k, p.it, p.tol); if (pp) mc::env_enumerate(p.k == 3 ? 4 : 9); KM m(p.init, 1, p.k, p.it, p.tol); judge(m, X, p, ""); }
MC_SCENARIO(patterns, 3) { int n = mc::size(6, 40, {80, 200}, "n"), f = mc::size(1, 3, {7, 12}, "f"), d = mc::choose(4, "data"), st = mc::choose(4, "stream"); P p; p.k = mc::size(1, 5, {9}, "k"); if (p.k > n) mc::prune(); p.init = st & 1 ? "kmeans++" : "random"; p.it = 300; p.tol = 1e-4; Mat X = pattern(n, f, d); mc::state(X, p.k, st); mc::env_stream(st + 1); KM m(p.init, 10, p.k, p.it, p.tol); fixed_point(m, X, p, ""); }
MC_SCENARIO(separated, 2) { int k = 1 + mc::choose(5, "k"), f = 1 + mc::choose(3, "f"), st = mc::choose(40, "stream"), w = mc::choose(3, "spread"); static const double W[] = {0, 1, 3}; Mat X(k * 4, f); for (int i = 0; i < k * 4; ++i) for (int j = 0; j < f; ++j) X(i, j) = 1e6 * (j == (i % k) % f ? (i % k) + 1 : -(i % k)) + W[w] * ((i / k * (j + 2)) % 3); mc::env_stream(st + 1); mc::state(k, f, st, w); mc::Dirty<KM> def(0xA5); KM sized("kmeans++", 1, k, 50, 1e-6); KM& m = k == 3 ? *def : sized; P p{"kmeans++", k, 300, 1e-4}; Vec l = predict(m, X, X, p, "separated"); std::string h = show(p) + " on far clusters " + mc::str(X) + ": labels " + mc::str(l.transpose()); MC_LOG(h); for (int i = 0; i < k * 4; ++i) for (int j = 0; j < i; ++j) MC_CHECK((l(i) == l(j)) == (i % k == j % k), h); mc::validated(); }
MC_SCENARIO(history, 3) { int o = mc::choose(3, "object"), st = mc::choose(3, "stream"); mc::env_stream(st + 5); mc::Dirty<KM> def(0xA5); mc::Dirty<KM> rnd(0xA5, std::string("random"), (std::size_t)1, (std::size_t)2, (std::size_t)20, 1e-4); KM x("random", 1, 2, 5, 0); P p = o == 0 ? P{"kmeans++", 3, 300, 1e-4} : P{"random", 2, 20, 1e-4}; KM& m = o == 0 ? *def : *rnd; static const int N[] = {4, 5, 3, 5}, F[] = {2, 1, 3, 2}; for (int t = 0; t < 3; ++t) { int k = mc::choose(4, "data"); mc::state(o, st, t, k); Mat X = pattern(N[k], F[k], k); judge(m, X, p, "refitted "); Mat Q = queries(X); Vec l = m.predict(Q); x.fit(X * 2); x.predict(X); mc::step(4); MC_CHECK(m.predict(Q) == l, "another k-means changed the labels"); } }
MC_SCENARIO(many_clusters, 2) { static const int KS[] = {20, 70, 256, 257, 300}; int k = mc::choose(6, "k"), st = mc::choose(2, "stream"), w = mc::choose(2, "order"), f = 1 + mc::choose(2, "f"); P p; p.k = k == 5 ? 2 : KS[k]; int n = k == 5 ? 66000 : k < 2 ? 300 : 600; if (k == 5 && (f == 2 || w)) mc::prune(); p.init = st ? "kmeans++" : "random"; p.it = 400; p.tol = 1e-9; Mat X(n, f); for (int i = 0; i < n; ++i) { int c = w ? i / (n / p.k + 1) : i % p.k; for (int j = 0; j < f; ++j) X(i, j) = 100.0 * c * (j ? -1 : 1) + (i * 7 % 11) * 0.1; } mc::state(n, f, p.k, st, w); mc::env_stream(st + 3); KM m(p.init, 1, p.k, p.it, p.tol); fixed_point(m, X, p, ""); }
