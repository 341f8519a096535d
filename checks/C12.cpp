// flags: -O1
//# every data matrix of shape n x f over {-1,0,2} for n*f <= 6 and 4x2 over {0,1,3} (2 <= n), and every shape 2..7 x 1..6 with six fillings (one with a common offset of 1e4), every number of components; every order of up to three accessor calls before scoring; one refit on every ordered pair of patterned data sets; new data projected as a batch and one row at a time
//# shapes out of 17, 33, 70, 300 rows x 4, 9, 17 columns with six fillings and k in 1, 2, 4, min(n, f); patterned data of every shape 3..6 x 1..5 scaled by 2^+-12, 2^+-20, 2^+-40 (components and ratios unchanged, variances and precision scaled, score shifted by f*log(scale)); copies of a fitted model
//! constant data (zero total variance) has no ratios; precision and score are only compared when the model covariance is well conditioned
#include "core.hpp"
#include "methods/decomposition/pca.hpp"
using namespace openml;
namespace {
typedef decomposition::PCA<double> PCA;
struct Ref { Mat cov; Vec ev; Mat vec; Eigen::RowVectorXd mu; double tot; };
Ref ref(const Mat& X) { Ref r; r.mu = X.colwise().mean(); Mat C = X.rowwise() - r.mu; r.cov = C.transpose() * C / (X.rows() - 1.0); Eigen::SelfAdjointEigenSolver<Mat> e(r.cov); r.ev = e.eigenvalues().reverse(); r.vec = e.eigenvectors().rowwise().reverse(); r.tot = r.cov.trace(); return r; }
Mat newdata(long f) { Mat N(3, f); for (int i = 0; i < 3; ++i) for (long j = 0; j < f; ++j) N(i, j) = 3 * i * i - (j + 1) * i + j; return N; }
void check(PCA& m, const Mat& X, int k, int order, const std::string& h) {
  Ref R = ref(X); long n = X.rows(), f = X.cols(), mn = std::min(n, f); double sc = std::max(1.0, X.cwiseAbs().maxCoeff()); double tol = 1e-8 * sc * sc;
  auto getcov = [&] { Mat G = m.get_covariance(); mc::step(); return G; };
  Mat pre[2]; if (order == 1) { pre[0] = m.get_precision(); pre[1] = m.get_covariance(); } else if (order == 2) { pre[1] = m.get_covariance(); pre[0] = m.get_precision(); } else if (order == 3) { pre[0] = m.get_precision(); }
  Mat N = newdata(f); const Mat N0 = N; double sc0 = 0; if (order == 4) { sc0 = m.score(N); }
  Mat C = m.get_components(); MC_CHECK(C.rows() == k && C.cols() == f, h << " components " << mc::str(C)); MC_CHECK((C * C.transpose() - Mat::Identity(k, k)).cwiseAbs().maxCoeff() < 1e-8, h << " components not orthonormal " << mc::str(C));
  Vec ev = m.get_explained_var(), er = m.get_explained_var_ratio(), s = m.get_singular_values(); MC_CHECK(ev.size() == k && er.size() == k && s.size() == k, h << " sizes of variances");
  for (int i = 0; i < k; ++i) { MC_CHECK(mc::near(ev(i), R.ev(i), tol), h << " explained variances " << mc::str(ev) << " eigenvalues " << mc::str(R.ev)); MC_CHECK(i == 0 || ev(i) <= ev(i - 1) + tol, h << " variances not descending"); MC_CHECK(mc::near(s(i) * s(i) / (n - 1.0), ev(i), tol) && s(i) >= 0, h << " singular values " << mc::str(s)); if (R.tot > 1e-9) MC_CHECK(mc::near(er(i), R.ev(i) / R.tot, 1e-7), h << " ratios " << mc::str(er) << " of " << mc::str(R.ev) << " total " << R.tot); double q = C.row(i) * R.cov * C.row(i).transpose(); MC_CHECK(mc::near(q, R.ev(i), tol), h << " component " << i << " has variance " << q << " not " << R.ev(i)); Vec res = R.cov * C.row(i).transpose() - R.ev(i) * C.row(i).transpose(); MC_CHECK(res.norm() <= 1e-6 * sc * sc, h << " component " << i << " is not a principal direction " << mc::str(C)); }
  double noise = 0; for (long i = k; i < mn; ++i) noise += R.ev(i) / (mn - k);
  Mat W = C.transpose() * (ev.array() - noise).cwiseMax(0).matrix().asDiagonal() * C + noise * Mat::Identity(f, f); Mat G = getcov(); MC_CHECK(mc::nearM(G, W, tol * 10), h << " covariance " << mc::str(G) << " should be " << mc::str(W));
  Eigen::SelfAdjointEigenSolver<Mat> e(W); bool well = e.eigenvalues()(0) > 1e-3 && e.eigenvalues()(f - 1) / e.eigenvalues()(0) < 1e6;
  MC_CHECK(m.transform(X).rows() == n, h << " transform rows"); Mat T = m.transform(X), TW = (X.rowwise() - R.mu) * C.transpose(); MC_CHECK(mc::nearM(T, TW, 1e-8), h << " transform of the training data " << mc::str(T) << " should be " << mc::str(TW));
  Mat TN = m.transform(N), TNW = (N.rowwise() - R.mu) * C.transpose(); MC_CHECK(mc::nearM(TN, TNW, 1e-8), h << " transform of new data " << mc::str(TN) << " should be " << mc::str(TNW)); for (int i = 0; i < 3; ++i) MC_CHECK(mc::nearM(Mat(m.transform(N.row(i))), TNW.row(i), 1e-8), h << " transform of one row"); MC_CHECK(N == N0, h << " transform modified its input");
  if (well) { Mat P = m.get_precision(), I = P * W; MC_CHECK(mc::nearM(I, Mat::Identity(f, f), 1e-6), h << " precision " << mc::str(P) << " is not the inverse of " << mc::str(W)); if (order == 1 || order == 2 || order == 3) MC_CHECK(mc::nearM(pre[0], P, 1e-9), h << " the first get_precision " << mc::str(pre[0]) << " differs from a later one " << mc::str(P));
    auto score = [&](const Mat& D) { double t = 0; Mat Pi = W.inverse(); double ld = e.eigenvalues().array().log().sum(); for (long i = 0; i < D.rows(); ++i) { Eigen::RowVectorXd d = D.row(i) - R.mu; t += -0.5 * (d * Pi).dot(d) - 0.5 * f * std::log(2 * M_PI) - 0.5 * ld; } return t / D.rows(); };
    for (int q = 0; q < 3; ++q) { Mat D = q == 0 ? X : q == 1 ? N : Mat(N.row(1)); double g = m.score(D), w = score(D); MC_CHECK(mc::near(g, w, 1e-6), h << " score of " << mc::str(D) << " is " << g << " not " << w); } if (order == 4) MC_CHECK(mc::near(sc0, score(N), 1e-6), h << " first score " << sc0 << " should be " << score(N)); mc::step(4); }
  if (order == 1 || order == 2) MC_CHECK(mc::nearM(pre[1], G, 1e-12), h << " get_covariance changes"); MC_CHECK(m.get_components() == C && m.get_explained_var() == ev, h << " accessors change the model"); mc::step(8); mc::validated();
}
Mat pattern(int n, int f, int k) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = k == 0 ? (i == j ? 6 + i : 0) + ((i * 7 + j * 3) % 5 - 2) : k == 1 ? (i + 1) * (j - 1.5) : k == 2 ? ((i * i * 3 + j * 5 + i * j) % 11) - 4 : k == 3 ? 1e4 + ((i * 5 + j * j * 3) % 7) : k == 4 ? ((i >> (j % 3)) & 1) + 0.25 * ((i * j) % 3) : (j == 0 ? 50 * (i % 2) : (i * (j + 2)) % 5); return X; }
}
MC_SCENARIO(small, 4) {
  static const double V[] = {-1, 0, 2}, W[] = {0, 1, 3}; int n = 2 + mc::choose(5, "n"), f = 1 + mc::choose(3, "f"); bool big = n == 4 && f == 2; if (n * f > 6 && !big) mc::prune(); Mat X(n, f); for (int i = 0; i < n * f; ++i) X.data()[i] = big ? W[mc::choose(mc::thorough() ? 3 : 2, "x")] : mc::pick(V, "x"); int k = 1 + mc::choose(std::min(n, f), "k"), o = mc::choose(5, "order"); MC_LOG(mc::str(X)); mc::state(X, k, o); const Mat X0 = X;
  PCA m("svd", k); m.fit(X); mc::step(); MC_CHECK(X == X0, "fit modified its input"); check(m, X, k, o, "PCA k=" + std::to_string(k) + " order " + std::to_string(o) + " on " + mc::str(X));
}
MC_SCENARIO(shapes, 3) {
  int n = 2 + mc::choose(6, "n"), f = 1 + mc::choose(6, "f"), p = mc::choose(6, "fill"), k = 1 + mc::choose(std::min(n, f), "k"), o = mc::choose(5, "order"); Mat X = pattern(n, f, p); mc::state(X, k, o); PCA m("svd", k); m.fit(X); check(m, X, k, o, "PCA k=" + std::to_string(k) + " order " + std::to_string(o) + " on " + mc::str(X));
}
MC_SCENARIO(refit, 4) {
  int a = mc::choose(6, "a"), b = mc::choose(6, "b"), s = mc::choose(6, "shape"); static const int N1[] = {4, 5, 3, 4, 6, 2}, F1[] = {3, 2, 5, 3, 4, 3}, N2[] = {4, 4, 6, 2, 3, 7}, F2[] = {3, 4, 2, 5, 4, 2}; int k = 1 + mc::choose(2, "k"), o = mc::choose(5, "order"), mid = mc::choose(4, "between"); Mat A = pattern(N1[s], F1[s], a), B = pattern(N2[s], F2[s], b); mc::state(A, B, k, o, mid);
  PCA m("svd", k), other("svd", k); m.fit(A); if (mid == 1) { m.get_covariance(); m.get_precision(); } if (mid == 2) { m.score(A); m.transform(A); } other.fit(A); m.fit(B); std::string h = "PCA k=" + std::to_string(k) + " order " + std::to_string(o) + " between " + std::to_string(mid) + " fitted on " + mc::str(A) + " then " + mc::str(B); check(m, B, k, o, h); check(other, A, k, o, h + " (the other object)"); mc::step(4);
}
MC_SCENARIO(defaults, 1) { int n = 3 + mc::choose(4, "n"); PCA m; Mat X = pattern(n, 4, 2); m.fit(X); check(m, X, 2, 0, "default PCA on " + mc::str(X)); }
MC_SCENARIO(larger, 3) { static const int N[] = {17, 33, 70, 300}, F[] = {4, 9, 17}; int n = mc::pick(N, "n"), f = mc::pick(F, "f"), p = mc::choose(6, "fill"), kk = mc::choose(4, "k"), k = kk == 0 ? 1 : kk == 1 ? 2 : kk == 2 ? 4 : std::min(n, f); Mat X = pattern(n, f, p); if (p == 0) for (int i = 0; i < n; ++i) X(i, i % f) += 3; int o = (n + k) % 5; mc::state(X, k, o); PCA m("svd", k); m.fit(X); check(m, X, k, o, "PCA k=" + std::to_string(k) + " order " + std::to_string(o) + " on " + mc::str(X)); }
MC_SCENARIO(scaled, 3) {
  static const int E[] = {-40, -20, -12, 12, 20, 40}; int n = 3 + mc::choose(4, "n"), f = 1 + mc::choose(5, "f"), p = mc::choose(6, "fill"), k = 1 + mc::choose(std::min(n, f), "k"); if (p == 3) mc::prune(); double s = std::ldexp(1.0, E[mc::choose(6, "scale")]); Mat X = pattern(n, f, p), Y = s * X; mc::state(X, k, s); MC_LOG(mc::str(X) << " k " << k << " scale " << s); PCA a("svd", k), b("svd", k); a.fit(X); b.fit(Y); std::ostringstream h; h << "PCA k=" << k << " on " << mc::str(X) << " scaled by " << s; mc::step(2);
  Vec va = a.get_explained_var(), vb = b.get_explained_var(), ra = a.get_explained_var_ratio(), rb = b.get_explained_var_ratio(), sa = a.get_singular_values(), sb = b.get_singular_values(); double v = va.cwiseAbs().maxCoeff(); if (v < 1e-9) return; auto eq = [&](const Mat& x, const Mat& y, double t, double m, const char* w) { MC_CHECK(mc::finite(x) && (x - t * y).cwiseAbs().maxCoeff() <= 1e-7 * t * m, h.str() << ": " << w << " " << mc::str(x) << " is not " << t << " times " << mc::str(y)); mc::validated(); };
  eq(vb, va, s * s, v, "explained variances"); eq(rb, ra, 1, 1, "ratios"); eq(sb, sa, s, std::sqrt(v * n), "singular values"); Mat C = b.get_components(); MC_CHECK((C * C.transpose() - Mat::Identity(k, k)).cwiseAbs().maxCoeff() < 1e-8, h.str() << " components not orthonormal");
  eq(b.get_covariance(), a.get_covariance(), s * s, v, "covariance"); eq(b.transform(Y), (Y.rowwise() - Y.colwise().mean().eval()) * C.transpose(), 1, s * (1 + X.cwiseAbs().maxCoeff()), "transform");
  Mat W = a.get_covariance(); Eigen::SelfAdjointEigenSolver<Mat> e(W); bool well = e.eigenvalues()(0) > 1e-3 && e.eigenvalues()(f - 1) / e.eigenvalues()(0) < 1e6; if (well) { Mat P = a.get_precision(); eq(b.get_precision(), P, 1 / (s * s), P.cwiseAbs().maxCoeff(), "precision"); Mat N = newdata(f); double sn = a.score(N), w = sn - f * std::log(s), g = b.score(s * N); MC_CHECK(std::isfinite(g) && std::fabs(g - w) <= 1e-6 * (1 + std::fabs(sn) + std::fabs(w)), h.str() << ": score of scaled data is " << g << " not " << w); mc::validated(); }
}
MC_SCENARIO(copies, 2) { int a = mc::choose(6, "a"), b = mc::choose(6, "b"), k = 1 + mc::choose(3, "k"), how = mc::choose(3, "how"), o = mc::choose(5, "order"); Mat A = pattern(6, 4, a), B = pattern(5, 3, b); mc::state(A, B, k, how, o); PCA m("svd", k); m.fit(A); PCA c(m); if (how == 0) m.fit(B); else if (how == 1) { PCA d("svd", 1); d.fit(B); d = m; c = d; m.fit(B); } else { m.score(A); m.get_precision(); } check(c, A, k, o, "copy of PCA k=" + std::to_string(k) + " order " + std::to_string(o) + " on " + mc::str(A)); }
