// flags: -O1
//# lasso: every data set with 2-3 samples x 1 feature over {-1,0,1,2}, 2x2 and 3x2 over {-1,0,2}, three target patterns, penalties 0, 0.05, 0.5, 40, intercept on/off, run to convergence (1500 steps); budgets 0..4 against the recurrence; every shape up to 8x5 and 20/70 x 9/17 patterned; sequences of three fits with 0-30 steps against fresh objects; shuffles enumerated for the first two steps (n <= 4); refits
//! the objective is ||y - Xw - b||^2/(2n) + penalty*(|w|_1 + |b|); convergence is demanded only where the curvature parameter bounds that of the loss and the steps suffice by the linear-rate bound of greedy coordinate descent
//# nearly collinear columns that need 1000 to 100000 coordinate steps, budgets to suit, six data sets x two penalties x intercept and shuffling on/off
#include "core.hpp"
#include "scdref.hpp"
#include "methods/linear_model/lasso_regression.hpp"
using namespace openml;
namespace {
typedef linear_model::LassoRegression<double> Lasso;
Mat design(const Mat& X, bool ic) { Mat A(X.rows(), X.cols() + ic); A.leftCols(X.cols()) = X; if (ic) A.col(X.cols()).setOnes(); return A; }
double obj(const Mat& A, const Vec& y, const Vec& w, double l) { return 0.5 * (A * w - y).squaredNorm() / A.rows() + l * w.cwiseAbs().sum(); }
Vec optimum(const Mat& A, const Vec& y, double l) { long f = A.cols(), n = A.rows(); Vec w = Vec::Zero(f); for (int it = 0; it < 20000; ++it) { double d = 0; for (long j = 0; j < f; ++j) { double h = A.col(j).squaredNorm() / n; if (h == 0) { continue; } double g = A.col(j).dot(A * w - y) / n, a = w(j) - g / h, t = l / h, v = a > t ? a - t : a < -t ? a + t : 0; d = std::max(d, std::fabs(v - w(j))); w(j) = v; } if (d < 1e-13) break; } return w; }
double lip(const Mat& A) { return Eigen::SelfAdjointEigenSolver<Mat>(A.transpose() * A / (double)A.rows()).eigenvalues().maxCoeff(); }
double mu(const Mat& A) { return Eigen::SelfAdjointEigenSolver<Mat>(A.transpose() * A / (double)A.rows()).eigenvalues().minCoeff(); }
void predicts(const Lasso& m, const Mat& X, const Vec& w, bool ic, const std::string& h) { Mat Q(3, X.cols()); for (int i = 0; i < 3; ++i) for (long j = 0; j < X.cols(); ++j) Q(i, j) = i == 0 ? 0 : i == 1 ? j + 0.5 : -7 * (j + 1); for (const Mat& Z : {Mat(X), Q, mc::tall(X, Q), Mat(Q.row(2))}) { Vec p = m.predict(Z); mc::step(); MC_CHECK(mc::nearM(p, Vec(design(Z, ic) * w), 1e-9), h << ": predicts " << mc::str(p) << " for " << mc::str(Z) << " with coefficients " << mc::str(w)); } mc::validated(3); }
void converged(Lasso& m, const Mat& X, const Vec& y, double l, bool ic, double beta, int steps, const std::string& who) {
  Mat A = design(X, ic); const Mat X0 = X; const Vec y0 = y; std::ostringstream o; o << who << "(penalty " << l << ", curvature " << beta << ", steps " << steps << (ic ? ", intercept" : "") << ") on X=" << mc::str(X) << " y=" << mc::str(y); std::string h = o.str(); MC_LOG(h);
  m.fit(X, y); mc::step(); MC_CHECK(X == X0 && y == y0, h << " modified its data"); Vec w = m.get_coef(); MC_CHECK(w.size() == A.cols(), h << ": " << w.size() << " coefficients"); predicts(m, X, w, ic, h);
  Vec r = optimum(A, y, l); double fo = obj(A, y, r, l), fw = obj(A, y, w, l), f0 = obj(A, y, Vec::Zero(A.cols()), l), rate = mu(A) / (beta * A.cols()); MC_CHECK(fw <= f0 + 1e-9 * (1 + f0), h << ": ends with objective " << fw << " above " << f0 << " at zero");
  if (rate * steps > 30) { MC_CHECK(fw <= fo + 1e-8 * (1 + f0), h << ": objective " << fw << " at " << mc::str(w) << ", minimum " << fo << " at " << mc::str(r)); MC_CHECK((w - r).squaredNorm() * mu(A) / 2 <= 1e-7 * (1 + f0), h << ": coefficients " << mc::str(w) << " not " << mc::str(r)); MC_CHECK(w.cwiseAbs().sum() <= optimum(A, y, l * 0.5).cwiseAbs().sum() + 1e-3, h << ": L1 norm grows with the penalty"); mc::validated(3); }
  double big = (A.transpose() * y / (double)A.rows()).cwiseAbs().maxCoeff(); if (l >= big) { MC_CHECK(w.cwiseAbs().maxCoeff() == 0, h << ": coefficients " << mc::str(w) << " under a dominating penalty"); mc::validated(); }
}
Vec target(int n, int k) { Vec y(n); for (int i = 0; i < n; ++i) y(i) = k == 0 ? i : k == 1 ? (i % 2 ? -3 : 1) : 5 - i * i; return y; }
Mat pattern(int n, int f, int k) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = std::sin(1.0 + 3.7 * i * (j + 1) + 1.3 * j + k * 0.9) * 2 + (j == 1) * 0.5; return X; }
}
MC_SCENARIO(small, 4) {
  static const double V[] = {-1, 0, 1, 2}, U[] = {-1, 0, 2}, LA[] = {0, 0.05, 0.5, 40}; int s = mc::choose(4, "shape"), n = 2 + s % 2, f = 1 + s / 2; bool ic = mc::choose(2, "intercept"), sh = mc::choose(2, "shuffle"); int t = mc::choose(n * f == 6 ? 1 : 3, "target"); Mat X(n, f); for (int i = 0; i < n * f; ++i) X.data()[i] = f == 1 ? mc::pick(V) : mc::pick(U); double l = mc::pick(LA, "penalty"); if (sh && (t || l == 0.05) && !mc::thorough()) mc::prune(); Vec y = target(n, t); mc::state(X, y, l, ic, sh); mc::env_stream(n); double b = std::max(0.5, 1.01 * lip(design(X, ic))); mc::Dirty<Lasso> m(0xA5, (std::size_t)1500, l, b, sh, t == 1, ic); converged(*m, X, y, l, ic, b, 1500, "lasso");
}
MC_SCENARIO(budget, 4) { static const double LA[] = {0, 0.1, 1}, BE[] = {2, 6}; int n = 1 + mc::choose(4, "n"), f = 1 + mc::choose(2, "f"); bool ic = mc::choose(2, "intercept"); int st = mc::choose(5, "steps"), d = mc::choose(4, "data"); double l = mc::pick(LA, "penalty"), b = mc::pick(BE, "curvature"); mc::state(n, f, ic, st, d, l, b); mc::env_enumerate(n < 4 ? 2 : 1); Mat X = d == 3 ? Mat(Mat::Constant(n, f, 2)) : pattern(n, f, d); Vec y = target(n, d % 3); Lasso m(st, l, b, true, false, ic); m.fit(X, y); mc::step(); Vec w = m.get_coef(); bool cut = false; auto S = scdref::walk(design(X, ic), y, {Vec::Zero(f + ic)}, st, b, l, cut); bool ok = cut; for (auto& u : S) ok |= mc::nearM(u, w, 1e-7); MC_CHECK(ok, "lasso with " << st << " steps, penalty " << l << ", curvature " << b << " on X=" << mc::str(X) << " y=" << mc::str(y) << " gives " << mc::str(w)); predicts(m, X, w, ic, "lasso"); mc::validated(); }
MC_SCENARIO(shapes, 3) { static const double LA[] = {0, 0.1, 1, 60}; int n = mc::size(1, 8, {20, 70}, "n"), f = mc::size(1, 5, {9, 17}, "f"); bool ic = mc::choose(2, "intercept"); double l = mc::pick(LA); Mat X = pattern(n, f, 0); Vec y = target(n, 1); mc::state(n, f, ic, l); mc::env_stream(f); double b = 1.2 * lip(design(X, ic)); Lasso m(6000, l, b, true, false, ic); converged(m, X, y, l, ic, b, 6000, "lasso"); }
MC_SCENARIO(refit_exact, 3) { // few steps: a refit must not start from the earlier solution
  static const int ST[] = {0, 1, 2, 5, 30}; bool ic = mc::choose(2, "intercept"), sh = mc::choose(2, "shuffle"); int st = mc::pick(ST, "steps"); double l = mc::choose(2, "penalty") ? 0.2 : 0; Lasso a(st, l, 6, sh, false, ic); for (int i = 0; i < 3; ++i) { int d = mc::choose(4, "data"); static const int N[] = {4, 6, 3, 4}, F[] = {1, 2, 1, 1}; Mat X = pattern(N[d], F[d], d); Vec y = target(N[d], d % 3); mc::state(ic, sh, st, l, i, d); mc::env_stream(d + 1); a.fit(X, y); Lasso b(st, l, 6, sh, false, ic); mc::env_stream(d + 1); b.fit(X, y); mc::step(2); std::string h = "lasso with " + std::to_string(st) + " steps, penalty " + mc::num(l) + ", fit " + std::to_string(i) + " on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); MC_CHECK(mc::nearM(a.get_coef(), b.get_coef(), 1e-12), h << " gives " << mc::str(a.get_coef()) << ", a fresh object " << mc::str(b.get_coef())); predicts(a, X, b.get_coef(), ic, h); mc::validated(); } }
MC_SCENARIO(history, 2) { bool ic = mc::choose(2, "intercept"); mc::choose(1); Lasso a(2000, 0.2, 9, true, false, ic), other(10, 5, 3, true, false, !ic), def; for (int i = 0; i < 3; ++i) { int d = mc::choose(3, "data"); static const int N[] = {4, 6, 3}, F[] = {1, 2, 1}; Mat X = pattern(N[d], F[d], d); Vec y = target(N[d], d); mc::env_stream(d + 1); mc::state(ic, i, d); converged(a, X, y, 0.2, ic, 9, 2000, "refitted lasso"); Vec w = a.get_coef(); other.fit(X, y); MC_CHECK(a.get_coef() == w, "another lasso changed the coefficients"); Lasso fresh(2000, 0.2, 9, true, false, ic); mc::env_stream(d + 1); fresh.fit(X, y); MC_CHECK(mc::nearM(fresh.get_coef(), w, 1e-6), "a refitted lasso gives " << mc::str(w) << ", a fresh one " << mc::str(fresh.get_coef())); }
  Mat X = pattern(5, 1, 2) * 0.5; Vec y = target(5, 0); def.fit(X, y); double l = lip(design(X, true)); if (l <= 1) { MC_CHECK(obj(design(X, true), y, def.get_coef(), 0.001) <= obj(design(X, true), y, optimum(design(X, true), y, 0.001), 0.001) + 1e-6, "the default lasso misses the minimum for penalty 0.001"); mc::validated(); } }
MC_SCENARIO(many_steps, 2) { static const double GAP[] = {0.3, 0.1, 0.06}, LA[] = {0, 1e-3}; double gap = mc::pick(GAP, "gap"), l = mc::pick(LA, "penalty"); int d = mc::choose(2, "data"); bool ic = mc::choose(2, "intercept"), sh = mc::choose(2, "shuffle"); int n = 4 + d, f = 2 + d; Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = (ic ? i - 1.5 : i * 0.5 + 0.5) + (j ? gap * ((i * (j + 1) * 3 + j) % 4 - 1.5) : 0); Vec y(n); for (int i = 0; i < n; ++i) y(i) = i * 0.7 + (i % 2 ? 0.6 : -0.4) + (i == 2); Mat A = design(X, ic); double b = 1.01 * lip(A), rate = mu(A) / (b * A.cols()); int steps = rate * 120000 > 31 ? (int)(31 / rate) + 1 : 120000; mc::state(gap, l, d, ic, sh, steps); mc::env_stream(d + 1); Lasso m(steps, l, b, sh, false, ic); converged(m, X, y, l, ic, b, steps, "lasso"); }
