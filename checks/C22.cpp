// flags: -O1
//# linear and ridge regression: every data set with 1-3 samples x 1-2 features over {-1,0,1,2} and 4x1, three target patterns plus every target over {-1,0,2} for n <= 2, intercept on/off, penalties 0.1/1/7 and default; every shape up to 12x7 with patterned entries; large offsets; refits in every order of three data sets; training rows, new rows and one-row batches predicted
//# 30, 100, 300 samples x 3, 9, 17, 33 features; linear regression on sX with targets t*y for s, t powers of two from 2^-30 to 2^30 (coefficients scale by t/s); copies of a fitted model
//! linear regression is judged on full-column-rank designs only (its normal equations are singular otherwise); ridge on any data; the penalty applies to the intercept as well
#include "core.hpp"
#include "methods/linear_model/linear_regression.hpp"
#include "methods/linear_model/ridge_regression.hpp"
using namespace openml;
namespace {
typedef Eigen::Matrix<long double, -1, -1> LM; typedef Eigen::Matrix<long double, -1, 1> LV;
Mat design(const Mat& X, bool ic) { Mat A(X.rows(), X.cols() + ic); A.leftCols(X.cols()) = X; if (ic) A.col(X.cols()).setOnes(); return A; }
Vec solve(const Mat& A, const Vec& y, double lam) { LM a = A.cast<long double>(); LM N = a.transpose() * a; N.diagonal().array() += (long double)lam; LV b = a.transpose() * y.cast<long double>(); return LV(N.fullPivLu().solve(b)).cast<double>(); }
double cond(const Mat& A, double lam) { Mat N = A.transpose() * A; N.diagonal().array() += lam; Vec e = Eigen::SelfAdjointEigenSolver<Mat>(N).eigenvalues(); return e(0) <= 1e-9 * e(e.size() - 1) ? 1e300 : e(e.size() - 1) / e(0); }
template <class M> void judge(M& m, const Mat& X, const Vec& y, const Mat& Q, double lam, bool ic, const std::string& who) {
  Mat A = design(X, ic); double c = cond(A, lam); if (c > 1e8) { mc::throws([&] { m.fit(X, y); }); return; } double tol = std::max(1e-9, c * 1e-14 * 10);
  const Mat X0 = X; const Vec y0 = y; m.fit(X, y); mc::step(); std::ostringstream o; o << who << (ic ? " with" : " without") << " intercept, penalty " << lam << ", on X=" << mc::str(X) << " y=" << mc::str(y); std::string h = o.str(); MC_LOG(h);
  MC_CHECK(X == X0 && y == y0, h << " modified its data"); Vec w = m.get_coef(), r = solve(A, y, lam); MC_CHECK(mc::nearM(w, r, tol), h << ": coefficients " << mc::str(w) << ", the normal equations give " << mc::str(r));
  auto pred = [&](const Mat& Z) { const Mat Z0 = Z; Vec p = m.predict(Z), e = design(Z, ic) * r; mc::step(); MC_CHECK(Z == Z0, h << ": predict modified its data"); double s = 1 + Z.cwiseAbs().maxCoeff() * r.cwiseAbs().maxCoeff() * 10; MC_CHECK(p.size() == e.size() && (p - e).cwiseAbs().maxCoeff() <= tol * 10 * s, h << ": predicts " << mc::str(p) << " for " << mc::str(Z) << ", expected " << mc::str(e)); mc::validated(); };
  pred(X); pred(Q); pred(Q.row(0)); pred(X.bottomRows(1)); MC_CHECK(m.get_coef() == w, h << ": predicting changed the coefficients");
  if (lam == 0) { Vec e = y - design(X, ic) * w; Vec g = A.transpose() * e; MC_CHECK(g.cwiseAbs().maxCoeff() <= tol * 100 * (1 + A.cwiseAbs().maxCoeff() * y.cwiseAbs().maxCoeff()) * y.size(), h << ": residual not orthogonal: " << mc::str(g)); }
  mc::validated();
}
Mat query(int f) { Mat Q(3, f); for (int i = 0; i < 3; ++i) for (int j = 0; j < f; ++j) Q(i, j) = i == 0 ? 0 : i == 1 ? 1.5 - j : 10 * (j + 1); return Q; }
void every(const Mat& X, const Vec& y, bool ic) {
  Mat Q = query(X.cols()); { mc::Dirty<linear_model::LinearRegression<double>> m(0xA5, ic); judge(*m, X, y, Q, 0, ic, "linear regression"); } if (ic) { linear_model::LinearRegression<double> m; judge(m, X, y, Q, 0, true, "default linear regression"); linear_model::RidgeRegression<double> d; judge(d, X, y, Q, 0.5, true, "default ridge regression"); }
  static const double LA[] = {0.1, 1, 7}; for (double l : LA) { mc::Dirty<linear_model::RidgeRegression<double>> m(0xA5, l, ic); judge(*m, X, y, Q, l, ic, "ridge regression"); }
}
Mat pattern(int n, int f, int k) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = std::sin(1.0 + 3.7 * i * (j + 1) + 1.3 * j + k * 0.9) * 2 + (j == 1) * 0.5; return X; }
Vec ptarget(int n, int k) { Vec y(n); for (int i = 0; i < n; ++i) y(i) = ((i * 7 + k) % 5) * 1.25 - 1 + (k == 2) * 100; return y; }
}
MC_SCENARIO(small, 4) {
  static const double V[] = {-1, 0, 1, 2}, T[] = {-1, 0, 2}; static const int SH[][2] = {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {1, 2}, {2, 2}, {3, 2}}; auto& sh = SH[mc::choose(7, "shape")]; int n = sh[0], f = sh[1]; bool ic = mc::choose(2, "intercept"); int t = n <= 2 ? mc::choose(n == 1 ? 3 : 9, "target") : mc::choose(3, "target"); Mat X(n, f); for (int i = 0; i < n * f; ++i) X.data()[i] = mc::pick(V); Vec y(n); for (int i = 0; i < n; ++i) y(i) = n <= 2 ? T[(t / (i ? 3 : 1)) % 3] : t == 0 ? i : t == 1 ? (i % 2 ? -3 : 1) : 5 - i * i; mc::state(X, y, ic); every(X, y, ic);
}
MC_SCENARIO(shapes, 3) { int n = 1 + mc::choose(12, "n"), f = 1 + mc::choose(7, "f"); bool ic = mc::choose(2, "intercept"); int k = mc::choose(3, "data"); mc::state(n, f, ic, k); every(pattern(n, f, k), ptarget(n, k), ic); }
MC_SCENARIO(offsets, 2) { static const double O[] = {-100, 30, 1000}; int n = 4 + mc::choose(5, "n"), f = 1 + mc::choose(2, "f"); double o = mc::pick(O), s = mc::choose(2, "scale") ? 20 : 1; Mat X = pattern(n, f, 1) * s; X.col(0).array() += o; mc::state(X); every(X, ptarget(n, 2), true); every(X, ptarget(n, 1), false); }
MC_SCENARIO(history, 2) { // every sequence of three fits on one object
  int kind = mc::choose(2, "model"); bool ic = mc::choose(2, "intercept"); linear_model::LinearRegression<double> a(ic), oa(!ic); linear_model::RidgeRegression<double> b(2.5, ic), ob(0.2, ic); for (int i = 0; i < 3; ++i) { int d = mc::choose(4, "data"); static const int N[] = {3, 6, 4, 9}, F[] = {1, 2, 1, 4}; Mat X = pattern(N[d], F[d], d); Vec y = ptarget(N[d], d); mc::state(kind, ic, i, d); if (kind) { judge(b, X, y, query(F[d]), 2.5, ic, "refitted ridge regression"); ob.fit(X * 2, y); } else { judge(a, X, y, query(F[d]), 0, ic, "refitted linear regression"); oa.fit(X * 2, y); } Vec w = kind ? b.get_coef() : a.get_coef(); MC_CHECK(mc::nearM(w, solve(design(X, ic), y, kind ? 2.5 : 0), 1e-8), "another model changed the coefficients"); }
}
MC_SCENARIO(larger, 2) { static const int N[] = {30, 100, 300}, F[] = {3, 9, 17, 33}; int n = mc::pick(N, "n"), f = mc::pick(F, "f"); bool ic = mc::choose(2, "intercept"); int k = mc::choose(3, "data"); mc::state(n, f, ic, k); Mat X(n, f); std::uint64_t z = 88172645463325252ull + k; for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; X(i, j) = (double)(z >> 40) / (1 << 23) - 1; } every(X, ptarget(n, k), ic); }
MC_SCENARIO(scaled, 3) { static const int E[] = {-30, -15, 15, 30}, T[] = {-30, 0, 30}; int n = 3 + mc::choose(5, "n"), f = 1 + mc::choose(3, "f"), k = mc::choose(3, "data"); if (f >= n) mc::prune(); double s = std::ldexp(1.0, E[mc::choose(4, "s")]), t = std::ldexp(1.0, T[mc::choose(3, "t")]); Mat X = pattern(n, f, k), Y = s * X; Vec y = ptarget(n, k), u = t * y; double c = cond(X, 0); if (c > 1e6) mc::prune(); mc::state(X, s, t); MC_LOG(mc::str(X) << s << t); Vec r = solve(X, y, 0), rr = solve(X, y, 2); linear_model::LinearRegression<double> a(false); linear_model::RidgeRegression<double> b(2 * s * s, false); a.fit(Y, u); b.fit(Y, u); mc::step(2); Vec w = a.get_coef() * (s / t), v = b.get_coef() * (s / t); MC_CHECK(mc::finite(w) && mc::nearM(w, r, 1e-8), "linear regression on X=" << mc::str(X) << " y=" << mc::str(y) << " scaled by " << s << " and " << t << " gives " << mc::str(w) << " (rescaled), expected " << mc::str(r)); MC_CHECK(mc::finite(v) && mc::nearM(v, rr, 1e-8), "ridge regression on X=" << mc::str(X) << " y=" << mc::str(y) << " scaled by " << s << " and " << t << " gives " << mc::str(v) << " (rescaled), expected " << mc::str(rr)); Vec p = a.predict(Y) / t; MC_CHECK(mc::nearM(p, Vec(X * r), 1e-7), "predictions of the scaled model"); mc::validated(3); }
MC_SCENARIO(copies, 1) { bool ic = mc::choose(2, "intercept"); int a = mc::choose(3, "a"), b = mc::choose(3, "b"), how = mc::choose(2, "how"); Mat A = pattern(6, 2, a), B = pattern(7, 3, b); Vec y = ptarget(6, a), z = ptarget(7, b); mc::state(ic, a, b, how); MC_LOG(ic << a << b << how); auto run = [&](auto m, auto other, double lam) { m.fit(A, y); auto c = m; if (how) { other.fit(B, z); other = m; c = other; } m.fit(B, z); Vec w = solve(design(A, ic), y, lam); MC_CHECK(mc::nearM(Vec(c.get_coef()), w, 1e-8) && mc::nearM(Vec(c.predict(A)), Vec(design(A, ic) * w), 1e-7), "a copied model no longer follows the data it was fitted on"); mc::step(2); mc::validated(); }; run(linear_model::LinearRegression<double>(ic), linear_model::LinearRegression<double>(!ic), 0); run(linear_model::RidgeRegression<double>(1.5, ic), linear_model::RidgeRegression<double>(9, !ic), 1.5); }
