// flags: -O1
//# Gaussian naive Bayes: every data set with 1-4 samples x 1 feature over {0,1,3} and 2-3 x 2 over {0,1,4}, every label vector over 2-3 label values from six alphabets (fractional, negative, huge, equal up to the ninth digit) , smoothing 1e-9/0.1; every shape up to 14x5 and up to 300x33 with 1-20 classes, offsets up to 1e5; training rows, grid and far queries, one-row and long batches; 50, 100, 200 features scaled by 1e-6 .. 1e6 (products of variances beyond the range of a double); refit sequences on one object with a second object in between
//! data without any variation (smoothing portion zero) is outside the property; tolerances scale with the size of the log-likelihoods
//# 400 and 66000 samples with more than 255, 65535 of one class; 256, 257 and 300 classes
#include "core.hpp"
#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
using namespace openml;
namespace {
typedef naive_bayes::GaussianNB<double> NB; typedef long double ld;
struct Ref { std::vector<double> cls; std::vector<ld> prior; std::vector<std::vector<ld>> mu, var; };
Ref reference(const Mat& X, const Vec& y, double sm) { Ref r; std::set<double> s(y.data(), y.data() + y.size()); long n = X.rows(), f = X.cols(); ld top = 0; for (long j = 0; j < f; ++j) { ld m = 0, v = 0; for (long i = 0; i < n; ++i) m += X(i, j); m /= n; for (long i = 0; i < n; ++i) v += (X(i, j) - m) * (X(i, j) - m); top = std::max(top, v / n); } for (double c : s) { r.cls.push_back(c); long k = 0; std::vector<ld> m(f, 0), v(f, 0); for (long i = 0; i < n; ++i) if (y(i) == c) { ++k; for (long j = 0; j < f; ++j) m[j] += X(i, j); } for (auto& z : m) z /= k; for (long i = 0; i < n; ++i) if (y(i) == c) for (long j = 0; j < f; ++j) v[j] += (X(i, j) - m[j]) * (X(i, j) - m[j]); for (auto& z : v) z = z / k + (ld)sm * top; r.prior.push_back((ld)k / n); r.mu.push_back(m); r.var.push_back(v); } return r; }
template <class M> void judge(M& m, const Mat& X, const Vec& y, double sm, const std::string& who) {
  if ((X.rowwise() - X.row(0)).cwiseAbs().maxCoeff() == 0) return; std::string h = who + "(smoothing " + mc::num(sm) + ") on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); const Mat X0 = X; const Vec y0 = y; m.fit(X, y); mc::step(); MC_CHECK(X == X0 && y == y0, h << " modified its data"); Ref r = reference(X, y, sm); long K = r.cls.size(), f = X.cols();
  Vec c = m.get_classes(), p = m.get_prior_prob(); Mat mu = m.get_mean(), va = m.get_var(); MC_CHECK(c.size() == K && p.size() == K, h << ": classes " << mc::str(c) << " priors " << mc::str(p)); MC_CHECK(mu.rows() == K && mu.cols() == f && va.rows() == K && va.cols() == f, h << ": means " << mc::str(mu) << " variances " << mc::str(va));
  double big = 1 + X.cwiseAbs().maxCoeff(); for (long k = 0; k < K; ++k) { MC_CHECK(c(k) == r.cls[k] && mc::near(p(k), (double)r.prior[k], 1e-12), h << ": classes " << mc::str(c) << " with priors " << mc::str(p)); for (long j = 0; j < f; ++j) { MC_CHECK(std::fabs(mu(k, j) - (double)r.mu[k][j]) <= 1e-13 * big, h << ": means " << mc::str(mu) << ", that of class " << c(k) << " feature " << j << " is " << (double)r.mu[k][j]); MC_CHECK(std::fabs(va(k, j) - (double)r.var[k][j]) <= 1e-9 * (double)r.var[k][j] + 1e-14 * big * big * 1e-6, h << ": variances " << mc::str(va) << ", that of class " << c(k) << " feature " << j << " is " << (double)r.var[k][j]); } } mc::validated(2 * K);
  Mat Q(5, f); for (long j = 0; j < f; ++j) Q.col(j) << X(0, j) + 0.3, X.col(j).mean(), X(X.rows() - 1, j) - 1, X(0, j) + 40, 0.5 * j; for (const Mat& B : {Mat(X), Q, mc::tall(X, Q), Mat(Q.row(0)), Mat(Q.row(3)), Mat(X.bottomRows(1))}) { const Mat B0 = B; Mat lp = m.predict_log_prob(B), pr = m.predict_prob(B); Vec l = m.predict(B); mc::step(3); MC_CHECK(B == B0, h << ": prediction modified its data"); MC_CHECK(lp.rows() == B.rows() && lp.cols() == K && pr.rows() == B.rows() && pr.cols() == K && l.size() == B.rows(), h << ": prediction shapes " << mc::str(lp) << mc::str(pr) << mc::str(l));
    for (long i = 0; i < B.rows(); ++i) { std::vector<ld> J(K); ld mx = -1e4000L, s = 0, ab = 1; for (long k = 0; k < K; ++k) { J[k] = std::log(r.prior[k]); for (long j = 0; j < f; ++j) { ld z = B(i, j) - r.mu[k][j]; J[k] += -0.5L * std::log(2 * (ld)M_PI * r.var[k][j]) - z * z / (2 * r.var[k][j]); ab = std::max(ab, (1 + std::fabs((ld)B(i, j)) + std::fabs(r.mu[k][j])) * std::fabs(z) / r.var[k][j] * 1e-3L); } ab = std::max(ab, std::fabs(J[k])); mx = std::max(mx, J[k]); } for (ld j : J) s += std::exp(j - mx); s = mx + std::log(s); double tol = 1e-9 * (double)ab + 1e-9; double sum = 0; long bi = -1; for (long k = 0; k < K; ++k) { double e = J[k] - s; MC_CHECK(std::fabs(lp(i, k) - e) <= tol, h << ": log-probabilities " << mc::str(lp.row(i)) << " for " << mc::str(B.row(i)) << ", that of class " << r.cls[k] << " is " << e); MC_CHECK(std::fabs(pr(i, k) - std::exp(lp(i, k))) <= 1e-9, h << ": probabilities " << mc::str(pr.row(i)) << " do not match their logarithms"); sum += pr(i, k); if (r.cls[k] == l(i)) bi = k; } MC_CHECK(std::fabs(sum - 1) <= tol, h << ": probabilities " << mc::str(pr.row(i)) << " sum to " << sum); MC_CHECK(bi >= 0, h << ": predicts " << l(i) << ", no training label"); MC_CHECK(J[bi] >= mx - tol, h << ": predicts " << l(i) << " for " << mc::str(B.row(i)) << " with log-probabilities " << mc::str(lp.row(i))); } mc::validated(3 * B.rows()); }
}
Mat pattern(int n, int f, int k) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = std::sin(1.0 + 3.7 * i * (j + 1) + k) * (j + 1); return X; }
const double LB[6][3] = {{0, 1, 2}, {-3, 7, 2.5}, {10, 4, 1e6}, {0.5, 0.25, -0.5}, {16777217, 16777216, 16777218}, {1, 1 + 1e-9, 1 - 1e-9}};
}
MC_SCENARIO(small, 4) { static const double U[] = {0, 1, 3}, V[] = {0, 1, 4}; static const int N[] = {1, 2, 3, 4, 2, 3}, F[] = {1, 1, 1, 1, 2, 2}; int s = mc::choose(6, "shape"), n = N[s], f = F[s], a = mc::choose(6, "label values"), K = n < 3 ? 2 : n == 4 || f == 2 ? 2 : 3, c = 1; for (int i = 0; i < n; ++i) c *= K; c = mc::choose(c, "labels"); double sm = mc::choose(2, "smoothing") ? 0.1 : 1e-9; Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { y(i) = LB[a][c % K]; c /= K; } for (int i = 0; i < n * f; ++i) X.data()[i] = f == 1 ? mc::pick(U) : mc::pick(V); mc::state(X, y, sm); if (sm == 1e-9 && c % 2) { NB d; judge(d, X, y, sm, "default Gaussian naive Bayes"); } else { mc::Dirty<NB> m(0xA5, sm); judge(*m, X, y, sm, "Gaussian naive Bayes"); } }
MC_SCENARIO(shapes, 3) { static const double O[] = {0, 1e3, -1e5}; int n = mc::size(2, 14, {40, 100, 300}, "n"), f = mc::size(1, 5, {9, 17, 33}, "f"), K = mc::size(1, 5, {10, 20}, "classes"), o = mc::choose(3, "offset"), a = mc::choose(6, "label values"); if (K > n) mc::prune(); Mat X = pattern(n, f, K); X.array() += O[o]; Vec y(n); for (int i = 0; i < n; ++i) y(i) = LB[a][(i * 2 + i / 3) % K % 3] + ((i * 2 + i / 3) % K > 2 ? 100 + i * 2 % K : 0); mc::state(X, y); NB m; judge(m, X, y, 1e-9, "Gaussian naive Bayes"); NB m2(0.01); judge(m2, X, y, 0.01, "Gaussian naive Bayes"); }
MC_SCENARIO(history, 2) { double sm = mc::choose(2, "smoothing") ? 0.2 : 1e-9; mc::choose(1); NB m(sm), o(0.5); for (int t = 0; t < 3; ++t) { int k = mc::choose(4, "data"); mc::state(sm, t, k); static const int N[] = {4, 7, 5, 6}, F[] = {1, 3, 2, 2}; Mat X = pattern(N[k], F[k], k); Vec y(N[k]); for (int i = 0; i < N[k]; ++i) y(i) = k == 3 ? 8 : LB[(k * 2 + t) % 6][i % (2 + k % 2)]; judge(m, X, y, sm, "refitted Gaussian naive Bayes"); Mat mu = m.get_mean(); o.fit(X * 3, y); MC_CHECK(m.get_mean() == mu, "another model changed the means"); } }
MC_SCENARIO(wide, 2) { static const int F[] = {50, 100, 200}; static const double C[] = {1e-6, 1e-3, 1, 1e3, 1e6}; int f = mc::pick(F, "f"); double c = mc::pick(C, "scale"); int K = 1 + mc::choose(3, "classes"), n = 12 + 9 * mc::choose(2, "n"); double sm = mc::choose(2, "smoothing") ? 0.01 : 1e-9; Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = c * (std::sin(1.0 + 3.7 * i * (j + 1) + K) * (1 + j % 3) + 0.1 * (i % K)); Vec y(n); for (int i = 0; i < n; ++i) y(i) = LB[0][i % K]; mc::state(X, y); NB m(sm); judge(m, X, y, sm, "wide Gaussian naive Bayes"); }
MC_SCENARIO(many, 2) { static const int N[] = {300, 400, 600, 66000}; int n = mc::pick(N, "n"), c = mc::choose(4, "classes"), f = 1 + mc::choose(2, "f"); if (n == 66000 && (c || f > 1)) mc::prune(); static const int KS[] = {2, 3, 256, 257}; int K = n == 600 && c == 3 ? 300 : KS[c]; Mat X = pattern(n, f, c); Vec y(n); for (int i = 0; i < n; ++i) { y(i) = K <= 3 ? (i % 100 == 7 ? 1 : i % 50 == 3 ? K - 1 : 0) * 2.5 : i % K - 100; X(i, 0) += y(i) * 0.1; } mc::state(n, K, f); NB m(1e-3); judge(m, X, y, 1e-3, "Gaussian naive Bayes"); }
