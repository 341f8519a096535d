// flags: -O1
//# multinomial naive Bayes: every count matrix with 1-3 samples x 1-2 features and 2x3 over {0,1,3}, every label vector over 2-3 label values from six alphabets (fractional, negative, huge, equal up to the ninth digit), smoothing 10 (default)/1/0.25; every shape up to 12x6 and up to 300x33 with 1-20 classes; training rows, other counts, zero rows, large counts, one-row and long batches; refit sequences on one object with a second object in between
//! smoothing and counts are non-negative
//# fractional counts (1/4, 3/4, 2.5); 400 and 66000 samples with more than 255, 65535 of one class; 256, 257 and 300 classes
//# no smoothing: every count matrix of 2-3 samples x 2 features over {0,1,3}; queries that some class can produce
#include "core.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
using namespace openml;
namespace {
typedef naive_bayes::MultinomialNB<double> NB; typedef long double ld;
template <class M> void judge(M& m, const Mat& X, const Vec& y, double al, const std::string& who) {
  std::string h = who + "(smoothing " + mc::num(al) + ") on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); const Mat X0 = X; const Vec y0 = y; m.fit(X, y); mc::step(); MC_CHECK(X == X0 && y == y0, h << " modified its data"); std::set<double> s(y.data(), y.data() + y.size()); std::vector<double> cls(s.begin(), s.end()); long K = cls.size(), f = X.cols(), n = X.rows(); Mat cnt = Mat::Zero(K, f); Vec pri = Vec::Zero(K); for (long i = 0; i < n; ++i) for (long k = 0; k < K; ++k) if (y(i) == cls[k]) { cnt.row(k) += X.row(i); pri(k) += 1.0 / n; }
  Vec c = m.get_classes(), p = m.get_prior_prob(); Mat fc = m.get_features_count(); MC_CHECK(mc::nearM(p, pri, 1e-12), h << ": priors " << mc::str(p) << " not " << mc::str(pri)); MC_CHECK(mc::nearM(fc, cnt, 1e-12), h << ": counts " << mc::str(fc) << " not " << mc::str(cnt)); MC_CHECK(c.size() == K, h << ": classes " << mc::str(c)); for (long k = 0; k < K; ++k) MC_CHECK(c(k) == cls[k], h << ": classes " << mc::str(c)); mc::validated(3);
  Mat Q(5, f); for (long j = 0; j < f; ++j) Q.col(j) << 0, j + 1, j == 0 ? 7 : 0, j == f - 1 ? 300 : 1, 2; for (const Mat& B : {Mat(X), Q, mc::tall(X, Q), Mat(Q.row(1)), Mat(Q.row(3)), Mat(X.bottomRows(1))}) { const Mat B0 = B; Mat lp = m.predict_log_prob(B), pr = m.predict_prob(B); Vec l = m.predict(B); mc::step(3); MC_CHECK(B == B0, h << ": prediction modified its data"); MC_CHECK(lp.rows() == B.rows() && lp.cols() == K && pr.rows() == B.rows() && pr.cols() == K && l.size() == B.rows(), h << ": prediction shapes " << mc::str(lp) << mc::str(pr) << mc::str(l));
    for (long i = 0; i < B.rows(); ++i) { std::vector<ld> J(K); ld mx = -1e4000L, t = 0, ab = 1; for (long k = 0; k < K; ++k) { J[k] = std::log((ld)pri(k)); ld den = (ld)cnt.row(k).sum() + (ld)al * f; for (long j = 0; j < f; ++j) J[k] += B(i, j) * std::log(((ld)cnt(k, j) + (ld)al) / den); mx = std::max(mx, J[k]); ab = std::max(ab, std::fabs(J[k])); } for (ld j : J) t += std::exp(j - mx); t = mx + std::log(t); double tol = 1e-10 * (double)ab, sum = 0; long bi = -1; for (long k = 0; k < K; ++k) { double e = J[k] - t; MC_CHECK(std::fabs(lp(i, k) - e) <= tol, h << ": log-probabilities " << mc::str(lp.row(i)) << " for " << mc::str(B.row(i)) << ", that of class " << cls[k] << " is " << e); MC_CHECK(std::fabs(pr(i, k) - std::exp(lp(i, k))) <= 1e-9, h << ": probabilities " << mc::str(pr.row(i)) << " do not match their logarithms"); sum += pr(i, k); if (cls[k] == l(i)) bi = k; } MC_CHECK(std::fabs(sum - 1) <= tol + 1e-9, h << ": probabilities " << mc::str(pr.row(i)) << " sum to " << sum); MC_CHECK(bi >= 0, h << ": predicts " << l(i) << ", no training label"); MC_CHECK(J[bi] >= mx - tol, h << ": predicts " << l(i) << " for " << mc::str(B.row(i)) << " with log-probabilities " << mc::str(lp.row(i))); } mc::validated(3 * B.rows()); }
}
Mat pattern(int n, int f, int k) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = (i * 7 + j * 5 + i * j * 3 + k) % 6; return X; }
const double LB[6][3] = {{0, 1, 2}, {-3, 7, 2.5}, {10, 4, 1e6}, {0.5, 0.25, -0.5}, {16777217, 16777216, 16777218}, {1, 1 + 1e-9, 1 - 1e-9}}; const double AL[] = {10, 1, 0.25};
}
MC_SCENARIO(small, 4) { static const double U[] = {0, 1, 3}; static const int N[] = {1, 2, 3, 1, 2, 3, 2}, F[] = {1, 1, 1, 2, 2, 2, 3}; int s = mc::choose(7, "shape"), n = N[s], f = F[s], a = mc::choose(6, "label values"), K = n == 3 && f == 1 ? 3 : 2, c = 1; for (int i = 0; i < n; ++i) c *= K; c = mc::choose(c, "labels"); int ai = mc::choose(3, "smoothing"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { y(i) = LB[a][c % K]; c /= K; } for (int i = 0; i < n * f; ++i) X.data()[i] = mc::pick(U); mc::state(X, y, ai); if (ai == 0) { NB d; judge(d, X, y, 10, "default multinomial naive Bayes"); } else { mc::Dirty<NB> m(0xA5, AL[ai]); judge(*m, X, y, AL[ai], "multinomial naive Bayes"); } }
MC_SCENARIO(shapes, 3) { int n = mc::size(1, 12, {40, 100, 300}, "n"), f = mc::size(1, 6, {9, 17, 33}, "f"), K = mc::size(1, 5, {10, 20}, "classes"), a = mc::choose(6, "label values"), q = mc::choose(3, "data"); if (K > n) mc::prune(); Mat X = pattern(n, f, q) * (q == 2 ? 0.5 : 1); Vec y(n); for (int i = 0; i < n; ++i) y(i) = LB[a][(i * 2 + i / 3) % K % 3] + ((i * 2 + i / 3) % K > 2 ? 100 + i * 2 % K : 0); mc::state(X, y); for (double al : AL) { NB m(al); judge(m, X, y, al, "multinomial naive Bayes"); } }
MC_SCENARIO(history, 2) { double al = AL[mc::choose(3, "smoothing")]; mc::choose(1); NB m(al), o(0.5); for (int t = 0; t < 3; ++t) { int k = mc::choose(4, "data"); mc::state(al, t, k); static const int N[] = {4, 7, 5, 6}, F[] = {1, 3, 2, 2}; Mat X = pattern(N[k], F[k], k); Vec y(N[k]); for (int i = 0; i < N[k]; ++i) y(i) = k == 3 ? 8 : LB[(k * 2 + t) % 6][i % (2 + k % 2)]; judge(m, X, y, al, "refitted multinomial naive Bayes"); Mat mu = m.get_features_count(); o.fit(X * 3, y); MC_CHECK(m.get_features_count() == mu, "another model changed the counts"); } }
MC_SCENARIO(fractional, 2) { static const double V[] = {0, 0.25, 0.75, 2.5, 1e-9}; int n = 2 + mc::choose(2, "n"), K = 2, c = 1 + mc::choose((1 << n) - 2, "labels"), a = mc::choose(3, "smoothing"), f = n == 2 ? 2 : 1 + mc::choose(mc::thorough() ? 2 : 1, "f"); (void)K; Mat X(n, f); Vec y(n); for (int i = 0; i < n * f; ++i) X.data()[i] = mc::pick(V, "x"); for (int i = 0; i < n; ++i) y(i) = c >> i & 1; mc::state(X, y, a); NB m(AL[a]); judge(m, X, y, AL[a], "multinomial naive Bayes"); }
MC_SCENARIO(many, 2) { static const int N[] = {300, 400, 600, 66000}; int n = mc::pick(N, "n"), c = mc::choose(4, "classes"), f = 1 + mc::choose(2, "f"); if (n == 66000 && (c || f > 1)) mc::prune(); static const int KS[] = {2, 3, 256, 257}; int K = n == 600 && c == 3 ? 300 : KS[c]; Mat X = pattern(n, f, c); Vec y(n); for (int i = 0; i < n; ++i) { y(i) = K <= 3 ? (i % 100 == 7 ? 1 : i % 50 == 3 ? K - 1 : 0) * 2.5 : i % K - 100; X(i, 0) += i % K; } mc::state(n, K, f); NB m(1.0); judge(m, X, y, 1.0, "multinomial naive Bayes"); }
MC_SCENARIO(no_smoothing, 2) { int n = 2 + mc::choose(2, "n"), c = 1 + mc::choose((1 << n) - 2, "labels"); static const double U[] = {0, 1, 3}; Mat X(n, 2); Vec y(n); for (int i = 0; i < 2 * n; ++i) X.data()[i] = mc::pick(U, "x"); for (int i = 0; i < n; ++i) y(i) = c >> i & 1; mc::state(X, y); std::string h = "multinomial naive Bayes without smoothing on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); NB m(0.0); m.fit(X, y); Mat cnt = Mat::Zero(2, 2); Vec pri = Vec::Zero(2); for (int i = 0; i < n; ++i) { cnt.row((int)y(i)) += X.row(i); pri((int)y(i)) += 1.0 / n; }
  for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { Mat q(1, 2); q << a, b; double L[2]; bool defined = true; for (int k = 0; k < 2; ++k) { L[k] = pri(k); double t = cnt.row(k).sum(); for (int j = 0; j < 2; ++j) if (q(0, j) > 0) { if (t == 0) defined = false; else L[k] *= std::pow(cnt(k, j) / t, q(0, j)); } } if (!defined || L[0] + L[1] == 0) continue; Mat pr = m.predict_prob(q), lp = m.predict_log_prob(q); Vec l = m.predict(q); mc::step(3); for (int k = 0; k < 2; ++k) { double e = L[k] / (L[0] + L[1]); MC_CHECK(mc::near(pr(0, k), e, 1e-9), h << ": probabilities " << mc::str(pr) << " for " << mc::str(q) << ", that of class " << k << " is " << e); MC_CHECK(e == 0 ? lp(0, k) < -700 : mc::near(lp(0, k), std::log(e), 1e-9), h << ": log-probabilities " << mc::str(lp) << " for " << mc::str(q)); } MC_CHECK((l(0) == 0 || l(0) == 1) && L[(int)l(0)] >= std::max(L[0], L[1]) * (1 - 1e-9), h << ": predicts " << l(0) << " for " << mc::str(q) << " with probabilities " << mc::str(pr)); mc::validated(3); } }
