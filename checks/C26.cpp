// flags: -O1
//# softmax regression: every labelled data set with 2-4 samples x 1 feature and 2-3 x 2 over small alphabets with 2 or 3 classes 0..K-1; full-batch training (two rates, penalties 0/1, epochs to convergence) against the gradient-descent recurrence from the symmetric start; single-sample and small batches with every order of the first epoch; separable data labelled correctly; patterned sets up to 12x4 and 30/65 x 9/17 with up to 9 classes; queries up to 1e6, one-row and long batches; refit sequences
//! the recurrence is compared through probabilities when no penalty is set (adding a constant to all columns changes nothing)
//# training twice on data with the same number of features and classes, five data sets each: the second result is that of a fresh object
//# 12, 17, 33, 130 and 260 classes, one or three samples each
#include "core.hpp"
#include "methods/linear_model/softmax_regression.hpp"
using namespace openml;
namespace {
typedef linear_model::SoftmaxRegression<double> SR; using S = std::string; using Z = std::size_t;
Mat design(const Mat& X) { Mat A(X.rows(), X.cols() + 1); A.leftCols(X.cols()) = X; A.col(X.cols()).setOnes(); return A; }
Mat soft(const Mat& Zm) { Mat P = Zm; for (long i = 0; i < P.rows(); ++i) { double m = Zm.row(i).maxCoeff(); double s = 0; for (long k = 0; k < P.cols(); ++k) s += P(i, k) = std::exp(Zm(i, k) - m); P.row(i) /= s; } return P; }
double ce(const Mat& A, const Vec& y, const Mat& W) { Mat z = A * W; double s = 0; for (long i = 0; i < z.rows(); ++i) { double m = z.row(i).maxCoeff(), t = 0; for (long k = 0; k < z.cols(); ++k) t += std::exp(z(i, k) - m); s += std::log(t) + m - z(i, (long)y(i)); } return s / z.rows(); }
Mat grad(const Mat& A, const Vec& y, const Mat& W) { Mat P = soft(A * W); for (long i = 0; i < P.rows(); ++i) P(i, (long)y(i)) -= 1; return A.transpose() * P / (double)A.rows(); }
void consistent(const SR& m, const Mat& X, int K, const S& h) { Mat W = m.get_coef(); MC_CHECK(W.rows() == X.cols() + 1 && W.cols() == K && mc::finite(W), h << ": coefficients " << mc::str(W)); long f = X.cols(); Mat Q(5, f); for (long j = 0; j < f; ++j) Q.col(j) << 0, 0.75 - j, -3 + 2 * j, 1e3, -1e6; for (const Mat& B : {Mat(X), Q, mc::tall(X, Q), Mat(Q.row(1)), Mat(Q.row(4)), Mat(X.row(0))}) { const Mat B0 = B; Mat p = m.predict_prob(B); Vec l = m.predict(B); mc::step(2); MC_CHECK(B == B0, h << ": prediction modified its data"); Mat z = design(B) * W, e = soft(z); MC_CHECK(p.rows() == B.rows() && p.cols() == K && l.size() == B.rows(), h << ": prediction has shape " << mc::str(p) << " / " << mc::str(l)); MC_CHECK(mc::nearM(p, e, 1e-8), h << ": probabilities " << mc::str(p) << " for " << mc::str(B) << " with coefficients " << mc::str(W) << ", expected " << mc::str(e)); for (long i = 0; i < B.rows(); ++i) { MC_CHECK(p.row(i).minCoeff() >= 0 && mc::near(p.row(i).sum(), 1, 1e-12), h << ": probabilities " << mc::str(p.row(i)) << " are no distribution"); long c = (long)l(i); MC_CHECK(c == l(i) && c >= 0 && c < K && p(i, c) >= p.row(i).maxCoeff() - 1e-12, h << ": label " << l(i) << " for " << mc::str(B.row(i)) << " with probabilities " << mc::str(p.row(i))); } mc::validated(B.rows()); } }
S desc(const S& who, const Mat& X, const Vec& y) { S s = who + " on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(s); return s; }
void fit(SR& m, const Mat& X, const Vec& y, int K, const S& h, bool drops = false) { const Mat X0 = X; const Vec y0 = y; m.fit(X, y); mc::step(); MC_CHECK(X == X0 && y == y0, h << " modified its data"); consistent(m, X, K, h); if (drops) MC_CHECK(ce(design(X), y, m.get_coef()) <= std::log((double)K) + 1e-9, h << ": cross-entropy " << ce(design(X), y, m.get_coef()) << " above the start"); }
struct Data { Mat X; Vec y; int K; };
Data gen(bool small) { static const double U[] = {-1, 0, 2}, V[] = {-1, 1, 2}; int s = mc::choose(small ? 4 : 5, "shape"); static const int N[] = {2, 3, 4, 2, 3}; int n = N[s], f = s < 3 ? 1 : 2, K = 2 + mc::choose(2, "classes"); Data d{Mat(n, f), Vec(n), K}; int c = 1; for (int i = 0; i < n; ++i) c *= K; c = mc::choose(c, "labels"); unsigned seen = 0; for (int i = 0; i < n; ++i) { d.y(i) = c % K; seen |= 1u << (c % K); c /= K; } if (seen != (1u << K) - 1) mc::prune(); for (int i = 0; i < n * f; ++i) d.X.data()[i] = f == 1 ? mc::pick(U) : mc::pick(V); return d; }
// one-against-all separability with a margin, over a grid of directions
bool separable(const Data& d, double need) { Mat A = design(d.X); long f = A.cols(); double R = A.rowwise().norm().maxCoeff(); for (int k = 0; k < d.K; ++k) { int G = f == 2 ? 8 : 5; double best = -1; std::vector<int> c(f, -G); while (true) { Vec u(f); for (long j = 0; j < f; ++j) u(j) = c[j]; if (u.norm() > 0) { Vec z = A * u / u.norm(); double m = 1e300; for (long i = 0; i < z.size(); ++i) m = std::min(m, d.y(i) == k ? z(i) : -z(i)); best = std::max(best, m); } long j = 0; while (j < f && ++c[j] > G) c[j++] = -G; if (j == f) break; } if (best < need * R) return false; } return true; }
}
MC_SCENARIO(full_batch, 3) { Data d = gen(false); double lam = mc::choose(2, "penalty"), a = mc::choose(2, "rate") ? 0.8 : 0.1; long n = d.X.rows(); bool stop = mc::choose(2, "stop"); double tol = stop ? 1e-2 : 1e-7; Z nic = stop ? 2 : 4; if (n * d.X.cols() == 6 && (a > 0.5) != stop && !mc::thorough()) mc::prune(); mc::state(d.X, d.y, lam, a, stop); mc::env_stream(n); S h = desc("softmax regression (full batch, rate " + mc::num(a) + ", penalty " + mc::num(lam) + ", tol " + mc::num(tol) + ")", d.X, d.y); mc::Dirty<SR> m(0xA5, a, lam, tol, (Z)(n + stop), (Z)3000, nic, S("sgd"), S(lam ? "l2" : "None"), true, n == 2); fit(*m, d.X, d.y, d.K, h, a < 0.5);
  Mat A = design(d.X), W = Mat::Ones(A.cols(), d.K); optimizer::StepDecay<double> sd(a); double best = INFINITY; Z cnt = 0; bool trust = true; for (int e = 0; e < 3000; ++e) { W -= sd.compute(e) * (grad(A, d.y, W) + lam / n * W); double l = ce(A, d.y, W) + lam / n / 2 * W.squaredNorm(), thr = best - tol * n; if (!std::isinf(best) && std::fabs(l - thr) < 1e-10) trust = false; cnt = l > thr ? cnt + 1 : 0; best = std::min(best, l); if (cnt >= nic) break; } Mat P = soft(A * W), p = m->predict_prob(d.X); if (trust) MC_CHECK(mc::nearM(p, P, 1e-7), h << ": probabilities " << mc::str(p) << ", gradient descent from the symmetric start gives " << mc::str(P)); else MC_CHECK(mc::nearM(p, P, 0.05), h << ": probabilities " << mc::str(p) << " far from " << mc::str(P)); if (trust && lam) { Mat c = m->get_coef(); MC_CHECK(mc::nearM(c, W, 1e-7), h << ": coefficients " << mc::str(c) << " not " << mc::str(W)); } mc::validated(2); }
MC_SCENARIO(orders, 3) { Data d = gen(true); int n = d.X.rows(), b = mc::choose(2, "batch"); mc::state(d.X, d.y, b); if (n == 4 && b && !mc::thorough()) mc::prune(); mc::env_enumerate(1); S h = desc("softmax regression (batch " + mc::num(b ? n : 1) + ")", d.X, d.y); SR m(4, 0, 1e-5, b ? n : 1, 3000, 40, "sgd", "None", true, false); bool sep = separable(d, 0.15); fit(m, d.X, d.y, d.K, h, sep); if (sep) { Vec l = m.predict(d.X); MC_CHECK(l == d.y, h << ": labels the separable training data " << mc::str(l) << " with coefficients " << mc::str(m.get_coef())); mc::validated(); } }
MC_SCENARIO(larger, 3) { int n = mc::size(4, 12, {30, 65}, "n"), f = mc::size(1, 4, {9, 17}, "f"), K = mc::size(2, 4, {9}, "classes"), b = mc::choose(3, "batch"); if (K > n) mc::prune(); Z bs = b == 0 ? 1 : b == 1 ? 3 : n; Data d{Mat(n, f), Vec(n), K}; for (int i = 0; i < n; ++i) { d.y(i) = i % K; for (int j = 0; j < f; ++j) d.X(i, j) = std::sin(1 + 2.7 * i * (j + 1)) * 0.4 + (j == i % K % f ? 2.0 : -0.5) * (1 + (i % K) / f); } mc::state(n, f, K, bs); mc::env_stream(n); S h = desc("softmax regression (batch " + mc::num(bs) + ")", d.X, d.y); SR m(1, 0, 1e-5, bs, 3000, 20, "sgd", "None", true, false); fit(m, d.X, d.y, K, h, f >= K); if (f >= K) { Vec l = m.predict(d.X); MC_CHECK(l == d.y, h << ": labels the separable training data " << mc::str(l)); } MC_CHECK(mc::throws([&] { SR q(1, 0, 1e-5, bs, 3, 9, "sgd", "None", true, false); q.fit(d.X, d.y); }), h << ": an epoch budget below the patience is accepted"); mc::validated(2); }
MC_SCENARIO(history, 2) { int b = 1 + mc::choose(3, "batch"); mc::choose(1); auto make = [&] { return SR(0.7, 0.2, 1e-4, b, 3000, 6, "sgd", "l2", true, false); }; SR a = make(), o = make(), def; for (int t = 0; t < 3; ++t) { int k = mc::choose(3, "data"); mc::state(b, t, k); static const int N[] = {4, 6, 5}, F[] = {1, 3, 2}, KK[] = {2, 3, 4}; Data d{Mat(N[k], F[k]), Vec(N[k]), KK[k]}; for (int i = 0; i < N[k]; ++i) { d.y(i) = (i * 5 + 1) % KK[k]; if (k == 0) d.y(i) = i % 2; for (int j = 0; j < F[k]; ++j) d.X(i, j) = std::sin(1 + 2.7 * i * (j + 1) + k); } S h = desc("refitted softmax regression", d.X, d.y); mc::env_stream(k + 1); fit(a, d.X, d.y, d.K, h); Mat w = a.get_coef(); SR fresh = make(); mc::env_stream(k + 1); fresh.fit(d.X, d.y); MC_CHECK(mc::nearM(w, fresh.get_coef(), 1e-9), h << ": coefficients " << mc::str(w) << ", a fresh model gives " << mc::str(fresh.get_coef())); def.fit(d.X, d.y); consistent(def, d.X, d.K, h + " (default)"); o.fit(d.X * 2, d.y); MC_CHECK(a.get_coef() == w, h << ": another model changed the coefficients"); mc::step(3); mc::validated(); } }
MC_SCENARIO(refit_same_shape, 2) {
  int a = mc::choose(5, "first"), b = mc::choose(5, "second"), f = 1 + mc::choose(2, "f"), K = 2 + mc::choose(2, "classes"), it = mc::choose(3, "budget"), bs = 1 + mc::choose(3, "batch"); auto set = [&](int k) { Data d{Mat(6 - k % 2, f), Vec(6 - k % 2), K}; for (long i = 0; i < d.y.size(); ++i) { for (int j = 0; j < f; ++j) d.X(i, j) = std::sin(1 + 2.7 * i * (j + 1) + k) * (k == 3 ? 4 : 1); d.y(i) = (i * 5 + k) % K; } return d; }; Data p = set(a), q = set(b); Z n = it == 0 ? 1 : it == 1 ? 7 : 40; mc::state(a, b, f, K, it, bs);
  auto make = [&] { return SR(0.3, 0.1, 1e300, bs, n + 1, n, "sgd", b % 2 ? "l2" : "None", true, false); }; S h = desc("softmax regression, " + mc::num(n) + " epochs, refitted after X=" + mc::str(p.X), q.X, q.y); SR m = make(), c = make(); mc::env_stream(a + 1); m.fit(p.X, p.y); mc::env_stream(b + 1); m.fit(q.X, q.y); mc::env_stream(b + 1); c.fit(q.X, q.y); mc::step(3); MC_CHECK(mc::nearM(m.get_coef(), c.get_coef(), 1e-9), h << ": coefficients " << mc::str(m.get_coef()) << ", a fresh model gives " << mc::str(c.get_coef())); mc::validated();
}
MC_SCENARIO(many_classes, 2) { static const int KS[] = {12, 17, 33, 130, 260}; int K = mc::pick(KS, "classes"), r = mc::choose(2, "repeats") * 2 + 1, b = mc::choose(2, "batch"), o = mc::choose(2, "order"); if (K > 33 && (r > 1 || b) && !mc::thorough()) mc::prune(); int n = K * r; Data d{Mat(n, 2), Vec(n), K}; for (int i = 0; i < n; ++i) { int c = o ? K - 1 - i % K : (i * 7) % n % K; d.y(i) = c; d.X.row(i) << 3 * std::cos(2 * M_PI * c / K), 3 * std::sin(2 * M_PI * c / K); } if (o == 0 && n % 7 == 0) mc::prune(); mc::state(K, r, b, o); mc::env_stream(K); S h = "softmax regression with " + mc::num(K) + " classes"; SR m(0.5, 0, 1e300, b ? 8 : n, 400, 390, "sgd", "None", true, false); fit(m, d.X, d.y, K, h); mc::validated(); }
