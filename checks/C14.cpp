// flags: -O1
//# squared, logistic, hinge, Huber and softmax loss: every data set with n*f <= 4 (n <= 4, f <= 3) over {-1,0,2}, every label vector, weights over {-1,0,0.5,3} and three penalties, every softmax weight matrix over {-1,0,2} for 2-3 classes with f <= 2; every shape up to 24x8 with patterned entries; scaled so that margins reach +-1e3 and +-1e6
//! gradient = derivative is judged by the closed-form derivative of the reference loss (any convex combination of the one-sided derivatives at a kink)
//# 33, 64, 100, 257, 1030 samples x 1, 3, 17, 33 features, up to 12 classes; targets and entries that differ beyond float precision
//# softmax loss and gradient with 17, 130, 257 and 300 classes
#include "core.hpp"
#include "core/loss/huber_loss.hpp"
using namespace openml;
namespace {
typedef long double LD;
LD softplus(LD z) { return (z > 0 ? z : 0) + log1pl(expl(-fabsl(z))); }
enum Kind { SQ, LOGI, HINGE, HUBER };
const char* NAME[] = {"squared", "logistic", "hinge", "Huber"};
template <class L> void judge(Kind kd, const L& loss, const Mat& X, const Vec& y, const Vec& w, double lam, double thr) {
  long n = X.rows(), f = X.cols(); const Mat X0 = X; const Vec y0 = y, w0 = w; std::vector<LD> z(n); LD v = 0; double zmax = 1;
  std::vector<LD> lo(f, 0), hi(f, 0); double gs = 1;
  for (long i = 0; i < n; ++i) { z[i] = 0; for (long j = 0; j < f; ++j) z[i] += (LD)X(i, j) * w(j); LD a = 0, b = 0; // derivative range w.r.t. z
    if (kd == SQ) { v += 0.5L * (z[i] - y(i)) * (z[i] - y(i)); a = b = z[i] - y(i); }
    if (kd == LOGI) { v += softplus(z[i]) - y(i) * z[i]; a = b = (z[i] >= 0 ? 1 / (1 + expl(-z[i])) : expl(z[i]) / (1 + expl(z[i]))) - y(i); }
    if (kd == HINGE) { LD m = thr - z[i] * y(i); v += m > 0 ? m : 0; if (m > 1e-12L) a = b = -y(i); else if (m < -1e-12L) a = b = 0; else { a = std::min<LD>(0, -y(i)); b = std::max<LD>(0, -y(i)); } }
    if (kd == HUBER) { LD d = z[i] - y(i); v += fabsl(d) <= thr ? 0.5L * d * d : thr * (fabsl(d) - 0.5L * thr); a = b = d > thr ? (LD)thr : d < -thr ? (LD)-thr : d; }
    for (long j = 0; j < f; ++j) { LD p = a * X(i, j), q = b * X(i, j); lo[j] += std::min(p, q); hi[j] += std::max(p, q); gs = std::max(gs, (double)fabsl(p)); } zmax = std::max(zmax, (double)fabsl(z[i])); }
  LD div = kd == HINGE ? 1 : n; v /= div; LD ww = 0; for (long j = 0; j < f; ++j) ww += (LD)w(j) * w(j); v += lam * ww / (2.0L * n);
  MC_LOG(NAME[kd] << " X=" << mc::str(X) << " y=" << mc::str(y) << " w=" << mc::str(w) << " lambda " << lam);
  double e = loss.evaluate(X, y, w); Vec g = loss.gradient(X, y, w); mc::step(2); MC_CHECK(X == X0 && y == y0 && w == w0, "arguments modified");
  MC_CHECK(std::isfinite(e) && mc::near(e, (double)v, 1e-9), NAME[kd] << " loss of X=" << mc::str(X) << " y=" << mc::str(y) << " w=" << mc::str(w) << " lambda=" << lam << " threshold=" << thr << " is " << e << " not " << (double)v);
  MC_CHECK(g.size() == f, "gradient has " << g.size() << " entries"); double tol = 1e-9 * (gs + std::fabs(lam) * w.cwiseAbs().maxCoeff());
  for (long j = 0; j < f; ++j) { LD r = lam * (LD)w(j) / n; MC_CHECK(g(j) >= (double)(lo[j] / div + r) - tol && g(j) <= (double)(hi[j] / div + r) + tol, NAME[kd] << " gradient at X=" << mc::str(X) << " y=" << mc::str(y) << " w=" << mc::str(w) << " lambda=" << lam << " is " << mc::str(g) << "; entry " << j << " should be in [" << (double)(lo[j] / div + r) << "," << (double)(hi[j] / div + r) << "]"); }
  MC_CHECK(loss.evaluate(X, y, w) == e && loss.gradient(X, y, w) == g, NAME[kd] << " loss is not a function of its arguments"); mc::validated(2);
}
void kind(Kind kd, const Mat& X, const Vec& y, const Vec& w, double lam, double thr) {
  switch (kd) { case SQ: lam == 0 ? judge(kd, loss::MSE<double>(), X, y, w, 0, 0) : judge(kd, loss::MSE<double>(lam), X, y, w, lam, 0); break; case LOGI: lam == 0 ? judge(kd, loss::LogLoss<double>(), X, y, w, 0, 0) : judge(kd, loss::LogLoss<double>(lam), X, y, w, lam, 0); break; case HINGE: lam == 0 && thr == 1 ? judge(kd, loss::HingeLoss<double>(), X, y, w, 0, 1) : judge(kd, loss::HingeLoss<double>(lam, thr), X, y, w, lam, thr); break; case HUBER: lam == 0 && thr == 1 ? judge(kd, loss::HuberLoss<double>(), X, y, w, 0, 1) : judge(kd, loss::HuberLoss<double>(lam, thr), X, y, w, lam, thr); }
}
double label(Kind kd, int i) { static const double R[] = {-1.5, 0, 2}; return kd == LOGI ? i % 2 : kd == HINGE ? (i % 2 ? 1 : -1) : R[i % 3]; }
void soft(const Mat& X, const Vec& y, const Mat& W, double lam) {
  long n = X.rows(), f = X.cols(), k = W.cols(); const Mat X0 = X, W0 = W; loss::SoftmaxLoss<double> l0, l1(lam); const auto& loss = lam == 0 ? l0 : l1; LD v = 0; std::vector<std::vector<LD>> G(f, std::vector<LD>(k, 0));
  for (long i = 0; i < n; ++i) { std::vector<LD> z(k, 0); LD m = -INFINITY, s = 0; for (long c = 0; c < k; ++c) { for (long j = 0; j < f; ++j) z[c] += (LD)X(i, j) * W(j, c); m = std::max(m, z[c]); } for (long c = 0; c < k; ++c) s += expl(z[c] - m); v += m + logl(s) - z[(int)y(i)]; for (long c = 0; c < k; ++c) { LD p = expl(z[c] - m) / s - ((int)y(i) == c); for (long j = 0; j < f; ++j) G[j][c] += p * X(i, j); } }
  v = v / n + lam * (LD)W.squaredNorm() / (2.0L * n); MC_LOG("softmax X=" << mc::str(X) << " y=" << mc::str(y) << " W=" << mc::str(W)); mc::state(X, y, W, lam);
  double e = loss.evaluate(X, y, W); Mat g = loss.gradient(X, y, W); mc::step(2); MC_CHECK(X == X0 && W == W0, "arguments modified"); MC_CHECK(std::isfinite(e) && mc::near(e, (double)v, 1e-9), "softmax loss of X=" << mc::str(X) << " y=" << mc::str(y) << " W=" << mc::str(W) << " lambda=" << lam << " is " << e << " not " << (double)v);
  MC_CHECK(g.rows() == f && g.cols() == k, "softmax gradient is " << g.rows() << "x" << g.cols()); double tol = 1e-9 * (1 + X.cwiseAbs().maxCoeff() + lam * W.cwiseAbs().maxCoeff()); for (long j = 0; j < f; ++j) for (long c = 0; c < k; ++c) MC_CHECK(std::fabs(g(j, c) - (double)(G[j][c] / n + lam * (LD)W(j, c) / n)) <= tol, "softmax gradient at X=" << mc::str(X) << " y=" << mc::str(y) << " W=" << mc::str(W) << " lambda=" << lam << " is " << mc::str(g) << "; entry " << j << "," << c << " should be " << (double)(G[j][c] / n + lam * W(j, c) / n)); mc::validated(2);
}
}
MC_SCENARIO(small, 4) {
  static const double V[] = {-1, 0, 2}, W[] = {-1, 0, 0.5, 3}; Kind kd = (Kind)mc::choose(4, "loss"); int n = 1 + mc::choose(4, "n"), f = 1 + mc::choose(3, "f"); if (n * f > (mc::thorough() ? 6 : 4)) mc::prune(); Mat X(n, f); Vec y(n), w(f); for (int i = 0; i < n * f; ++i) X.data()[i] = mc::pick(V, "x"); for (int i = 0; i < n; ++i) y(i) = label(kd, mc::choose(kd == LOGI || kd == HINGE ? 2 : n <= 2 ? 3 : 2, "y")); for (int j = 0; j < f; ++j) w(j) = f == 3 ? W[mc::choose(3, "w")] : mc::pick(W, "w"); mc::state(kd, X, y, w);
  kind(kd, X, y, w, 0, 1); kind(kd, X, y, w, 0.5, 1); kind(kd, X, y, w, 3, 0.3); Vec big = w * 1e3; kind(kd, X, y, big, 0.5, 1); big = w * 1e6; kind(kd, X, y, big, 0, 2);
}
MC_SCENARIO(shapes, 3) { Kind kd = (Kind)mc::choose(4, "loss"); int n = 1 + mc::choose(24, "n"), f = 1 + mc::choose(8, "f"), p = mc::choose(2, "fill"), s = mc::choose(3, "scale"); Mat X(n, f); Vec y(n), w(f); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = (p ? (i * 7 + j * 3) % 5 - 2 : (i * i + 3 * j) % 7 * 0.5 - 1); y(i) = label(kd, i * 5 + p + i / 3); } for (int j = 0; j < f; ++j) w(j) = ((j * 5 + p) % 4 - 1.5) * (s == 0 ? 0.3 : s == 1 ? 50 : 1e4); mc::state(kd, X, y, w); kind(kd, X, y, w, 0, 1); kind(kd, X, y, w, 0.7, 0.55); }
MC_SCENARIO(softmax, 4) { static const double V[] = {-1, 0, 2}; int k = 2 + mc::choose(2, "k"), n = 1 + mc::choose(3, "n"), f = 1 + mc::choose(2, "f"); bool t = mc::thorough(); if (n * f > 4 || (k == 3 && f == 2 && n == 2 && !t)) mc::prune(); Mat X(n, f), W(f, k); for (int i = 0; i < n * f; ++i) X.data()[i] = mc::pick(V, "x"); Vec y(n); for (int i = 0; i < n; ++i) y(i) = mc::choose(k, "y"); for (int i = 0; i < f * k; ++i) W.data()[i] = f * k > 4 ? V[mc::choose(2, "w") * 2] : mc::pick(V, "w"); soft(X, y, W, 0); soft(X, y, W, 0.7); soft(X, y, Mat(W * 500), 0.1); }
MC_SCENARIO(softmax_shapes, 3) { int n = 1 + mc::choose(20, "n"), f = 1 + mc::choose(6, "f"), k = 2 + mc::choose(4, "k"), s = mc::choose(3, "scale"); Mat X(n, f), W(f, k); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = (i * 7 + j * 3) % 5 - 2; y(i) = (i * 3 + i / 2) % k; } for (int j = 0; j < f; ++j) for (int c = 0; c < k; ++c) W(j, c) = ((j * 5 + c * 3) % 4 - 1.5) * (s == 0 ? 0.3 : s == 1 ? 60 : 5e3); soft(X, y, W, 0); soft(X, y, W, 0.9); }
MC_SCENARIO(larger, 3) { Kind kd = (Kind)mc::choose(4, "loss"); static const int N[] = {33, 64, 100, 257, 1030}, F[] = {1, 3, 17, 33}; int n = mc::pick(N, "n"), f = mc::pick(F, "f"), p = mc::choose(3, "fill"); Mat X(n, f); Vec y(n), w(f); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = p == 2 ? 1 + 1e-9 * ((i * 7 + j * 3) % 11) : p ? (i * 7 + j * 3) % 5 - 2 : (i * i + 3 * j) % 7 * 0.5 - 1; y(i) = label(kd, i * 5 + p + i / 3) + (kd == SQ && p == 2 ? 16777217 : 0); } for (int j = 0; j < f; ++j) w(j) = ((j * 5 + p) % 4 - 1.5) * 0.3; mc::state(kd, X, y, w); kind(kd, X, y, w, 0, 1); kind(kd, X, y, w, 0.7, 0.55); }
MC_SCENARIO(softmax_larger, 3) { static const int N[] = {33, 64, 257}, F[] = {1, 7, 17}, K[] = {2, 5, 12}; int n = mc::pick(N, "n"), f = mc::pick(F, "f"), k = mc::pick(K, "k"); Mat X(n, f), W(f, k); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = ((i * 7 + j * 3) % 5 - 2) * 0.37; y(i) = (i * 3 + i / 2) % k; } for (int j = 0; j < f; ++j) for (int c = 0; c < k; ++c) W(j, c) = ((j * 5 + c * 3) % 4 - 1.5) * 0.3; soft(X, y, W, 0); soft(X, y, W, 0.9); }
MC_SCENARIO(many_classes, 2) { static const int K[] = {17, 130, 257, 300}; int k = mc::pick(K, "k"), n = mc::size(1, 3, {40}, "n"), f = mc::size(1, 2, {5}, "f"), p = mc::choose(2, "labels"); Mat X(n, f), W(f, k); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = ((i * 7 + j * 3) % 5 - 1.75) * 0.37; y(i) = p ? k - 1 - i % k : (i * 29) % k; } for (int j = 0; j < f; ++j) for (int c = 0; c < k; ++c) W(j, c) = ((j * 5 + c * 3) % 7 - 3.5) * 0.3; mc::state(k, n, f, p); soft(X, y, W, 0); soft(X, y, W, 0.9); }
