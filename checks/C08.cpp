// flags: -O1
//# every matrix with up to 4 (thorough 5) entries, all shapes, over {0,1,-1,40,-40,800,-800,1e300,-1e300}; every shape 1..24 x 1..12 with patterned moderate and extreme entries; each row/column also shifted by +-5, +-700 for softmax/logsumexp
//# gaussian density over a grid of x, mean, variance; diagmat and row_norms on all small vectors/matrices
//! entries are finite; reference in long double
//# every matrix of up to 3 entries over 12 fractional and near-overflow values (+-88.8, +-104, 709.5, -745.5: where float or naive formulas fail), shapes 1..3, 17, 33, 70 x 1..3, 9, 17, 33
#include "core.hpp"
using namespace openml;
namespace {
typedef long double LD;
void one(const Mat& X) {
  const Mat X0 = X; MC_LOG("X=" << mc::str(X)); mc::state(X);
  Mat s = math::sigmoid<Mat>(X), t = math::sigmoid<Mat>(-X); mc::step(2); MC_CHECK(s.rows() == X.rows() && s.cols() == X.cols(), "sigmoid shape");
  for (long i = 0; i < X.size(); ++i) { LD w = X.data()[i] >= 0 ? 1 / (1 + expl(-(LD)X.data()[i])) : expl((LD)X.data()[i]) / (1 + expl((LD)X.data()[i])); MC_CHECK(s.data()[i] >= 0 && s.data()[i] <= 1 && std::fabs(s.data()[i] - (double)w) <= 1e-12 * (double)w + 1e-300 && std::fabs(s.data()[i] + t.data()[i] - 1) < 1e-12, "sigmoid(" << X.data()[i] << ")=" << s.data()[i] << " not " << (double)w); }
  for (int axis = -1; axis < 2; ++axis) {
    Mat p = math::softmax<Mat>(X, axis); Vec l = math::logsumexp<Mat, Vec>(X, axis); mc::step(2); long n = axis == 0 ? X.cols() : axis == 1 ? X.rows() : 1, m = X.size() / n; MC_CHECK(p.rows() == X.rows() && p.cols() == X.cols(), "softmax shape"); MC_CHECK(l.size() == n, "logsumexp(axis=" << axis << ") of " << X.rows() << "x" << X.cols() << " has " << l.size() << " entries");
    auto at = [&](const Mat& A, long k, long i) { return axis == 0 ? A(i, k) : axis == 1 ? A(k, i) : A.data()[i]; };
    for (long k = 0; k < n; ++k) { LD mx = at(X, k, 0); for (long i = 0; i < m; ++i) mx = std::max<LD>(mx, at(X, k, i)); LD z = 0; for (long i = 0; i < m; ++i) z += expl(at(X, k, i) - mx); double sum = 0;
      for (long i = 0; i < m; ++i) { double w = (double)(expl(at(X, k, i) - mx) / z), g = at(p, k, i); sum += g; MC_CHECK(g >= 0 && std::fabs(g - w) <= 1e-10, "softmax(axis=" << axis << ") of " << mc::str(X) << " gives " << g << " where " << w << " is right"); }
      MC_CHECK(std::fabs(sum - 1) < 1e-9, "softmax(axis=" << axis << ") of " << mc::str(X) << " sums to " << sum); MC_CHECK(mc::near(l(k), (double)(mx + logl(z)), 1e-12), "logsumexp(axis=" << axis << ") of " << mc::str(X) << " is " << l(k) << " not " << (double)(mx + logl(z))); }
    mc::validated(2);
  }
  bool big = X.cwiseAbs().maxCoeff() > 1e100;
  if (!big) for (double c : {5.0, -700.0}) { Mat Y = X.array() + c; for (int axis = 0; axis < 2; ++axis) { MC_CHECK(mc::nearM(math::softmax<Mat>(Y, axis), math::softmax<Mat>(X, axis), 1e-9), "softmax changed by a constant shift of " << c << " on " << mc::str(X)); mc::step(2); } }
  Mat q = math::softmax<Mat>(X); mc::step(); MC_CHECK(mc::nearM(q, math::softmax<Mat>(X, 0)), "softmax default axis is not 0");
  if (!big) { Mat r = math::row_norms<Mat, Vec>(X), r2 = math::row_norms<Mat, Vec>(X, true); mc::step(2); MC_CHECK(r.size() == X.rows() && r2.size() == X.rows(), "row_norms size"); for (long i = 0; i < X.rows(); ++i) { LD a = 0; for (long j = 0; j < X.cols(); ++j) a += (LD)X(i, j) * X(i, j); MC_CHECK(mc::near(r2.data()[i], a) && mc::near(r.data()[i], sqrtl(a)), "row_norms of " << mc::str(X)); } }
  Vec v = Eigen::Map<const Vec>(X.data(), X.size()); Mat D = math::diagmat<Mat, Vec>(v); mc::step(); MC_CHECK(D.rows() == v.size() && D.cols() == v.size(), "diagmat shape"); for (long i = 0; i < v.size(); ++i) for (long j = 0; j < v.size(); ++j) MC_CHECK(D(i, j) == (i == j ? v(i) : 0), "diagmat of " << mc::str(v.transpose()) << " is " << mc::str(D));
  Vec sv = math::sigmoid<Vec>(v); mc::step(); MC_CHECK(sv.size() == v.size() && (sv.array() == Eigen::Map<const Vec>(s.data(), s.size()).array()).all(), "sigmoid of a vector differs from sigmoid of a matrix");
  MC_CHECK(X == X0, "input modified"); mc::validated(6);
}
}
MC_SCENARIO(extremes, 4) {
  static const double V[] = {0, 1, -1, 40, -40, 800, -800, 1e300, -1e300}; int m = mc::thorough() ? 5 : 4; int r = 1 + mc::choose(m, "r"), c = 1 + mc::choose(m, "c"); if (r * c > m) mc::prune(); if (r * c == 1) mc::choose(1); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = mc::pick(V, "x"); one(X);
}
MC_SCENARIO(shapes, 3) { int r = 1 + mc::choose(24, "r"), c = 1 + mc::choose(12, "c"), k = mc::choose(3, "fill"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 0 ? ((i * 7 + j * 5) % 9 - 4) * 0.5 : k == 1 ? ((i * 3 + j * 11) % 7 - 3) * 300.0 : (i == j ? 1e300 : -1e300 * (j % 2)); one(X); }
MC_SCENARIO(monotone, 1) { int k = mc::choose(60, "k"); double a = (k - 30) * 1.7, b = a + 0.3; Mat A(1, 2); A << a, b; Mat s = math::sigmoid<Mat>(A); mc::step(); MC_CHECK(s(0) <= s(1), "sigmoid not monotone at " << a); mc::state(k); MC_LOG(a); mc::validated(); }
MC_SCENARIO(density, 3) {
  static const double X[] = {0, 1, -2.5, 100, 1e6}, U[] = {0, 1, -3, 1e6}, V[] = {1e-9, 0.25, 1, 7, 1e8}; double x = mc::pick(X, "x"), u = mc::pick(U, "u"), v = mc::pick(V, "v"); double g = math::gaussian_fn<double>(x, u, v); LD w = -((LD)x - u) * ((LD)x - u) / (2 * (LD)v) - 0.5L * logl(2 * M_PIl * (LD)v); mc::step(); mc::state(x, u, v); MC_LOG(x << " " << u << " " << v << " " << g); MC_CHECK(mc::near(g, w, 1e-12), "gaussian log density at x=" << x << " mean " << u << " var " << v << " is " << g << " not " << (double)w); mc::validated();
}
MC_SCENARIO(fine, 4) { static const double V[] = {0.25, -0.75, 0.1, 1e-10, 36.5, -37.5, 88.8, -104, 709.5, -745.5, 16777217, 1e5 + 0.25}; int r = 1 + mc::choose(3, "r"), c = 1 + mc::choose(3, "c"); if (r * c > (mc::thorough() ? 4 : 3)) mc::prune(); if (r * c == 1) mc::choose(1); Mat X(r, c); for (int i = 0; i < r * c; ++i) X.data()[i] = mc::pick(V, "x"); one(X); }
MC_SCENARIO(larger, 2) { int r = mc::size(1, 3, {17, 33, 70}, "r"), c = mc::size(1, 3, {9, 17, 33}, "c"), k = mc::choose(5, "fill"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 0 ? ((i * 7 + j * 5) % 9 - 4) * 0.37 : k == 1 ? ((i * 3 + j * 11) % 7 - 3) * 300.0 : k == 2 ? 0.1 : k == 3 ? (i * c + j) * 0.01 : (i == r - 1 || j == c - 1 ? 800 : -800 + i); one(X); }
