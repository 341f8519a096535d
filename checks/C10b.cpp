// flags: -O1
//# pinv: every matrix of shape r x c, r*c <= 6, over {-1,0,1,2}, every 3x3 over {-1,0,1}; every shape 1..18 x 1..18 with four patterned fillings (full rank, rank one, zero, rank two), default and explicit cut-off
//# pinv of every shape out of 1..3, 17, 33, 48 squared with four fillings; pinv(sX, s*tol) = pinv(X, tol)/s for s a power of two from 2^-60 to 2^60 and shapes out of 1..4, 9, 17 squared
#include "core.hpp"
using namespace openml;
namespace {
void pinv(const Mat& X, double tol) {
  const Mat X0 = X; MC_LOG("X=" << mc::str(X)); mc::state(X, tol); Mat P = tol < 0 ? math::pinv<Mat, Vec>(X) : math::pinv<Mat, Vec>(X, tol); mc::step(); MC_CHECK(X == X0, "pinv modified its input"); MC_CHECK(P.rows() == X.cols() && P.cols() == X.rows(), "pinv of " << X.rows() << "x" << X.cols() << " has shape " << P.rows() << "x" << P.cols()); MC_CHECK(mc::finite(P), "pinv of " << mc::str(X) << " is not finite");
  Mat XP = X * P, PX = P * X; double a = std::max(1.0, X.cwiseAbs().maxCoeff()) * std::max(X.rows(), X.cols()), b = std::max(1.0, P.cwiseAbs().maxCoeff()); double e = 1e-9 * a * b;
  MC_CHECK((XP * X - X).cwiseAbs().maxCoeff() <= e * a, "X*pinv(X)*X != X for " << mc::str(X)); MC_CHECK((PX * P - P).cwiseAbs().maxCoeff() <= e * b, "pinv*X*pinv != pinv for " << mc::str(X)); MC_CHECK((XP - XP.transpose()).cwiseAbs().maxCoeff() <= e && (PX - PX.transpose()).cwiseAbs().maxCoeff() <= e, "X*pinv(X) is not symmetric for " << mc::str(X)); mc::validated(4);
}
}
MC_SCENARIO(small, 4) { static const double V[] = {-1, 0, 1, 2}; int r = 1 + mc::choose(6, "r"), c = 1 + mc::choose(6, "c"); if (r * c > 6 && !(r == 3 && c == 3)) mc::prune(); int a = r * c == 9 && !mc::thorough() ? 3 : 4; Mat X(r, c); if (r * c == 1) mc::choose(1); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = V[mc::choose(a, "x")]; pinv(X, -1); pinv(X, 1e-8); }
MC_SCENARIO(shapes, 2) { int r = 1 + mc::choose(18, "r"), c = 1 + mc::choose(18, "c"), k = mc::choose(4, "fill"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 0 ? (i == j ? 6 : 0) + ((i * 7 + j * 3) % 5 - 2) * 0.25 : k == 1 ? (i + 1) * (j - 2.0) : k == 2 ? 0 : (i + 1) * (j - 2.0) + (i % 2) * 3; pinv(X, -1); }
MC_SCENARIO(cutoff, 2) { // singular values below the cut-off are treated as zero
  static const double T[] = {1e-6, 1e-3, 0.5}; double t = mc::pick(T, "tol"); int n = 2 + mc::choose(3, "n"); Mat D = Mat::Zero(n, n); D(0, 0) = 4; D(1, 1) = t * 0.5; for (int i = 2; i < n; ++i) D(i, i) = t * 3; Mat P = math::pinv<Mat, Vec>(D, t); mc::step(); Mat W = Mat::Zero(n, n); W(0, 0) = 0.25; for (int i = 2; i < n; ++i) W(i, i) = 1 / (t * 3); mc::state(t, n); MC_LOG(mc::str(P)); MC_CHECK(mc::nearM(P, W), "pinv with cut-off " << t << " of diag " << mc::str(D.diagonal()) << " is " << mc::str(P)); mc::validated(); }
namespace { Mat pat(int r, int c, int k) { Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 0 ? (i == j ? 6 : 0) + ((i * 7 + j * 3) % 5 - 2) * 0.25 : k == 1 ? (i + 1) * (j - 2.0) : k == 2 ? 0 : (i + 1) * (j - 2.0) + (i % 2) * 3; return X; } }
MC_SCENARIO(larger, 2) { int r = mc::size(1, 3, {17, 33, 48}, "r"), c = mc::size(1, 3, {17, 33, 48}, "c"), k = mc::choose(4, "fill"); pinv(pat(r, c, k), -1); }
MC_SCENARIO(scaled, 2) { static const int E[] = {-60, -30, -8, 8, 30, 60}; static const double T[] = {1e-6, 1e-3}; int r = mc::size(1, 4, {9, 17}, "r"), c = mc::size(1, 4, {9, 17}, "c"), k = mc::choose(4, "fill"); double s = std::ldexp(1.0, E[mc::choose(6, "scale")]), t = mc::pick(T, "tol"); Mat X = pat(r, c, k), Y = s * X; mc::state(X, s, t); MC_LOG(mc::str(X) << " * " << s); Mat A = math::pinv<Mat, Vec>(X, t), B = math::pinv<Mat, Vec>(Y, s * t); mc::step(2); MC_CHECK(A.rows() == B.rows() && A.cols() == B.cols() && mc::finite(B) && (s * B - A).cwiseAbs().maxCoeff() <= 1e-8 * std::max(1.0, A.cwiseAbs().maxCoeff()), "pinv of " << mc::str(X) << " scaled by " << s << " is " << mc::str(Mat(s * B)) << " (times the scale) not " << mc::str(A)); mc::validated(); }
