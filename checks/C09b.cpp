// flags: -O1
//# SVD: every matrix of shape r x c, r*c <= 6, over {-1,0,1,2}, every 3x3 over {-1,0,1}; every shape 1..20 x 1..20 (thorough 30 x 30; both the Jacobi and the divide-and-conquer path) with five patterned fillings, economy and full
//# every shape out of 1..3, 15, 16, 17, 33, 48, 70 (thorough also 100) squared with five fillings; shapes out of 1..4, 9, 17, 20 squared scaled by 2^+-40, 2^+-200; default flag
//# every product of an orthogonal 12..50 x 12..50 factor and a matrix of rank 0 to 12 with 16..70 columns on 3 numbered streams (rank deficient up to rounding)
#include "core.hpp"
using namespace openml;
namespace {
void svd(const Mat& X) {
  const Mat X0 = X; long r = X.rows(), c = X.cols(), k = std::min(r, c); MC_LOG("X=" << mc::str(X)); mc::state(X); double sc = X.cwiseAbs().maxCoeff() * std::max(r, c); if (sc == 0) sc = 1;
  for (int full = 0; full < 2; ++full) {
    Mat U, V; Vec s; std::tie(U, s, V) = math::exact_svd<Mat, Vec>(X, full); mc::step(); MC_CHECK(X == X0, "svd modified its input"); long u = full ? r : k, v = full ? c : k;
    MC_CHECK(U.rows() == r && U.cols() == u && V.rows() == c && V.cols() == v && s.size() == k, "svd(full=" << full << ") of " << r << "x" << c << " has shapes " << U.rows() << "x" << U.cols() << "," << s.size() << "," << V.rows() << "x" << V.cols());
    MC_CHECK((U.transpose() * U - Mat::Identity(u, u)).cwiseAbs().maxCoeff() < 1e-9 && (V.transpose() * V - Mat::Identity(v, v)).cwiseAbs().maxCoeff() < 1e-9, "singular vectors of " << mc::str(X) << " are not orthonormal (full=" << full << ")");
    for (long i = 0; i < k; ++i) MC_CHECK(s(i) >= 0 && (i == 0 || s(i) <= s(i - 1)), "singular values of " << mc::str(X) << " are " << mc::str(s.transpose()));
    Mat R = U.leftCols(k) * s.asDiagonal() * V.leftCols(k).transpose(); MC_CHECK((R - X).cwiseAbs().maxCoeff() <= 1e-9 * sc, "U*S*V^T of " << mc::str(X) << " is " << mc::str(R)); mc::validated();
  }
}
}
MC_SCENARIO(small, 4) { static const double V[] = {-1, 0, 1, 2}; int r = 1 + mc::choose(6, "r"), c = 1 + mc::choose(6, "c"); if (r * c > 6 && !(r == 3 && c == 3)) mc::prune(); int a = r * c == 9 && !mc::thorough() ? 3 : 4; Mat X(r, c); if (r * c == 1) mc::choose(1); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = V[mc::choose(a, "x")]; svd(X); }
MC_SCENARIO(shapes, 2) {
  int n = mc::thorough() ? 30 : 20; int r = 1 + mc::choose(n, "r"), c = 1 + mc::choose(n, "c"), k = mc::choose(5, "fill"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 0 ? 0 : k == 1 ? 3 : k == 2 ? (i + 1) * (j - 2.0) : k == 3 ? (i == j ? 10 : 0) + ((i * 7 + j * 3) % 5 - 2) : std::pow(2.0, (i * 5 + j * 11) % 13 - 6) * ((i + j) % 2 ? 1 : -1); svd(X); }
namespace { Mat pat(int r, int c, int k) { Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 0 ? 0 : k == 1 ? 3 : k == 2 ? (i + 1) * (j - 2.0) : k == 3 ? (i == j ? 10 : 0) + ((i * 7 + j * 3) % 5 - 2) : std::pow(2.0, (i * 5 + j * 11) % 13 - 6) * ((i + j) % 2 ? 1 : -1); return X; } }
MC_SCENARIO(larger, 2) { int r, c; if (mc::thorough()) { r = mc::size(1, 3, {15, 16, 17, 33, 48, 70, 100}, "r"); c = mc::size(1, 3, {15, 16, 17, 33, 48, 70, 100}, "c"); } else { r = mc::size(1, 3, {15, 16, 17, 33, 48, 70}, "r"); c = mc::size(1, 3, {15, 16, 17, 33, 48, 70}, "c"); } svd(pat(r, c, mc::choose(5, "fill"))); }
MC_SCENARIO(scaled, 2) { static const int E[] = {-200, -40, 40, 200}; int r = mc::size(1, 4, {9, 17, 20}, "r"), c = mc::size(1, 4, {9, 17, 20}, "c"), k = 1 + mc::choose(4, "fill"); svd(std::ldexp(1.0, E[mc::choose(4, "scale")]) * pat(r, c, k)); }
MC_SCENARIO(defaults, 1) { int r = mc::size(1, 5, {18}, "r"), c = mc::size(1, 5, {18}, "c"), k = mc::choose(5, "fill"); Mat X = pat(r, c, k), U, V, u, v; Vec s, t; mc::state(X); MC_LOG(mc::str(X)); std::tie(U, s, V) = math::exact_svd<Mat, Vec>(X); std::tie(u, t, v) = math::exact_svd<Mat, Vec>(X, false); MC_CHECK(U.rows() == u.rows() && U.cols() == u.cols() && V.cols() == v.cols() && mc::nearM(Mat(s), Mat(t)), "exact_svd without a flag is not the economy form"); mc::step(2); mc::validated(); }
MC_SCENARIO(rank_deficient, 2) { // zero singular values only up to rounding
  static const int N[] = {12, 17, 33, 50}, M[] = {16, 33, 40, 70}; int r = mc::pick(N, "r"), c = mc::pick(M, "c"), f = mc::choose(6, "fill"), sd = mc::choose(mc::thorough() ? 12 : 3, "stream"); std::uint64_t z = 88172645463325252ull + 7919 * sd + r * 64 + c; auto u = [&] { z ^= z << 13; z ^= z >> 7; z ^= z << 17; return (double)(z >> 11) / (double)(1ull << 52) - 1; }; Mat G(r, r), X; for (long i = 0; i < G.size(); ++i) G.data()[i] = u();
  if (f < 3) { X = Mat(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = f == 0 ? 2 : (i + 1) * (j - 2.0) + (f == 2 ? (i % 2) * 3 : 0); Mat Q = Eigen::HouseholderQR<Mat>(G).householderQ(); X = (Q * X).eval(); } else { int k = 3 * (f - 2) - 2; Mat A(r, k), B(k, c); for (long i = 0; i < A.size(); ++i) A.data()[i] = u(); for (long i = 0; i < B.size(); ++i) B.data()[i] = u(); X = A * B; } svd(X); }
