// flags: -O1
//# LU, QR, svd_flip: every matrix of shape r x c, r*c <= 6, over {-1,0,1,2}, every 3x3 over {-1,0,1} (thorough: every 3x3 over {-1,0,1,2}, every 2x4/4x2 over {-1,0,2}); every shape 1..24 x 1..24 with five patterned fillings (zero, constant, rank one, diagonally dominant, graded); both option flags
//# LU, QR: every shape out of 1..4, 25, 33, 48, 65 (thorough also 96, 130) squared with five fillings; patterned matrices of every shape out of 1..5, 9, 17 squared scaled by 2^+-40, 2^+-200; default flags
#include "core.hpp"
using namespace openml;
namespace {
void lu_qr(const Mat& X) {
  const Mat X0 = X; long r = X.rows(), c = X.cols(), k = std::min(r, c); MC_LOG("X=" << mc::str(X)); mc::state(X); double sc = X.cwiseAbs().maxCoeff(); if (sc == 0) sc = 1;
  for (int pl = 0; pl < 2; ++pl) {
    Mat P, L, U; std::tie(P, L, U) = math::lu<Mat>(X, pl); mc::step(); MC_CHECK(X == X0, "lu modified its input");
    MC_CHECK(L.rows() == r && L.cols() == k && U.rows() == k && U.cols() == c && P.rows() == r && P.cols() == (pl ? k : r), "lu of " << r << "x" << c << " has shapes " << P.rows() << "x" << P.cols() << "," << L.rows() << "x" << L.cols() << "," << U.rows() << "x" << U.cols());
    for (long i = 0; i < r; ++i) for (long j = 0; j < k; ++j) { if (j > i) MC_CHECK(L(i, j) == 0, "L is not lower triangular " << mc::str(L)); if (i == j) MC_CHECK(L(i, j) == 1, "L has no unit diagonal " << mc::str(L)); }
    for (long i = 0; i < k; ++i) for (long j = 0; j < i && j < c; ++j) MC_CHECK(U(i, j) == 0, "U is not upper triangular " << mc::str(U));
    if (!pl) for (long i = 0; i < r; ++i) { double rs = 0, cs = 0; for (long j = 0; j < r; ++j) { MC_CHECK(P(i, j) == 0 || P(i, j) == 1, "P is not a permutation " << mc::str(P)); rs += P(i, j); cs += P(j, i); } MC_CHECK(rs == 1 && cs == 1, "P is not a permutation " << mc::str(P)); }
    Mat R = pl ? Mat(P * U) : Mat(P * L * U); MC_CHECK((R - X).cwiseAbs().maxCoeff() <= 1e-9 * sc, "P*L*U of " << mc::str(X) << " is " << mc::str(R)); mc::validated();
  }
  for (int full = 0; full < 2; ++full) {
    Mat Q, R; std::tie(Q, R) = math::qr<Mat>(X, full); mc::step(); MC_CHECK(X == X0, "qr modified its input"); long q = full ? r : k;
    MC_CHECK(Q.rows() == r && Q.cols() == q && R.rows() == q && R.cols() == c, "qr(full=" << full << ") of " << r << "x" << c << " has shapes " << Q.rows() << "x" << Q.cols() << "," << R.rows() << "x" << R.cols());
    for (long i = 0; i < q; ++i) for (long j = 0; j < i && j < c; ++j) MC_CHECK(R(i, j) == 0, "R is not upper triangular " << mc::str(R));
    MC_CHECK((Q.transpose() * Q - Mat::Identity(q, q)).cwiseAbs().maxCoeff() < 1e-9, "Q is not orthonormal for " << mc::str(X) << ": " << mc::str(Q)); MC_CHECK((Q * R - X).cwiseAbs().maxCoeff() <= 1e-9 * sc, "Q*R of " << mc::str(X) << " is " << mc::str(Mat(Q * R))); mc::validated();
  }
}
Mat pattern(int r, int c, int k) { Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 0 ? 0 : k == 1 ? 3 : k == 2 ? (i + 1) * (j - 2.0) : k == 3 ? (i == j ? 10 : 0) + ((i * 7 + j * 3) % 5 - 2) : std::pow(2.0, (i * 5 + j * 11) % 13 - 6) * ((i + j) % 2 ? 1 : -1); return X; }
void flip(const Mat& U, const Mat& V) {
  const Mat U0 = U, V0 = V; MC_LOG("U=" << mc::str(U) << " Vt=" << mc::str(V)); mc::state(U, V);
  for (int ub = 0; ub < 2; ++ub) { Mat a, b; std::tie(a, b) = math::svd_flip<Mat, Vec, IVec>(U, V, ub); mc::step(); MC_CHECK(U == U0 && V == V0, "svd_flip modified its input"); MC_CHECK(a.rows() == U.rows() && a.cols() == U.cols() && b.rows() == V.rows() && b.cols() == V.cols(), "svd_flip changed a shape"); MC_CHECK(mc::nearM(Mat(a * b), Mat(U * V)), "svd_flip changed the product of " << mc::str(U) << " and " << mc::str(V));
    for (long k = 0; k < U.cols(); ++k) {
      bool same = a.col(k) == U.col(k) && b.row(k) == V.row(k), neg = a.col(k) == -U.col(k) && b.row(k) == -V.row(k); Vec w = ub ? Vec(a.col(k)) : Vec(b.row(k).transpose()); bool zero = (w.array() == 0).all(); MC_CHECK(same || neg || zero, "svd_flip did more than change signs: " << mc::str(a) << " " << mc::str(b));
      double m = w.cwiseAbs().maxCoeff(); bool ok = false; for (long i = 0; i < w.size(); ++i) ok |= w(i) == m; MC_CHECK(ok, "svd_flip(u_based=" << ub << ") leaves the largest entry of " << (ub ? "column " : "row ") << k << " negative: " << mc::str(w)); } mc::validated(); }
}
}
MC_SCENARIO(small, 4) {
  static const double V[] = {-1, 0, 1, 2}, W[] = {-1, 0, 2}; int r = 1 + mc::choose(6, "r"), c = 1 + mc::choose(6, "c"); bool t = mc::thorough(); bool big = r * c > 6; if (big && !(r == 3 && c == 3) && !(t && r * c == 8 && (r == 2 || r == 4))) mc::prune(); int alpha = r * c == 9 && !t ? 3 : r * c == 8 ? 0 : 4;
  Mat X(r, c); if (r * c == 1) mc::choose(1); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = alpha == 0 ? mc::pick(W, "x") : V[mc::choose(alpha, "x")]; lu_qr(X);
}
MC_SCENARIO(shapes, 2) { int r = 1 + mc::choose(24, "r"), c = 1 + mc::choose(24, "c"), k = mc::choose(5, "fill"); lu_qr(pattern(r, c, k)); }
MC_SCENARIO(sign_flip, 3) { static const double V[] = {-3, -1, 0, 2}; int k = 1 + mc::choose(2, "k"), r = 1 + mc::choose(k == 1 ? 3 : 2, "r"), c = 1 + mc::choose(k == 1 ? 3 : 2, "c"); Mat U(r, k), W(k, c); for (int i = 0; i < U.size(); ++i) U.data()[i] = mc::pick(V, "u"); for (int i = 0; i < W.size(); ++i) W.data()[i] = mc::pick(V, "v"); flip(U, W); }
MC_SCENARIO(sign_flip_shapes, 3) { int k = 1 + mc::choose(6, "k"), r = k + mc::choose(8, "r"), c = k + mc::choose(8, "c"), f = mc::choose(3, "fill"); flip(pattern(r, k, 2 + f), pattern(k, c, 4 - f)); }
MC_SCENARIO(larger, 2) { int r, c; if (mc::thorough()) { r = mc::size(1, 4, {25, 33, 48, 65, 96, 130}, "r"); c = mc::size(1, 4, {25, 33, 48, 65, 96, 130}, "c"); } else { r = mc::size(1, 4, {25, 33, 48, 65}, "r"); c = mc::size(1, 4, {25, 33, 48, 65}, "c"); } lu_qr(pattern(r, c, mc::choose(5, "fill"))); }
MC_SCENARIO(scaled, 2) { static const int E[] = {-200, -40, 40, 200}; int r = mc::size(1, 5, {9, 17}, "r"), c = mc::size(1, 5, {9, 17}, "c"), k = 1 + mc::choose(4, "fill"); lu_qr(std::ldexp(1.0, E[mc::choose(4, "scale")]) * pattern(r, c, k)); }
MC_SCENARIO(defaults, 1) { int r = 1 + mc::choose(5, "r"), c = 1 + mc::choose(5, "c"), k = mc::choose(5, "fill"); Mat X = pattern(r, c, k), P, L, U, p, l, u; mc::state(X); MC_LOG(mc::str(X)); std::tie(P, L, U) = math::lu<Mat>(X); std::tie(p, l, u) = math::lu<Mat>(X, false); MC_CHECK(mc::nearM(P, p) && mc::nearM(L, l) && mc::nearM(U, u), "lu without flags is not lu(permute_l=false)"); std::tie(P, L) = math::qr<Mat>(X); std::tie(p, l) = math::qr<Mat>(X, false); MC_CHECK(mc::nearM(P, p) && mc::nearM(L, l), "qr without flags is not the economy form"); mc::step(4); mc::validated(2); }
